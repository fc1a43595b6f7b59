//! Translation of an LLVM module into the form that is executed.
use crate::expr::*;
use crate::llvm::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    E(Eid),
    A(Rc<[Val]>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    /// Integers, pointers (64) and floats, as bits.
    Int(u32),
    Vec(u32, Rc<Ty>),
    /// Fields with offsets; arrays too.
    Agg(Rc<[(u64, Ty)]>, u64),
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Vec(_, t) => t.bits(),
            _ => 0,
        }
    }
    pub fn lanes(&self) -> u32 {
        match self {
            Ty::Vec(n, _) => *n,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Intr(Intr),
    Asm(Rc<str>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memset,
    UMin,
    UMax,
    SMin,
    SMax,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Abs,
    UCmp,
    SCmp,
    Expect,
    ObjectSize,
    IsConstant,
    LoadRelative,
    Trap,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    ReduceXor,
    Bad,
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin(B, Ty, Opd, Opd),
    /// predicate numbers as in LLVM (32..=41)
    Cmp(u32, Ty, Opd, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Select(Ty, Opd, Opd, Opd, bool), // type of result, cond, a, b, pointer
    Gep(Opd, i64, Box<[(Opd, u32, i64)]>),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd), // value, pointer
    Alloca(u64, Opd),
    Call(Callee, Box<[Opd]>, Box<[Ty]>, Ty, Option<u32>),
    Extract(Opd, Box<[u32]>),
    Insert(Ty, Opd, Opd, Box<[u32]>),
    ExtEl(Opd, Opd),
    InsEl(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Box<[i32]>),
    Copy(Opd),
    Rmw(u32, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Fence,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, Box<[(u64, u32)]>, u32),
    Ret(Option<Opd>),
    Unreachable,
    Bad(Rc<str>),
}

#[derive(Debug)]
pub struct Inst {
    pub op: Op,
    pub dst: u32,
    pub loc: u32,
}

#[derive(Default, Debug)]
pub struct Block {
    pub insts: Vec<Inst>,
    /// dst registers of the phis
    pub phis: Vec<(u32, Ty, bool)>, // register, type, is pointer
    /// incoming values by predecessor
    pub from: HashMap<u32, Vec<Opd>>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nargs: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub decl: bool,
    pub ipdom: Vec<u32>, // immediate post-dominator of each block, ignoring blocks that never return
    pub regptr: Vec<bool>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub data: Vec<u8>,
    pub constant: bool,
}

pub const FN_BASE: u64 = 0x1000;
pub const GLOBAL_BASE: u64 = 0x1000000;
pub const NOREG: u32 = u32::MAX;

pub fn fn_addr(i: u32) -> u64 {
    FN_BASE + 16 * i as u64
}
pub fn addr_fn(a: u64) -> Option<u32> {
    if a >= FN_BASE && a < GLOBAL_BASE && a % 16 == 0 {
        Some(((a - FN_BASE) / 16) as u32)
    } else {
        None
    }
}

pub struct Loader {
    td: TD,
    addr: HashMap<V, u64>,
    fnid: HashMap<V, u32>,
    opname: HashMap<u32, String>,
    ar: *mut Arena,
    pub locs: Vec<(u32, u32)>,
    locmap: HashMap<(u32, u32), u32>,
    pub files: Vec<String>,
    filemap: HashMap<String, u32>,
    mdloc: HashMap<Md, u32>,
    tys: HashMap<T, Ty>,
    fvals: Vec<V>,
    pub funcs: Vec<Option<&'static Func>>,
    pub fnames: Vec<String>,
    pub by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
}

impl Loader {
    #[allow(clippy::mut_from_ref)]
    fn ar(&self) -> &mut Arena {
        unsafe { &mut *self.ar }
    }
    pub fn get(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize] {
            return f;
        }
        let f = self.func(self.fvals[id as usize]);
        let f: &'static Func = Box::leak(Box::new(f));
        self.funcs[id as usize] = Some(f);
        f
    }

    fn ty(&mut self, t: T) -> Ty {
        if let Some(x) = self.tys.get(&t) {
            return x.clone();
        }
        let r = unsafe {
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                1 => Ty::Int(16),
                2 => Ty::Int(32),
                3 => Ty::Int(64),
                4 => Ty::Int(80),
                5 | 6 => Ty::Int(128),
                8 => Ty::Int(LLVMGetIntTypeWidth(t)),
                12 => Ty::Int(64),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut v = vec![];
                    for i in 0..n {
                        let o = LLVMOffsetOfElement(self.td, t, i);
                        let e = LLVMStructGetTypeAtIndex(t, i);
                        v.push((o, self.ty(e)));
                    }
                    Ty::Agg(v.into(), LLVMABISizeOfType(self.td, t))
                }
                11 => {
                    let n = LLVMGetArrayLength2(t);
                    let et = LLVMGetElementType(t);
                    let sz = LLVMABISizeOfType(self.td, et);
                    if n > 4096 {
                        // only ever a type of memory, not of a value
                        Ty::Agg(vec![].into(), sz * n)
                    } else {
                        let e = self.ty(et);
                        let v: Vec<(u64, Ty)> = (0..n).map(|i| (i * sz, e.clone())).collect();
                        Ty::Agg(v.into(), sz * n)
                    }
                }
                13 => {
                    let et = LLVMGetElementType(t);
                    let e = self.ty(et);
                    Ty::Vec(LLVMGetVectorSize(t), Rc::new(e))
                }
                _ => Ty::Void,
            }
        };
        self.tys.insert(t, r.clone());
        r
    }

    fn opc(&mut self, n: u32, v: V) -> String {
        if let Some(s) = self.opname.get(&n) {
            return s.clone();
        }
        let p = print(v);
        let p = p.trim();
        let p = match p.find(" = ") {
            Some(i) if p.starts_with('%') => &p[i + 3..],
            _ => p,
        };
        let mut w = p.split_whitespace();
        let mut s = w.next().unwrap().to_string();
        while s == "tail" || s == "musttail" || s == "notail" {
            s = w.next().unwrap().to_string();
        }
        self.opname.insert(n, s.clone());
        s
    }

    fn zero(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Void => Val::I(0),
            Ty::Int(w) if *w <= 64 => Val::I(0),
            Ty::Int(w) => Val::E(self.ar().c(*w, 0)),
            Ty::Vec(n, e) => {
                let z = self.zero(e);
                Val::A((0..*n).map(|_| z.clone()).collect())
            }
            Ty::Agg(f, _) => {
                let f = f.clone();
                Val::A(f.iter().map(|x| self.zero(&x.1)).collect())
            }
        }
    }

    fn konst(&mut self, v: V) -> Val {
        unsafe {
            if let Some(&a) = self.addr.get(&v) {
                return Val::I(a);
            }
            let ty = LLVMTypeOf(v);
            let t = self.ty(ty);
            if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() || !LLVMIsAConstantPointerNull(v).is_null() {
                return self.zero(&t);
            }
            if !LLVMIsAConstantInt(v).is_null() {
                let w = t.bits();
                let x = if w <= 64 {
                    Val::I(LLVMConstIntGetZExtValue(v) & mask64(w))
                } else {
                    let s = print(v);
                    let d = s.split_whitespace().last().unwrap().trim_end_matches(|c: char| c == ')' || c == '>').to_string();
                    let k: u128 = if let Some(n) = d.strip_prefix('-') {
                        (n.parse::<u128>().unwrap()).wrapping_neg()
                    } else {
                        d.parse().unwrap()
                    };
                    Val::E(self.ar().c(w, k))
                };
                if t.lanes() > 0 {
                    return Val::A((0..t.lanes()).map(|_| x.clone()).collect());
                }
                return x;
            }
            if !LLVMIsAConstantFP(v).is_null() {
                return Val::I(0x7ff8_dead_0000_0000 & mask64(t.bits().min(64)));
            }
            if !LLVMIsAGlobalAlias(v).is_null() {
                let a = LLVMAliasGetAliasee(v);
                return self.konst(a);
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let o = self.opc(1000 + LLVMGetConstOpcode(v), v);
                let o = {
                    // "ptr getelementptr ..." or "i64 ptrtoint (...)": find the mnemonic
                    if ["getelementptr", "ptrtoint", "inttoptr", "sub", "trunc", "add", "bitcast", "xor"].contains(&o.as_str()) {
                        o
                    } else {
                        let p = print(v);
                        let m = p.split_whitespace().nth(1).unwrap_or("").to_string();
                        let m = m.split('(').next().unwrap().to_string();
                        self.opname.insert(1000 + LLVMGetConstOpcode(v), m.clone());
                        m
                    }
                };
                let w = t.bits();
                match o.as_str() {
                    "getelementptr" => {
                        let b = LLVMGetOperand(v, 0);
                        let base = self.kint(b);
                        let (off, idx) = self.gep(v, &HashMap::new());
                        assert!(idx.is_empty());
                        return Val::I(base.wrapping_add(off as u64));
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr" => {
                        let a = self.kint(LLVMGetOperand(v, 0));
                        return Val::I(a & mask64(w));
                    }
                    "sub" | "add" | "xor" => {
                        let a = self.kint(LLVMGetOperand(v, 0));
                        let b = self.kint(LLVMGetOperand(v, 1));
                        let r = match o.as_str() {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            _ => a ^ b,
                        };
                        return Val::I(r & mask64(w));
                    }
                    _ => {
                        eprintln!("constant expression {} not handled: {}", o, print(v));
                        std::process::exit(9);
                    }
                }
            }
            // arrays, structs, vectors, data sequences
            let n = match &t {
                Ty::Vec(n, _) => *n as u64,
                Ty::Agg(f, _) => f.len() as u64,
                _ => {
                    eprintln!("constant not handled: {}", print(v));
                    std::process::exit(9);
                }
            };
            let mut out = vec![];
            for i in 0..n {
                let e = LLVMGetAggregateElement(v, i as u32);
                if e.is_null() {
                    eprintln!("aggregate element {} of {}", i, print(v));
                    std::process::exit(9);
                }
                out.push(self.konst(e));
            }
            Val::A(out.into())
        }
    }

    fn kint(&mut self, v: V) -> u64 {
        match self.konst(v) {
            Val::I(x) => x,
            _ => panic!("integer constant expected: {}", print(v)),
        }
    }

    /// Offsets of a getelementptr: constant part and scaled operands.
    fn gep(&mut self, v: V, regs: &HashMap<V, u32>) -> (i64, Vec<(Opd, u32, i64)>) {
        unsafe {
            let mut t = LLVMGetGEPSourceElementType(v);
            let n = LLVMGetNumOperands(v) as u32;
            let mut off = 0i64;
            let mut idx = vec![];
            for i in 1..n {
                let o = LLVMGetOperand(v, i);
                let w = LLVMGetTypeKind(LLVMTypeOf(o));
                let ow = if w == 8 { LLVMGetIntTypeWidth(LLVMTypeOf(o)) } else { 64 };
                if i > 1 && LLVMGetTypeKind(t) == 10 {
                    let k = self.kint(o) as u32;
                    off += LLVMOffsetOfElement(self.td, t, k) as i64;
                    t = LLVMStructGetTypeAtIndex(t, k);
                    continue;
                }
                if i > 1 {
                    t = LLVMGetElementType(t);
                }
                let sz = LLVMABISizeOfType(self.td, t) as i64;
                if LLVMIsConstant(o) != 0 {
                    let k = self.kint(o);
                    let k = sext128(k as u128, ow) as i64;
                    off = off.wrapping_add(k.wrapping_mul(sz));
                } else {
                    idx.push((Opd::R(regs[&o]), ow, sz));
                }
            }
            (off, idx)
        }
    }

    fn init(&mut self, v: V, t: T, out: &mut [u8]) {
        unsafe {
            if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() {
                return;
            }
            match LLVMGetTypeKind(t) {
                10 => {
                    for i in 0..LLVMCountStructElementTypes(t) {
                        let o = LLVMOffsetOfElement(self.td, t, i) as usize;
                        let et = LLVMStructGetTypeAtIndex(t, i);
                        let e = LLVMGetAggregateElement(v, i);
                        self.init(e, et, &mut out[o..]);
                    }
                }
                11 | 13 => {
                    let et = LLVMGetElementType(t);
                    let n = if LLVMGetTypeKind(t) == 11 { LLVMGetArrayLength2(t) } else { LLVMGetVectorSize(t) as u64 };
                    let sz = LLVMABISizeOfType(self.td, et) as usize;
                    for i in 0..n {
                        let e = LLVMGetAggregateElement(v, i as u32);
                        self.init(e, et, &mut out[i as usize * sz..]);
                    }
                }
                _ => {
                    let n = LLVMStoreSizeOfType(self.td, t) as usize;
                    match self.konst(v) {
                        Val::I(x) => {
                            for i in 0..n.min(8) {
                                out[i] = (x >> (8 * i)) as u8
                            }
                        }
                        Val::E(e) => {
                            let x = self.ar().cst(e).unwrap();
                            for i in 0..n {
                                out[i] = (x >> (8 * i)) as u8
                            }
                        }
                        _ => unreachable!(),
                    }
                }
            }
        }
    }

    fn loc(&mut self, i: V) -> u32 {
        unsafe {
            let m = LLVMInstructionGetDebugLoc(i);
            if m.is_null() {
                return 0;
            }
            if let Some(&x) = self.mdloc.get(&m) {
                return x;
            }
            let mut cur = m;
            let mut res = 0;
            // innermost frame that lies in the code under test, else the innermost
            let mut first = true;
            loop {
                let line = LLVMDILocationGetLine(cur);
                let f = LLVMDIScopeGetFile(LLVMDILocationGetScope(cur));
                let mut file = String::new();
                if !f.is_null() {
                    let mut n = 0u32;
                    let p = LLVMDIFileGetFilename(f, &mut n);
                    file = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)).to_string();
                    if !file.starts_with('/') {
                        let p = LLVMDIFileGetDirectory(f, &mut n);
                        if n > 0 {
                            let d = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n as usize)).to_string();
                            file = format!("{}/{}", d, file);
                        }
                    }
                }
                let ours = file.starts_with("/repo/");
                if first || ours {
                    let fi = match self.filemap.get(&file) {
                        Some(&x) => x,
                        None => {
                            let x = self.files.len() as u32;
                            self.files.push(file.clone());
                            self.filemap.insert(file, x);
                            x
                        }
                    };
                    res = match self.locmap.get(&(fi, line)) {
                        Some(&x) => x,
                        None => {
                            let x = self.locs.len() as u32;
                            self.locs.push((fi, line));
                            self.locmap.insert((fi, line), x);
                            x
                        }
                    };
                    if ours {
                        break;
                    }
                }
                first = false;
                cur = LLVMDILocationGetInlinedAt(cur);
                if cur.is_null() {
                    break;
                }
            }
            self.mdloc.insert(m, res);
            res
        }
    }

    fn intrinsic(n: &str) -> Intr {
        use Intr::*;
        let p = |s: &str| n.starts_with(s);
        if p("llvm.memcpy") || p("llvm.memmove") {
            Memcpy
        } else if p("llvm.memset") {
            Memset
        } else if p("llvm.lifetime") || p("llvm.dbg") || p("llvm.assume") || p("llvm.experimental.noalias") || p("llvm.invariant") || p("llvm.prefetch") || p("llvm.donothing") || p("llvm.sideeffect") || p("llvm.var.annotation") || p("llvm.fake.use") || p("llvm.x86.sse2.pause") {
            Nop
        } else if p("llvm.threadlocal.address") || p("llvm.expect") || p("llvm.launder") || p("llvm.strip") || p("llvm.ssa.copy") || p("llvm.ptrmask.none") {
            Expect
        } else if p("llvm.umin") {
            UMin
        } else if p("llvm.umax") {
            UMax
        } else if p("llvm.smin") {
            SMin
        } else if p("llvm.smax") {
            SMax
        } else if p("llvm.uadd.with") {
            UAddO
        } else if p("llvm.usub.with") {
            USubO
        } else if p("llvm.umul.with") {
            UMulO
        } else if p("llvm.sadd.with") {
            SAddO
        } else if p("llvm.ssub.with") {
            SSubO
        } else if p("llvm.smul.with") {
            SMulO
        } else if p("llvm.uadd.sat") {
            UAddSat
        } else if p("llvm.usub.sat") {
            USubSat
        } else if p("llvm.sadd.sat") {
            SAddSat
        } else if p("llvm.ssub.sat") {
            SSubSat
        } else if p("llvm.ctpop") {
            Ctpop
        } else if p("llvm.ctlz") {
            Ctlz
        } else if p("llvm.cttz") {
            Cttz
        } else if p("llvm.bswap") {
            Bswap
        } else if p("llvm.bitreverse") {
            Bitreverse
        } else if p("llvm.fshl") {
            Fshl
        } else if p("llvm.fshr") {
            Fshr
        } else if p("llvm.abs") {
            Abs
        } else if p("llvm.ucmp") {
            UCmp
        } else if p("llvm.scmp") {
            SCmp
        } else if p("llvm.objectsize") {
            ObjectSize
        } else if p("llvm.is.constant") {
            IsConstant
        } else if p("llvm.load.relative") {
            LoadRelative
        } else if p("llvm.trap") || p("llvm.ubsantrap") {
            Trap
        } else if p("llvm.vector.reduce.or") {
            ReduceOr
        } else if p("llvm.vector.reduce.and") {
            ReduceAnd
        } else if p("llvm.vector.reduce.add") {
            ReduceAdd
        } else if p("llvm.vector.reduce.xor") {
            ReduceXor
        } else {
            Bad
        }
    }

    fn func(&mut self, f: V) -> Func {
        unsafe {
            let mut regs: HashMap<V, u32> = HashMap::new();
            let mut regptr = vec![];
            let nargs = LLVMCountParams(f);
            for i in 0..nargs {
                let p = LLVMGetParam(f, i);
                regs.insert(p, i);
                regptr.push(LLVMGetTypeKind(LLVMTypeOf(p)) == 12);
            }
            let mut nregs = nargs;
            let mut bbs: HashMap<BB, u32> = HashMap::new();
            let mut list = vec![];
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                bbs.insert(b, list.len() as u32);
                list.push(b);
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    regs.insert(i, nregs);
                    regptr.push(LLVMGetTypeKind(LLVMTypeOf(i)) == 12);
                    nregs += 1;
                    i = LLVMGetNextInstruction(i);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let mut blocks = vec![];
            for &b in &list {
                let mut blk = Block::default();
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    let opn = LLVMGetInstructionOpcode(i);
                    let o = self.opc(opn, i);
                    let dst = regs[&i];
                    if o == "phi" {
                        let pt = self.ty(LLVMTypeOf(i));
                        blk.phis.push((dst, pt, regptr[dst as usize]));
                        let mut seen = std::collections::HashSet::new();
                        for k in 0..LLVMCountIncoming(i) {
                            let v = LLVMGetIncomingValue(i, k);
                            let pb = bbs[&LLVMGetIncomingBlock(i, k)];
                            if !seen.insert(pb) {
                                continue;
                            }
                            let od = self.opd(v, &regs);
                            blk.from.entry(pb).or_default().push(od);
                        }
                    } else {
                        let loc = self.loc(i);
                        let op = self.inst(&o, i, &regs, &bbs);
                        if !matches!(op, Op::Call(Callee::Intr(Intr::Nop), ..)) || o == "invoke" {
                            blk.insts.push(Inst { op, dst, loc });
                        }
                    }
                    i = LLVMGetNextInstruction(i);
                }
                blocks.push(blk);
            }
            let ipdom = ipdoms(&blocks);
            Func { name: name(f), nargs, nregs, blocks, decl: list.is_empty(), ipdom, regptr }
        }
    }

    fn opd(&mut self, v: V, regs: &HashMap<V, u32>) -> Opd {
        if let Some(&r) = regs.get(&v) {
            return Opd::R(r);
        }
        unsafe {
            // metadata and the like as arguments of intrinsics
            if LLVMIsConstant(v) == 0 {
                return Opd::K(Val::I(0));
            }
        }
        Opd::K(self.konst(v))
    }

    fn inst(&mut self, o: &str, i: V, regs: &HashMap<V, u32>, bbs: &HashMap<BB, u32>) -> Op {
        unsafe {
            let nop = LLVMGetNumOperands(i) as u32;
            let vt = LLVMTypeOf(i);
            macro_rules! op {
                ($k:expr) => {{
                    let v = LLVMGetOperand(i, $k);
                    self.opd(v, regs)
                }};
            }
            macro_rules! opty {
                ($k:expr) => {{
                    let v = LLVMGetOperand(i, $k);
                    let t = LLVMTypeOf(v);
                    self.ty(t)
                }};
            }
            let bin = |o: &str| {
                Some(match o {
                    "add" => B::Add,
                    "sub" => B::Sub,
                    "mul" => B::Mul,
                    "udiv" => B::UDiv,
                    "sdiv" => B::SDiv,
                    "urem" => B::URem,
                    "srem" => B::SRem,
                    "and" => B::And,
                    "or" => B::Or,
                    "xor" => B::Xor,
                    "shl" => B::Shl,
                    "lshr" => B::LShr,
                    "ashr" => B::AShr,
                    _ => return None,
                })
            };
            if let Some(b) = bin(o) {
                let t = self.ty(vt);
                return Op::Bin(b, t, op!(0), op!(1));
            }
            match o {
                "icmp" => {
                    let t = opty!(0);
                    Op::Cmp(LLVMGetICmpPredicate(i), t, op!(0), op!(1))
                }
                "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                    let from = opty!(0);
                    let to = self.ty(vt);
                    let k = match o {
                        "trunc" => Cast::Trunc,
                        "zext" => Cast::Zext,
                        "sext" => Cast::Sext,
                        "bitcast" => Cast::Bit,
                        _ => {
                            if to.bits() < from.bits() {
                                Cast::Trunc
                            } else {
                                Cast::Zext
                            }
                        }
                    };
                    Op::Cast(k, from, to, op!(0))
                }
                "select" => {
                    let t = self.ty(vt);
                    Op::Select(t, op!(0), op!(1), op!(2), LLVMGetTypeKind(vt) == 12)
                }
                "getelementptr" => {
                    let (off, idx) = self.gep(i, regs);
                    Op::Gep(op!(0), off, idx.into())
                }
                "load" => {
                    let t = self.ty(vt);
                    Op::Load(t, op!(0))
                }
                "store" => {
                    let t = opty!(0);
                    Op::Store(t, op!(0), op!(1))
                }
                "alloca" => {
                    let t = LLVMGetAllocatedType(i);
                    Op::Alloca(LLVMABISizeOfType(self.td, t), op!(0))
                }
                "extractvalue" => {
                    let n = LLVMGetNumIndices(i) as usize;
                    let ix = std::slice::from_raw_parts(LLVMGetIndices(i), n).to_vec();
                    Op::Extract(op!(0), ix.into())
                }
                "insertvalue" => {
                    let n = LLVMGetNumIndices(i) as usize;
                    let ix = std::slice::from_raw_parts(LLVMGetIndices(i), n).to_vec();
                    let t = self.ty(vt);
                    Op::Insert(t, op!(0), op!(1), ix.into())
                }
                "extractelement" => Op::ExtEl(op!(0), op!(1)),
                "insertelement" => {
                    let t = self.ty(vt);
                    Op::InsEl(t, op!(0), op!(1), op!(2))
                }
                "shufflevector" => {
                    let t = self.ty(vt);
                    let n = LLVMGetNumMaskElements(i);
                    let m: Vec<i32> = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                    Op::Shuffle(t, op!(0), op!(1), m.into())
                }
                "freeze" => Op::Copy(op!(0)),
                "atomicrmw" => {
                    let t = self.ty(vt);
                    Op::Rmw(LLVMGetAtomicRMWBinOp(i), t, op!(0), op!(1))
                }
                "cmpxchg" => {
                    let t = opty!(1);
                    Op::CmpXchg(t, op!(0), op!(1), op!(2))
                }
                "fence" => Op::Fence,
                "br" => {
                    let n = LLVMGetNumSuccessors(i);
                    if n == 1 {
                        Op::Br(bbs[&LLVMGetSuccessor(i, 0)])
                    } else {
                        Op::CondBr(op!(0), bbs[&LLVMGetSuccessor(i, 0)], bbs[&LLVMGetSuccessor(i, 1)])
                    }
                }
                "switch" => {
                    let t = opty!(0);
                    let d = bbs[&LLVMGetSwitchDefaultDest(i)];
                    // successor 0 is the default; the case values are looked up by order
                    let n = LLVMGetNumSuccessors(i);
                    let cases = switch_cases(i, n, |b| bbs[&b]);
                    Op::Switch(t.bits(), op!(0), cases.into(), d)
                }
                "ret" => {
                    if nop == 0 {
                        Op::Ret(None)
                    } else {
                        Op::Ret(Some(op!(0)))
                    }
                }
                "unreachable" => Op::Unreachable,
                "call" | "invoke" => {
                    let cv = LLVMGetCalledValue(i);
                    let n = LLVMGetNumArgOperands(i);
                    let args: Vec<Opd> = (0..n).map(|k| op!(k)).collect();
                    let tys: Vec<Ty> = (0..n).map(|k| opty!(k)).collect();
                    let callee = if !LLVMIsAInlineAsm(cv).is_null() {
                        Callee::Asm(print(cv).into())
                    } else {
                        let mut cv2 = cv;
                        while !LLVMIsAGlobalAlias(cv2).is_null() {
                            cv2 = LLVMAliasGetAliasee(cv2);
                        }
                        if let Some(&id) = self.fnid.get(&cv2) {
                            let nm = name(cv2);
                            if nm.starts_with("llvm.") {
                                match Self::intrinsic(&nm) {
                                    Intr::Bad => return Op::Bad(nm.into()),
                                    k => Callee::Intr(k),
                                }
                            } else {
                                Callee::Fn(id)
                            }
                        } else {
                            let o = self.opd(cv2, regs);
                            Callee::Ind(o)
                        }
                    };
                    let rt = self.ty(vt);
                    let normal = if o == "invoke" { Some(bbs[&LLVMGetNormalDest(i)]) } else { None };
                    Op::Call(callee, args.into(), tys.into(), rt, normal)
                }
                _ => Op::Bad(o.into()),
            }
        }
    }
}

/// Case values of a switch: operands are [cond, default, (value, dest)*].
fn switch_cases(i: V, n: u32, bb: impl Fn(BB) -> u32) -> Vec<(u64, u32)> {
    unsafe {
        let nop = LLVMGetNumOperands(i) as u32;
        let mut v = vec![];
        if nop == 2 * n {
            for k in 1..n {
                let c = LLVMGetOperand(i, 2 * k);
                v.push((LLVMConstIntGetZExtValue(c), bb(LLVMGetSuccessor(i, k))));
            }
        } else {
            // case values are not operands: read them from the printed form
            let p = print(i);
            let body = &p[p.find('[').expect("switch") + 1..];
            let mut k = 1;
            for line in body.lines() {
                let l = line.trim();
                if !l.starts_with('i') {
                    continue;
                }
                let mut ws = l.split_whitespace();
                let t = ws.next().unwrap();
                let w: u32 = t[1..].parse().unwrap();
                let c = ws.next().unwrap().trim_end_matches(',');
                let x = match c {
                    "true" => 1,
                    "false" => 0,
                    _ => c.parse::<i128>().unwrap() as u64 & mask64(w),
                };
                v.push((x, bb(LLVMGetSuccessor(i, k))));
                k += 1;
            }
            assert_eq!(k, n, "switch cases");
        }
        v
    }
}

fn succs(b: &Block) -> Vec<u32> {
    match &b.insts.last().unwrap().op {
        Op::Br(x) => vec![*x],
        Op::CondBr(_, x, y) => vec![*x, *y],
        Op::Switch(_, _, c, d) => {
            let mut v: Vec<u32> = c.iter().map(|x| x.1).collect();
            v.push(*d);
            v
        }
        Op::Call(_, _, _, _, Some(n)) => vec![*n],
        _ => vec![],
    }
}

/// Immediate post-dominators; blocks ending in `unreachable` are not exits.
fn ipdoms(bl: &[Block]) -> Vec<u32> {
    let n = bl.len();
    let mut out = vec![u32::MAX; n];
    if n == 0 {
        return out;
    }
    let exit = n as u32;
    let mut succ: Vec<Vec<u32>> = bl.iter().map(succs).collect();
    for (i, b) in bl.iter().enumerate() {
        if matches!(b.insts.last().unwrap().op, Op::Ret(_)) {
            succ[i].push(exit);
        }
    }
    let mut pred: Vec<Vec<u32>> = vec![vec![]; n + 1];
    for (i, s) in succ.iter().enumerate() {
        for &x in s {
            pred[x as usize].push(i as u32);
        }
    }
    // reverse graph order from exit
    let mut order = vec![];
    let mut num = vec![u32::MAX; n + 1];
    let mut seen = vec![false; n + 1];
    let mut st: Vec<(u32, usize)> = vec![(exit, 0)];
    seen[exit as usize] = true;
    while let Some((x, k)) = st.pop() {
        if k < pred[x as usize].len() {
            st.push((x, k + 1));
            let p = pred[x as usize][k];
            if !seen[p as usize] {
                seen[p as usize] = true;
                st.push((p, 0));
            }
        } else {
            num[x as usize] = order.len() as u32;
            order.push(x);
        }
    }
    order.reverse();
    let mut idom = vec![u32::MAX; n + 1];
    idom[exit as usize] = exit;
    let mut ch = true;
    while ch {
        ch = false;
        for &x in &order[1..] {
            let mut new = u32::MAX;
            for &s in succ[x as usize].iter() {
                if idom[s as usize] == u32::MAX {
                    continue;
                }
                if new == u32::MAX {
                    new = s;
                } else {
                    let (mut a, mut b) = (new, s);
                    while a != b {
                        while num[a as usize] < num[b as usize] {
                            a = idom[a as usize];
                        }
                        while num[b as usize] < num[a as usize] {
                            b = idom[b as usize];
                        }
                    }
                    new = a;
                }
            }
            if new != idom[x as usize] {
                idom[x as usize] = new;
                ch = true;
            }
        }
    }
    for i in 0..n {
        out[i] = if idom[i] == exit { u32::MAX } else { idom[i] };
    }
    out
}

pub fn load_module(path: &str, ar: *mut Arena) -> Loader {
    unsafe {
        let m = load(path);
        let td = LLVMGetModuleDataLayout(m);
        let mut l = Loader {
            td,
            addr: HashMap::new(),
            fnid: HashMap::new(),
            opname: HashMap::new(),
            ar,
            locs: vec![(0, 0)],
            locmap: HashMap::new(),
            files: vec!["?".into()],
            filemap: HashMap::new(),
            mdloc: HashMap::new(),
            tys: HashMap::new(),
            fvals: vec![],
            funcs: vec![],
            fnames: vec![],
            by_name: HashMap::new(),
            globals: vec![],
        };
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            let id = l.fvals.len() as u32;
            l.fnid.insert(f, id);
            l.addr.insert(f, fn_addr(id));
            l.fvals.push(f);
            l.funcs.push(None);
            let n = name(f);
            l.by_name.insert(n.clone(), id);
            l.fnames.push(n);
            f = LLVMGetNextFunction(f);
        }
        assert!(fn_addr(l.fvals.len() as u32) < GLOBAL_BASE);
        let mut gs = vec![];
        let mut at = GLOBAL_BASE;
        let mut g = LLVMGetFirstGlobal(m);
        while !g.is_null() {
            let t = LLVMGlobalGetValueType(g);
            let sized = LLVMGetTypeKind(t) != 9;
            let sz = if sized { LLVMABISizeOfType(td, t) } else { 8 };
            let al = (LLVMGetAlignment(g) as u64).max(16);
            at = (at + al - 1) / al * al;
            l.addr.insert(g, at);
            gs.push((g, t, at, sz));
            at += sz + 16;
            g = LLVMGetNextGlobal(g);
        }
        assert!(at < 1 << 32);
        for &(g, t, addr, size) in &gs {
            let mut data = vec![0u8; size as usize];
            if LLVMIsDeclaration(g) == 0 {
                let i = LLVMGetInitializer(g);
                if !i.is_null() {
                    l.init(i, t, &mut data);
                }
            }
            l.globals.push(Global { name: name(g), addr, size, data, constant: LLVMIsGlobalConstant(g) != 0 });
        }
        l
    }
}
