//! The symbolic executor.
use crate::expr::*;
use crate::mem::*;
use crate::module::*;
use crate::solver::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub fid: u32,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub heap: Table,
    pub glob: Table,
    pub model: Vec<u8>,
    pub pc: Vec<Eid>,
    pub obs: Vec<(u32, Val)>,
    pub covers: Vec<u32>,
    pub steps: u64,
    pub forks: u32,
}

#[derive(Debug, Clone)]
pub enum End {
    Done,
    Assume,
    Violation(String),
    Error(String),
}

pub enum Flow {
    Next,
    Jump(u32),
    Stay, // frame or position already changed
}

pub type R<T> = Result<T, End>;

#[derive(Clone, Debug)]
pub struct Found {
    pub msg: String,
    pub at: String,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub bytes: Vec<u8>,
    pub obs: Vec<(u32, u64)>,
    pub covers: Vec<u32>,
}

#[derive(Default)]
pub struct Tally {
    pub paths: u64,
    pub assumed_away: u64,
    pub instrs: u64,
    pub forks: u64,
    pub merges: u64,
    pub asserts: u64,
    pub covers: HashMap<u32, u64>,
    pub violations: Vec<Found>,
    pub errors: Vec<String>,
    pub samples: Vec<Sample>,
    pub max_pc: usize,
    pub max_syms: usize,
    pub pending: u64,
}

pub struct Opts {
    pub merge: bool,
    pub max_steps: u64,
    /// Symbolic addresses with more possible places than this are forked on.
    pub conc: u64,
    pub params: Vec<u64>,
    pub deadline: Option<Instant>,
    pub stop_after: usize,
    pub trace: bool,
}

pub enum Loc {
    Conc(bool, u32, u64),                     // global?, object, offset
    Sym(bool, u32, Eid, u64, u64, u64),       // offset expression, lowest, highest, stride
}

#[derive(Clone)]
struct Region {
    order: Rc<[u32]>,
    join: u32,
}

type Model = fn(&mut Ex, &mut State, &[Val]) -> R<Val>;

pub struct Ex {
    pub ar: Box<Arena>,
    pub z: Z,
    pub m: Loader,
    pub work: Vec<State>,
    pub t: Tally,
    pub o: Opts,
    pub seen: Vec<bool>,
    pub funcs_seen: Vec<bool>,
    models: HashMap<u32, Model>,
    nomodel: Vec<u8>,
    gbase: Vec<u64>,
    regions: HashMap<(u32, u32), Option<Region>>,
    pub sample_next: u64,
    ext: HashMap<u64, u64>,
}

fn widemask(w: u32) -> u64 {
    mask64(w)
}

impl Ex {
    pub fn new(path: &str, o: Opts) -> Ex {
        let mut ar = Box::new(Arena::new());
        ar.c(1, 0); // expression 0 marks "concrete" in memory overlays
        let p: *mut Arena = &mut *ar;
        let m = load_module(path, p);
        let gbase = m.globals.iter().map(|g| g.addr).collect();
        let n = m.fnames.len();
        Ex {
            ar,
            z: Z::new(),
            m,
            work: vec![],
            t: Tally::default(),
            o,
            seen: vec![],
            funcs_seen: vec![false; n],
            models: HashMap::new(),
            nomodel: vec![0; n],
            gbase,
            regions: HashMap::new(),
            sample_next: 1,
            ext: HashMap::new(),
        }
    }

    pub fn start(&mut self, entry: &str) -> State {
        let fid = *self.m.by_name.get(entry).unwrap_or_else(|| {
            eprintln!("no function {} in the module", entry);
            std::process::exit(9)
        });
        let f = self.m.get(fid);
        let mut glob = Table::new();
        for g in &self.m.globals {
            glob.add(Obj { size: g.size, data: Rc::new(Data { b: g.data.clone(), s: vec![] }), ro: g.constant, heap: false });
        }
        State {
            cur: Frame { f, fid, block: 0, ip: 0, regs: vec![Val::I(0); f.nregs as usize], allocas: vec![] },
            stack: vec![],
            heap: Table::new(),
            glob,
            model: vec![],
            pc: vec![],
            obs: vec![],
            covers: vec![],
            steps: 0,
            forks: 0,
        }
    }

    // ---- values

    #[inline]
    fn op(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.cur.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    pub fn e(&mut self, v: &Val, w: u32) -> Eid {
        match v {
            Val::I(x) => self.ar.c(w, *x as u128),
            Val::E(e) => *e,
            Val::A(_) => panic!("aggregate where a scalar is expected"),
        }
    }
    pub fn v(&self, e: Eid) -> Val {
        if self.ar.w(e) <= 64 {
            if let Some(c) = self.ar.cst(e) {
                return Val::I(c as u64);
            }
        }
        Val::E(e)
    }
    fn zero(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Void => Val::I(0),
            Ty::Int(w) if *w <= 64 => Val::I(0),
            Ty::Int(w) => Val::E(self.ar.c(*w, 0)),
            Ty::Vec(n, e) => {
                let z = self.zero(e);
                Val::A((0..*n).map(|_| z.clone()).collect())
            }
            Ty::Agg(f, _) => Val::A(f.iter().map(|x| self.zero(&x.1)).collect()),
        }
    }

    // ---- decisions

    /// Adds a constraint, conjunct by conjunct.
    fn push_pc(&mut self, st: &mut State, c: Eid) {
        if let N::Bin(B::And, a, b) = self.ar.n(c) {
            self.push_pc(st, a);
            self.push_pc(st, b);
        } else if self.ar.cst(c).is_none() {
            st.pc.push(c);
        }
    }

    /// `e` simplified by what holds on this path.
    fn under(&mut self, st: &State, e: Eid) -> Eid {
        if self.ar.cst(e).is_some() || st.pc.is_empty() {
            return e;
        }
        self.z.under(&mut self.ar, &st.pc, e)
    }

    /// Which way `c` goes on this path; the other way is queued if feasible.
    pub fn decide(&mut self, st: &mut State, c: Eid) -> bool {
        if let Some(k) = self.ar.cst(c) {
            return k == 1;
        }
        let nc = self.ar.not(c);
        for &p in st.pc.iter().rev() {
            if p == c {
                return true;
            }
            if p == nc {
                return false;
            }
        }
        let v = self.ar.eval(c, &st.model) == 1;
        let (this, other) = if v { (c, nc) } else { (nc, c) };
        match self.z.query(&mut self.ar, &st.pc, other) {
            Ans::Sat(vals) => {
                let mut ch = st.clone();
                self.push_pc(&mut ch, other);
                ch.forks += 1;
                for &(i, x) in vals.iter() {
                    ch.model[i as usize] = x;
                }
                self.t.forks += 1;
                self.work.push(ch);
                self.push_pc(st, this);
                st.forks += 1;
                if st.pc.len() > self.t.max_pc {
                    self.t.max_pc = st.pc.len();
                }
            }
            Ans::Unsat => {}
            Ans::Unknown => {
                self.error(format!("solver gave up at {}", self.place(st)));
                self.push_pc(st, this);
            }
        }
        v
    }

    pub fn concretize(&mut self, st: &mut State, v: &Val) -> u64 {
        match v {
            Val::I(x) => *x,
            Val::E(e) => {
                let w = self.ar.w(*e);
                let x = self.ar.eval(*e, &st.model);
                let k = self.ar.c(w, x);
                let c = self.ar.cmp(C::Eq, *e, k);
                self.decide(st, c);
                x as u64
            }
            _ => panic!("concretize"),
        }
    }

    fn error(&mut self, m: String) {
        if self.t.errors.len() < 20 && !self.t.errors.contains(&m) {
            self.t.errors.push(m);
        }
    }

    pub fn place(&self, st: &State) -> String {
        let mut fallback = String::new();
        let mut frames: Vec<&Frame> = vec![&st.cur];
        frames.extend(st.stack.iter().rev().map(|x| &**x));
        for fr in frames {
            let b = &fr.f.blocks[fr.block as usize];
            if let Some(i) = b.insts.get(fr.ip as usize) {
                let (f, l) = self.m.locs[i.loc as usize];
                let file = &self.m.files[f as usize];
                if file.starts_with("/repo/") {
                    return format!("{}:{}", file, l);
                }
                if fallback.is_empty() && l > 0 {
                    fallback = format!("{}:{}", file, l);
                }
            }
        }
        if fallback.is_empty() {
            fallback = st.cur.f.name.clone();
        }
        fallback
    }

    pub fn backtrace(&self, st: &State) -> String {
        let mut s = String::new();
        let mut frames: Vec<&Frame> = vec![&st.cur];
        frames.extend(st.stack.iter().rev().map(|x| &**x));
        for fr in frames.iter().take(14) {
            let b = &fr.f.blocks[fr.block as usize];
            let (f, l) = b.insts.get(fr.ip as usize).map(|i| self.m.locs[i.loc as usize]).unwrap_or((0, 0));
            s.push_str(&format!("\n    {} b{}:{} {}:{}", fr.f.name, fr.block, fr.ip, self.m.files[f as usize], l));
        }
        s
    }

    fn found(&mut self, st: &State, msg: String, model: &[u8]) {
        let at = self.place(st);
        if self.t.violations.len() < 50 && !self.t.violations.iter().any(|f| f.msg == msg && f.at == at) {
            self.t.violations.push(Found { msg, at, bytes: model.to_vec() });
        }
    }

    /// The claim `c`.
    fn assert(&mut self, st: &mut State, c: Eid, msg: &str) -> R<()> {
        self.t.asserts += 1;
        if let Some(k) = self.ar.cst(c) {
            if k == 1 {
                return Ok(());
            }
            return Err(End::Violation(msg.into()));
        }
        if self.ar.eval(c, &st.model) == 0 {
            return Err(End::Violation(msg.into()));
        }
        let nc = self.ar.not(c);
        match self.z.query(&mut self.ar, &st.pc, nc) {
            Ans::Sat(vals) => {
                let mut m = st.model.clone();
                for &(i, x) in vals.iter() {
                    m[i as usize] = x;
                }
                self.found(st, msg.into(), &m);
                if self.t.violations.len() >= self.o.stop_after {
                    return Err(End::Assume);
                }
                self.push_pc(st, c);
            }
            Ans::Unsat => {}
            Ans::Unknown => self.error(format!("solver gave up on claim {:?} at {}", msg, self.place(st))),
        }
        Ok(())
    }

    fn assume(&mut self, st: &mut State, c: Eid) -> R<()> {
        if let Some(k) = self.ar.cst(c) {
            return if k == 1 { Ok(()) } else { Err(End::Assume) };
        }
        if self.ar.eval(c, &st.model) == 1 {
            self.push_pc(st, c);
            return Ok(());
        }
        match self.z.query(&mut self.ar, &st.pc, c) {
            Ans::Sat(vals) => {
                for &(i, x) in vals.iter() {
                    st.model[i as usize] = x;
                }
                self.ar.new_epoch();
                self.push_pc(st, c);
                Ok(())
            }
            Ans::Unsat => Err(End::Assume),
            Ans::Unknown => Err(End::Error(format!("solver gave up on an assumption at {}", self.place(st)))),
        }
    }

    // ---- memory

    fn find(&self, st: &State, a: u64) -> Option<(bool, u32, u64)> {
        if a >= HEAP_BASE {
            let id = (a - HEAP_BASE) >> HEAP_SHIFT;
            if id >= st.heap.next as u64 {
                return None;
            }
            return Some((false, id as u32, a & ((1 << HEAP_SHIFT) - 1)));
        }
        if a >= GLOBAL_BASE {
            let i = self.gbase.partition_point(|&b| b <= a);
            if i == 0 {
                return None;
            }
            return Some((true, (i - 1) as u32, a - self.gbase[i - 1]));
        }
        None
    }
    fn obj<'a>(&self, st: &'a State, g: bool, id: u32) -> Option<&'a Obj> {
        if g {
            st.glob.get(id)
        } else {
            st.heap.get(id)
        }
    }
    fn memerr(&self, st: &State, what: &str, a: u64) -> End {
        End::Violation(format!("{} at address {:#x} ({})", what, a, self.place(st)))
    }

    pub fn resolve(&mut self, st: &mut State, p: &Val, size: u64) -> R<Loc> {
        match p {
            Val::I(a) => {
                let Some((g, id, off)) = self.find(st, *a) else { return Err(self.memerr(st, "access outside any object", *a)) };
                match self.obj(st, g, id) {
                    Some(o) if off + size <= o.size => Ok(Loc::Conc(g, id, off)),
                    Some(_) => Err(self.memerr(st, "access out of an object's bounds", *a)),
                    None => Err(self.memerr(st, "access to a freed object", *a)),
                }
            }
            Val::E(e) => {
                let a = self.ar.eval(*e, &st.model) as u64;
                let Some((g, id, off)) = self.find(st, a) else { return Err(self.memerr(st, "access outside any object", a)) };
                let osize = match self.obj(st, g, id) {
                    Some(o) if off + size <= o.size => o.size,
                    Some(_) => return Err(self.memerr(st, "access out of an object's bounds", a)),
                    None => return Err(self.memerr(st, "access to a freed object", a)),
                };
                let base = a - off;
                let nb = self.ar.c(64, (base as u128).wrapping_neg());
                let oe = self.ar.bin(B::Add, *e, nb);
                if let Some(c) = self.ar.cst(oe) {
                    return Ok(Loc::Conc(g, id, c as u64));
                }
                let top = osize - size;
                let k = self.ar.c(64, top as u128);
                let inb = self.ar.cmp(C::Ule, oe, k);
                if !self.decide(st, inb) {
                    unreachable!();
                }
                let tz = self.ar.low_zeros(oe).min(16);
                let stride = 1u64 << tz;
                let (mut lo, mut hi) = (self.ar.umin[oe as usize], self.ar.umax[oe as usize].min(top));
                lo = (lo + stride - 1) / stride * stride;
                hi = hi / stride * stride;
                // a small table of constants is cheaper to read whole than to ask where exactly the index lies
                let table = (g || stride == 1 && size == 1 && self.ar.support(oe).len() == 1) && (hi - lo) / stride <= 512 && self.obj(st, g, id).map_or(false, |o| o.data.s.is_empty());
                if (hi - lo) / stride > 48 && !table {
                    // tighten with the solver
                    let cur = self.ar.eval(oe, &st.model) as u64;
                    let (mut a, mut b) = (cur / stride, hi / stride);
                    while a < b {
                        let mid = a + (b - a) / 2;
                        let k = self.ar.c(64, (mid * stride) as u128);
                        let q = self.ar.cmp(C::Ult, k, oe);
                        match self.z.query(&mut self.ar, &st.pc, q) {
                            Ans::Unsat => b = mid,
                            _ => a = mid + 1,
                        }
                    }
                    hi = b * stride;
                    let (mut a, mut b) = (lo / stride, cur / stride);
                    while a < b {
                        let mid = a + (b - a + 1) / 2;
                        let k = self.ar.c(64, (mid * stride) as u128);
                        let q = self.ar.cmp(C::Ult, oe, k);
                        match self.z.query(&mut self.ar, &st.pc, q) {
                            Ans::Unsat => a = mid,
                            _ => b = mid - 1,
                        }
                    }
                    lo = a * stride;
                }
                if lo == hi {
                    return Ok(Loc::Conc(g, id, lo));
                }
                if (hi - lo) / stride >= self.o.conc && !table {
                    let x = self.concretize(st, &Val::E(oe));
                    return Ok(Loc::Conc(g, id, x));
                }
                Ok(Loc::Sym(g, id, oe, lo, hi, stride))
            }
            _ => panic!("pointer"),
        }
    }

    fn byte(&mut self, o: &Data, i: usize) -> Eid {
        if !o.s.is_empty() && o.s[i] != 0 {
            o.s[i]
        } else {
            self.ar.c(8, o.b[i] as u128)
        }
    }

    /// `n` bytes at a concrete offset as a value of `w` bits.
    fn read_conc(&mut self, d: &Data, off: usize, n: usize, w: u32) -> Val {
        if n <= 8 && (d.s.is_empty() || d.s[off..off + n].iter().all(|&x| x == 0)) {
            let mut x = 0u64;
            for i in (0..n).rev() {
                x = (x << 8) | d.b[off + i] as u64;
            }
            return Val::I(x & widemask(w));
        }
        let mut e = self.byte(d, off + n - 1);
        for i in (0..n - 1).rev() {
            let b = self.byte(d, off + i);
            e = self.ar.concat(e, b);
        }
        if (n * 8) as u32 > w {
            e = self.ar.extract(0, w, e);
        }
        self.v(e)
    }

    fn load_at(&mut self, st: &mut State, l: &Loc, t: &Ty, extra: u64) -> Val {
        match t {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as usize;
                match l {
                    Loc::Conc(g, id, off) => {
                        let d = self.obj(st, *g, *id).unwrap().data.clone();
                        self.read_conc(&d, (*off + extra) as usize, n, *w)
                    }
                    Loc::Sym(g, id, oe, lo, hi, stride) => {
                        let d = self.obj(st, *g, *id).unwrap().data.clone();
                        let mut vals = vec![];
                        let mut o = *lo;
                        while o <= *hi {
                            let x = self.read_conc(&d, (o + extra) as usize, n, *w);
                            vals.push((o, self.e(&x, *w)));
                            o += stride;
                        }
                        let e = match self.affine(*oe, *lo, *stride, &vals, *w) {
                            Some(e) => e,
                            None => self.mux(*oe, &vals),
                        };
                        self.v(e)
                    }
                }
            }
            Ty::Vec(n, et) => {
                let b = et.bits();
                if b % 8 != 0 {
                    // bit vectors: packed
                    let whole = self.load_at(st, l, &Ty::Int(b * n), extra);
                    let we = self.e(&whole, b * n);
                    let v: Vec<Val> = (0..*n)
                        .map(|i| {
                            let x = self.ar.extract(i * b, b, we);
                            self.v(x)
                        })
                        .collect();
                    return Val::A(v.into());
                }
                let v: Vec<Val> = (0..*n).map(|i| self.load_at(st, l, et, extra + (i * b / 8) as u64)).collect();
                Val::A(v.into())
            }
            Ty::Agg(f, _) => {
                let v: Vec<Val> = f.iter().map(|(o, t)| self.load_at(st, l, t, extra + o)).collect();
                Val::A(v.into())
            }
            Ty::Void => Val::I(0),
        }
    }

    /// A constant table whose entries are, bit by bit, exclusive ors of index
    /// bits is read as such (equal to the choice below, but kinder to compare).
    fn affine(&mut self, x: Eid, lo: u64, stride: u64, vals: &[(u64, Eid)], w: u32) -> Option<Eid> {
        let n = vals.len();
        if n < 8 || !n.is_power_of_two() || lo != 0 || !stride.is_power_of_two() || w > 64 {
            return None;
        }
        let v: Option<Vec<u128>> = vals.iter().map(|x| self.ar.cst(x.1)).collect();
        let v = v?;
        let k = n.trailing_zeros();
        for i in 1..n {
            let top = 1usize << (usize::BITS - 1 - i.leading_zeros());
            if v[i] != v[i ^ top] ^ v[top] ^ v[0] {
                return None;
            }
        }
        let s = stride.trailing_zeros();
        let idx: Vec<Eid> = (0..k).map(|b| self.ar.extract(s + b, 1, x)).collect();
        let mut e: Option<Eid> = None;
        for r in 0..w {
            let mut z = self.ar.c(1, (v[0] >> r) & 1);
            for b in 0..k as usize {
                if ((v[1 << b] ^ v[0]) >> r) & 1 == 1 {
                    z = self.ar.bin(B::Xor, z, idx[b]);
                }
            }
            e = Some(match e {
                None => z,
                Some(l) => self.ar.concat(z, l),
            });
        }
        e
    }

    /// One of several values, by the value of `x`; keys ascend.
    fn mux(&mut self, x: Eid, vals: &[(u64, Eid)]) -> Eid {
        if vals.len() == 1 {
            return vals[0].1;
        }
        let first = vals[0].1;
        if vals.iter().all(|v| v.1 == first) {
            return first;
        }
        // trim equal runs at the ends
        let h = vals.len() / 2;
        let a = self.mux(x, &vals[..h]);
        let b = self.mux(x, &vals[h..]);
        if a == b {
            return a;
        }
        let k = self.ar.c(64, vals[h].0 as u128);
        let c = self.ar.cmp(C::Ult, x, k);
        self.ar.ite(c, a, b)
    }

    fn write_byte(&mut self, d: &mut Data, i: usize, e: Eid) {
        if let Some(c) = self.ar.cst(e) {
            d.b[i] = c as u8;
            if !d.s.is_empty() {
                d.s[i] = 0;
            }
        } else {
            if d.s.is_empty() {
                d.s = vec![0; d.b.len()];
            }
            d.s[i] = e;
        }
    }

    fn obj_mut<'a>(&self, st: &'a mut State, g: bool, id: u32) -> &'a mut Obj {
        if g {
            st.glob.get_mut(id).unwrap()
        } else {
            st.heap.get_mut(id).unwrap()
        }
    }

    fn store_at(&mut self, st: &mut State, l: &Loc, t: &Ty, v: &Val, extra: u64) {
        match t {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as usize;
                match l {
                    Loc::Conc(g, id, off) => {
                        let at = (*off + extra) as usize;
                        match v {
                            Val::I(x) => {
                                let d = self.obj_mut(st, *g, *id).data_mut();
                                for i in 0..n {
                                    d.b[at + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                                }
                                if !d.s.is_empty() {
                                    for i in 0..n {
                                        d.s[at + i] = 0;
                                    }
                                }
                            }
                            Val::E(e) => {
                                let full = self.ar.zext(*e, (n * 8) as u32);
                                let bytes: Vec<Eid> = (0..n).map(|i| self.ar.extract(8 * i as u32, 8, full)).collect();
                                let mut o = self.obj(st, *g, *id).unwrap().data.clone();
                                // take the data out to avoid a needless copy
                                self.obj_mut(st, *g, *id).data = Rc::new(Data { b: vec![], s: vec![] });
                                {
                                    let d = Rc::make_mut(&mut o);
                                    for i in 0..n {
                                        self.write_byte(d, at + i, bytes[i]);
                                    }
                                }
                                self.obj_mut(st, *g, *id).data = o;
                            }
                            _ => panic!("store"),
                        }
                    }
                    Loc::Sym(g, id, oe, lo, hi, stride) => {
                        let e = self.e(v, *w);
                        let full = self.ar.zext(e, (n * 8) as u32);
                        let bytes: Vec<Eid> = (0..n).map(|i| self.ar.extract(8 * i as u32, 8, full)).collect();
                        let mut data = self.obj(st, *g, *id).unwrap().data.clone();
                        self.obj_mut(st, *g, *id).data = Rc::new(Data { b: vec![], s: vec![] });
                        {
                            let d = Rc::make_mut(&mut data);
                            let mut o = *lo;
                            while o <= *hi {
                                let k = self.ar.c(64, o as u128);
                                let c = self.ar.cmp(C::Eq, *oe, k);
                                for i in 0..n {
                                    let at = (o + extra) as usize + i;
                                    let old = self.byte(d, at);
                                    let new = self.ar.ite(c, bytes[i], old);
                                    self.write_byte(d, at, new);
                                }
                                o += stride;
                            }
                        }
                        self.obj_mut(st, *g, *id).data = data;
                    }
                }
            }
            Ty::Vec(n, et) => {
                let b = et.bits();
                let Val::A(vs) = v else { panic!("vector store") };
                let vs = vs.clone();
                if b % 8 != 0 {
                    let mut e = self.e(&vs[*n as usize - 1], b);
                    for i in (0..*n as usize - 1).rev() {
                        let x = self.e(&vs[i], b);
                        e = self.ar.concat(e, x);
                    }
                    let x = self.v(e);
                    return self.store_at(st, l, &Ty::Int(b * n), &x, extra);
                }
                for i in 0..*n {
                    self.store_at(st, l, et, &vs[i as usize], extra + (i * b / 8) as u64);
                }
            }
            Ty::Agg(f, _) => {
                let Val::A(vs) = v else { panic!("aggregate store") };
                let vs = vs.clone();
                for (i, (o, t)) in f.iter().enumerate() {
                    self.store_at(st, l, t, &vs[i], extra + o);
                }
            }
            Ty::Void => {}
        }
    }

    fn tysize(t: &Ty) -> u64 {
        match t {
            Ty::Void => 0,
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, e) => (*n as u64 * e.bits() as u64 + 7) / 8,
            Ty::Agg(_, s) => *s,
        }
    }

    pub fn load(&mut self, st: &mut State, p: &Val, t: &Ty) -> R<Val> {
        let l = self.resolve(st, p, Self::tysize(t))?;
        Ok(self.load_at(st, &l, t, 0))
    }
    pub fn store(&mut self, st: &mut State, p: &Val, t: &Ty, v: &Val) -> R<()> {
        let l = self.resolve(st, p, Self::tysize(t))?;
        let (g, id) = match l {
            Loc::Conc(g, id, _) | Loc::Sym(g, id, ..) => (g, id),
        };
        if self.obj(st, g, id).unwrap().ro {
            return Err(End::Violation(format!("write to constant memory ({})", self.place(st))));
        }
        self.store_at(st, &l, t, v, 0);
        Ok(())
    }

    pub fn alloc(&mut self, st: &mut State, size: u64, heap: bool) -> R<u64> {
        if size >= 1 << HEAP_SHIFT {
            return Err(End::Violation(format!("allocation of {} bytes ({})", size, self.place(st))));
        }
        let id = st.heap.add(Obj::new(size, heap));
        Ok(HEAP_BASE + ((id as u64) << HEAP_SHIFT))
    }
    pub fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        match self.find(st, a) {
            Some((false, id, 0)) if st.heap.get(id).map_or(false, |o| o.heap) => {
                st.heap.remove(id);
                Ok(())
            }
            _ => Err(self.memerr(st, "free of something that is not an allocation", a)),
        }
    }
    fn conc(&mut self, st: &mut State, p: &Val, size: u64) -> R<(bool, u32, u64)> {
        let a = self.concretize(st, p);
        match self.resolve(st, &Val::I(a), size)? {
            Loc::Conc(g, id, o) => Ok((g, id, o)),
            _ => unreachable!(),
        }
    }

    pub fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val) -> R<()> {
        let n = self.concretize(st, n);
        if n == 0 {
            return Ok(());
        }
        let (sg, si, so) = self.conc(st, s, n)?;
        let (dg, di, d_o) = self.conc(st, d, n)?;
        let (n, so, d_o) = (n as usize, so as usize, d_o as usize);
        let src = self.obj(st, sg, si).unwrap().data.clone();
        if self.obj(st, dg, di).unwrap().ro {
            return Err(End::Violation(format!("write to constant memory ({})", self.place(st))));
        }
        let dst = self.obj_mut(st, dg, di).data_mut();
        let symbolic = !src.s.is_empty() && src.s[so..so + n].iter().any(|&x| x != 0);
        if sg == dg && si == di {
            dst.b.copy_within(so..so + n, d_o);
            if !dst.s.is_empty() {
                dst.s.copy_within(so..so + n, d_o);
            }
            return Ok(());
        }
        dst.b[d_o..d_o + n].copy_from_slice(&src.b[so..so + n]);
        if symbolic {
            if dst.s.is_empty() {
                dst.s = vec![0; dst.b.len()];
            }
            dst.s[d_o..d_o + n].copy_from_slice(&src.s[so..so + n]);
        } else if !dst.s.is_empty() {
            for x in &mut dst.s[d_o..d_o + n] {
                *x = 0;
            }
        }
        Ok(())
    }

    pub fn memset(&mut self, st: &mut State, d: &Val, v: &Val, n: &Val) -> R<()> {
        let n = self.concretize(st, n);
        if n == 0 {
            return Ok(());
        }
        let (g, id, off) = self.conc(st, d, n)?;
        match v {
            Val::I(x) => {
                let o = self.obj_mut(st, g, id).data_mut();
                for i in off as usize..(off + n) as usize {
                    o.b[i] = *x as u8;
                    if !o.s.is_empty() {
                        o.s[i] = 0;
                    }
                }
            }
            _ => {
                for i in 0..n {
                    self.store_at(st, &Loc::Conc(g, id, off + i), &Ty::Int(8), v, 0);
                }
            }
        }
        Ok(())
    }

    fn memcmp(&mut self, st: &mut State, a: &Val, b: &Val, n: &Val, order: bool) -> R<Val> {
        let n = self.concretize(st, n);
        if n == 0 {
            return Ok(Val::I(0));
        }
        let (ag, ai, ao) = self.conc(st, a, n)?;
        let (bg, bi, bo) = self.conc(st, b, n)?;
        let x = self.obj(st, ag, ai).unwrap().data.clone();
        let y = self.obj(st, bg, bi).unwrap().data.clone();
        let mut r = self.ar.c(32, 0);
        if order {
            for i in (0..n as usize).rev() {
                let p = self.byte(&x, ao as usize + i);
                let q = self.byte(&y, bo as usize + i);
                let eq = self.ar.cmp(C::Eq, p, q);
                let p32 = self.ar.zext(p, 32);
                let q32 = self.ar.zext(q, 32);
                let d = self.ar.bin(B::Sub, p32, q32);
                r = self.ar.ite(eq, r, d);
            }
        } else {
            let mut all = self.ar.tt();
            for i in 0..n as usize {
                let p = self.byte(&x, ao as usize + i);
                let q = self.byte(&y, bo as usize + i);
                let eq = self.ar.cmp(C::Eq, p, q);
                all = self.ar.and1(all, eq);
            }
            let ne = self.ar.not(all);
            r = self.ar.zext(ne, 32);
        }
        Ok(self.v(r))
    }

    pub fn cstr(&mut self, st: &mut State, p: u64, n: usize) -> String {
        let mut s = vec![];
        if let Some((g, id, off)) = self.find(st, p) {
            if let Some(o) = self.obj(st, g, id) {
                for i in 0..n {
                    if let Some(&b) = o.data.b.get(off as usize + i) {
                        s.push(b);
                    }
                }
            }
        }
        String::from_utf8_lossy(&s).to_string()
    }

    // ---- scalar operations

    fn bin1(&mut self, op: B, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let m = widemask(w);
            let r = match op {
                B::Add => x.wrapping_add(*y),
                B::Sub => x.wrapping_sub(*y),
                B::Mul => x.wrapping_mul(*y),
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Shl => {
                    if *y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                B::LShr => {
                    if *y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => fold_bin(op, w, *x as u128, *y as u128) as u64,
            };
            return Val::I(r & m);
        }
        let p = self.e(a, w);
        let q = self.e(b, w);
        let r = self.ar.bin(op, p, q);
        self.v(r)
    }

    fn cmp1(&mut self, p: u32, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| sext128(v as u128, w) as i64;
            let r = match p {
                32 => x == y,
                33 => x != y,
                34 => x > y,
                35 => x >= y,
                36 => x < y,
                37 => x <= y,
                38 => s(x) > s(y),
                39 => s(x) >= s(y),
                40 => s(x) < s(y),
                _ => s(x) <= s(y),
            };
            return Val::I(r as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = match p {
            32 => self.ar.cmp(C::Eq, x, y),
            33 => {
                let e = self.ar.cmp(C::Eq, x, y);
                self.ar.not(e)
            }
            34 => self.ar.cmp(C::Ult, y, x),
            35 => self.ar.cmp(C::Ule, y, x),
            36 => self.ar.cmp(C::Ult, x, y),
            37 => self.ar.cmp(C::Ule, x, y),
            38 => self.ar.cmp(C::Slt, y, x),
            39 => self.ar.cmp(C::Sle, y, x),
            40 => self.ar.cmp(C::Slt, x, y),
            _ => self.ar.cmp(C::Sle, x, y),
        };
        self.v(r)
    }

    fn cast1(&mut self, k: Cast, fw: u32, tw: u32, a: &Val) -> Val {
        match (k, a) {
            (Cast::Bit, _) => a.clone(),
            (_, Val::I(x)) if fw <= 64 && tw <= 64 => Val::I(match k {
                Cast::Trunc => x & widemask(tw),
                Cast::Zext => *x,
                _ => sext128(*x as u128, fw) as u64 & widemask(tw),
            }),
            _ => {
                let e = self.e(a, fw);
                let r = match k {
                    Cast::Trunc => self.ar.extract(0, tw, e),
                    Cast::Zext => self.ar.zext(e, tw),
                    _ => self.ar.sext(e, tw),
                };
                self.v(r)
            }
        }
    }

    fn lanes2(&mut self, n: u32, a: &Val, b: &Val, mut f: impl FnMut(&mut Self, &Val, &Val) -> Val) -> Val {
        if n == 0 {
            return f(self, a, b);
        }
        let (Val::A(x), Val::A(y)) = (a, b) else { panic!("vector operands") };
        let v: Vec<Val> = (0..n as usize).map(|i| f(self, &x[i], &y[i])).collect();
        Val::A(v.into())
    }

    fn ite_val(&mut self, c: Eid, t: &Ty, a: &Val, b: &Val) -> Val {
        match t {
            Ty::Int(w) => {
                let x = self.e(a, *w);
                let y = self.e(b, *w);
                let r = self.ar.ite(c, x, y);
                self.v(r)
            }
            Ty::Vec(n, et) => {
                let et = et.clone();
                self.lanes2(*n, a, b, |s, x, y| s.ite_val(c, &et, x, y))
            }
            Ty::Agg(f, _) => {
                let (Val::A(x), Val::A(y)) = (a, b) else { panic!("aggregate select") };
                let v: Vec<Val> = (0..f.len()).map(|i| self.ite_val(c, &f[i].1, &x[i], &y[i])).collect();
                Val::A(v.into())
            }
            Ty::Void => Val::I(0),
        }
    }

    fn same(a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Val::I(x), Val::I(y)) => x == y,
            (Val::E(x), Val::E(y)) => x == y,
            (Val::A(x), Val::A(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| Self::same(p, q)),
            _ => false,
        }
    }

    fn gep(&mut self, base: &Val, off: i64, idx: &[(Val, u32, i64)]) -> Val {
        let mut k = off as u64;
        let mut syms: Vec<Eid> = vec![];
        for (v, w, sc) in idx {
            match v {
                Val::I(x) => k = k.wrapping_add((sext128(*x as u128, *w) as i64).wrapping_mul(*sc) as u64),
                Val::E(e) => {
                    let e = self.ar.sext(*e, 64);
                    let s = self.ar.c(64, *sc as u64 as u128);
                    let m = self.ar.bin(B::Mul, e, s);
                    syms.push(m);
                }
                _ => panic!("vector gep"),
            }
        }
        match base {
            Val::I(b) => k = k.wrapping_add(*b),
            Val::E(e) => syms.push(*e),
            _ => panic!("vector gep"),
        }
        if syms.is_empty() {
            return Val::I(k);
        }
        let mut e = syms[0];
        for &x in &syms[1..] {
            e = self.ar.bin(B::Add, e, x);
        }
        let kk = self.ar.c(64, k as u128);
        e = self.ar.bin(B::Add, e, kk);
        self.v(e)
    }

    fn intr(&mut self, st: &mut State, k: Intr, a: &[Val], tys: &[Ty], rt: &Ty) -> R<Val> {
        use Intr::*;
        let w = tys.first().map_or(0, |t| t.bits());
        let n = tys.first().map_or(0, |t| t.lanes());
        Ok(match k {
            Nop => Val::I(0),
            Memcpy => {
                self.memcpy(st, &a[0], &a[1], &a[2])?;
                Val::I(0)
            }
            Memset => {
                self.memset(st, &a[0], &a[1], &a[2])?;
                Val::I(0)
            }
            UMin | UMax | SMin | SMax => {
                let p = match k {
                    UMin => 36,
                    UMax => 34,
                    SMin => 40,
                    _ => 38,
                };
                self.lanes2(n, &a[0], &a[1], |s, x, y| {
                    let c = s.cmp1(p, w, x, y);
                    match c {
                        Val::I(1) => x.clone(),
                        Val::I(_) => y.clone(),
                        Val::E(c) => s.ite_val(c, &Ty::Int(w), x, y),
                        _ => unreachable!(),
                    }
                })
            }
            UAddO | USubO | UMulO | SAddO | SSubO | SMulO => {
                if n > 0 {
                    return Err(End::Error("vector overflow intrinsic".into()));
                }
                let op = match k {
                    UAddO | SAddO => B::Add,
                    USubO | SSubO => B::Sub,
                    _ => B::Mul,
                };
                let r = self.bin1(op, w, &a[0], &a[1]);
                let o = match k {
                    UAddO => self.cmp1(36, w, &r, &a[0]),
                    USubO => self.cmp1(36, w, &a[0], &a[1]),
                    _ => {
                        let ww = if matches!(k, UMulO | SMulO) { 2 * w } else { w + 1 };
                        if ww > 128 {
                            match (&a[0], &a[1]) {
                                (Val::I(_), Val::I(_)) => {}
                                _ => return Err(End::Error("wide overflow intrinsic".into())),
                            }
                        }
                        let x = self.e(&a[0], w);
                        let y = self.e(&a[1], w);
                        let signed = !matches!(k, UMulO);
                        let ww = ww.min(128);
                        let (x, y) = if signed { (self.ar.sext(x, ww), self.ar.sext(y, ww)) } else { (self.ar.zext(x, ww), self.ar.zext(y, ww)) };
                        let full = self.ar.bin(op, x, y);
                        let low = self.ar.extract(0, w, full);
                        let back = if signed { self.ar.sext(low, ww) } else { self.ar.zext(low, ww) };
                        let eq = self.ar.cmp(C::Eq, back, full);
                        let ne = self.ar.not(eq);
                        self.v(ne)
                    }
                };
                Val::A(vec![r, o].into())
            }
            UAddSat | USubSat => self.lanes2(n, &a[0], &a[1], |s, x, y| {
                let op = if k == UAddSat { B::Add } else { B::Sub };
                let r = s.bin1(op, w, x, y);
                let o = if k == UAddSat { s.cmp1(36, w, &r, x) } else { s.cmp1(36, w, x, y) };
                let sat = if k == UAddSat { Val::I(widemask(w)) } else { Val::I(0) };
                match o {
                    Val::I(1) => sat,
                    Val::I(_) => r,
                    Val::E(c) => s.ite_val(c, &Ty::Int(w), &sat, &r),
                    _ => unreachable!(),
                }
            }),
            Ctpop | Ctlz | Cttz | Bswap | Bitreverse | Abs => {
                let f = |s: &mut Self, x: &Val| -> Val {
                    if let (Ctlz | Cttz, Val::E(e)) = (k, x) {
                        let e = s.under(st, *e);
                        let x = s.v(e);
                        return s.unary(k, w, &x);
                    }
                    s.unary(k, w, x)
                };
                if n > 0 {
                    let Val::A(v) = &a[0] else { panic!() };
                    let v = v.clone();
                    let r: Vec<Val> = v.iter().map(|x| f(self, x)).collect();
                    Val::A(r.into())
                } else {
                    f(self, &a[0])
                }
            }
            Fshl | Fshr => {
                if n > 0 {
                    return Err(End::Error("vector funnel shift".into()));
                }
                let x = self.e(&a[0], w);
                let y = self.e(&a[1], w);
                let s = self.e(&a[2], w);
                let kw = self.ar.c(w, w as u128);
                let sm = self.ar.bin(B::URem, s, kw);
                let inv = self.ar.bin(B::Sub, kw, sm);
                let (l, r) = if k == Fshl { (sm, inv) } else { (inv, sm) };
                // shifting by the full width gives 0, as the expression semantics say
                let hi = self.ar.bin(B::Shl, x, l);
                let lo = self.ar.bin(B::LShr, y, r);
                let e = self.ar.bin(B::Or, hi, lo);
                self.v(e)
            }
            UCmp | SCmp => {
                let (lt, gt) = if k == UCmp { (36, 34) } else { (40, 38) };
                let l = self.cmp1(lt, w, &a[0], &a[1]);
                let g = self.cmp1(gt, w, &a[0], &a[1]);
                let rw = rt.bits();
                let l = self.e(&l, 1);
                let g = self.e(&g, 1);
                let m1 = self.ar.c(rw, mask(rw));
                let p1 = self.ar.c(rw, 1);
                let z = self.ar.c(rw, 0);
                let t = self.ar.ite(g, p1, z);
                let e = self.ar.ite(l, m1, t);
                self.v(e)
            }
            Expect => a[0].clone(),
            ObjectSize => Val::I(widemask(rt.bits())),
            IsConstant => Val::I(0),
            LoadRelative => {
                let off = self.concretize(st, &a[1]);
                let base = self.concretize(st, &a[0]);
                let r = self.load(st, &Val::I(base.wrapping_add(off)), &Ty::Int(32))?;
                let r = self.concretize(st, &r);
                Val::I(base.wrapping_add(r as u32 as i32 as i64 as u64))
            }
            Trap => return Err(End::Violation(format!("abort ({})", self.place(st)))),
            ReduceOr | ReduceAnd | ReduceAdd | ReduceXor => {
                let Val::A(v) = &a[0] else { panic!() };
                let v = v.clone();
                let op = match k {
                    ReduceOr => B::Or,
                    ReduceAnd => B::And,
                    ReduceAdd => B::Add,
                    _ => B::Xor,
                };
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = self.bin1(op, w, &r, x);
                }
                r
            }
            SAddSat | SSubSat | Bad => return Err(End::Error(format!("intrinsic {:?}", k))),
        })
    }

    fn unary(&mut self, k: Intr, w: u32, x: &Val) -> Val {
        use Intr::*;
        match x {
            Val::I(v) if w <= 64 => {
                let v = *v;
                Val::I(match k {
                    Ctpop => v.count_ones() as u64,
                    Ctlz => (v.leading_zeros() - (64 - w)) as u64,
                    Cttz => {
                        if v == 0 {
                            w as u64
                        } else {
                            v.trailing_zeros() as u64
                        }
                    }
                    Bswap => v.swap_bytes() >> (64 - w),
                    Bitreverse => v.reverse_bits() >> (64 - w),
                    _ => {
                        let s = sext128(v as u128, w) as i64;
                        s.wrapping_abs() as u64 & widemask(w)
                    }
                })
            }
            _ => {
                let e = self.e(x, w);
                let r = match k {
                    Ctpop => {
                        let mut acc = self.ar.c(w, 0);
                        for i in 0..w {
                            let b = self.ar.extract(i, 1, e);
                            let z = self.ar.zext(b, w);
                            acc = self.ar.bin(B::Add, acc, z);
                        }
                        acc
                    }
                    Ctlz | Cttz => {
                        let mut acc = self.ar.c(w, w as u128);
                        for j in 0..w {
                            let (i, val) = if k == Ctlz { (j, w - 1 - j) } else { (w - 1 - j, w - 1 - j) };
                            let b = self.ar.extract(i, 1, e);
                            let c = self.ar.c(w, val as u128);
                            acc = self.ar.ite(b, c, acc);
                        }
                        acc
                    }
                    Bswap => {
                        let mut acc = self.ar.extract(0, 8, e);
                        for i in 1..w / 8 {
                            let b = self.ar.extract(8 * i, 8, e);
                            acc = self.ar.concat(acc, b);
                        }
                        acc
                    }
                    Bitreverse => {
                        let mut acc = self.ar.extract(0, 1, e);
                        for i in 1..w {
                            let b = self.ar.extract(i, 1, e);
                            acc = self.ar.concat(acc, b);
                        }
                        acc
                    }
                    _ => {
                        let z = self.ar.c(w, 0);
                        let neg = self.ar.bin(B::Sub, z, e);
                        let c = self.ar.cmp(C::Slt, e, z);
                        self.ar.ite(c, neg, e)
                    }
                };
                self.v(r)
            }
        }
    }

    // ---- control

    fn enter(&mut self, st: &mut State, b: u32) {
        let from = st.cur.block;
        let f = st.cur.f;
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let inc = &blk.from[&from];
            if inc.len() == 1 {
                let v = self.op(st, &inc[0]);
                st.cur.regs[blk.phis[0].0 as usize] = v;
            } else {
                let vals: Vec<Val> = inc.iter().map(|o| self.op(st, o)).collect();
                for (v, (r, _, _)) in vals.into_iter().zip(blk.phis.iter()) {
                    st.cur.regs[*r as usize] = v;
                }
            }
        }
        st.cur.block = b;
        st.cur.ip = 0;
    }

    fn pure_op(op: &Op) -> bool {
        match op {
            Op::Bin(..) | Op::Cmp(..) | Op::Cast(..) | Op::Gep(..) | Op::Load(..) | Op::Extract(..) | Op::Insert(..) | Op::ExtEl(..) | Op::InsEl(..) | Op::Shuffle(..) | Op::Copy(..) | Op::Select(..) => true,
            Op::Call(Callee::Intr(k), ..) => !matches!(k, Intr::Memcpy | Intr::Memset | Intr::LoadRelative | Intr::Trap | Intr::Bad),
            _ => false,
        }
    }

    /// The blocks between `b` and its post-dominator, if they are few, pure and acyclic.
    fn region(&mut self, f: &'static Func, fid: u32, b: u32) -> Option<Region> {
        if let Some(r) = self.regions.get(&(fid, b)) {
            return r.clone();
        }
        let r = self.find_region(f, b);
        self.regions.insert((fid, b), r.clone());
        r
    }

    fn find_region(&self, f: &'static Func, b: u32) -> Option<Region> {
        let j = f.ipdom[b as usize];
        if j == u32::MAX || j == b {
            return None;
        }
        let succ = |x: u32| -> Vec<u32> {
            match &f.blocks[x as usize].insts.last().unwrap().op {
                Op::Br(t) => vec![*t],
                Op::CondBr(_, t, e) => vec![*t, *e],
                Op::Switch(_, _, c, d) => {
                    let mut v: Vec<u32> = c.iter().map(|y| y.1).collect();
                    v.push(*d);
                    v
                }
                _ => vec![],
            }
        };
        // depth-first post-order, rejecting cycles
        let mut state: HashMap<u32, u8> = HashMap::new();
        let mut post = vec![];
        let mut insts = 0;
        let mut st = vec![(b, 0usize, succ(b))];
        state.insert(b, 1);
        while let Some((x, k, s)) = st.pop() {
            if k < s.len() {
                let t = s[k];
                st.push((x, k + 1, s));
                if t == j {
                    continue;
                }
                match state.get(&t) {
                    Some(1) => return None,
                    Some(_) => continue,
                    None => {}
                }
                let blk = &f.blocks[t as usize];
                let n = blk.insts.len();
                if !blk.insts[..n - 1].iter().all(|i| Self::pure_op(&i.op)) {
                    return None;
                }
                if !matches!(blk.insts[n - 1].op, Op::Br(_) | Op::CondBr(..) | Op::Switch(..)) {
                    return None;
                }
                insts += n;
                if insts > 80 || state.len() > 24 {
                    return None;
                }
                state.insert(t, 1);
                st.push((t, 0, succ(t)));
            } else {
                state.insert(x, 2);
                if x != b {
                    post.push(x);
                }
            }
        }
        post.reverse();
        Some(Region { order: post.into(), join: j })
    }

    /// Evaluates one pure instruction without deciding anything.
    fn pure(&mut self, st: &mut State, op: &Op) -> Option<Val> {
        match op {
            Op::Load(t, p) => {
                let p = self.op(st, p);
                let Val::I(a) = p else { return None };
                let (g, id, off) = self.find(st, a)?;
                let o = self.obj(st, g, id)?;
                if off + Self::tysize(t) > o.size {
                    return None;
                }
                Some(self.load_at(st, &Loc::Conc(g, id, off), t, 0))
            }
            Op::Select(t, c, a, b, ptr) => {
                let c = self.op(st, c);
                let a = self.op(st, a);
                let b = self.op(st, b);
                match c {
                    Val::I(1) => Some(a),
                    Val::I(_) => Some(b),
                    Val::E(c) => {
                        if Self::same(&a, &b) {
                            return Some(a);
                        }
                        if *ptr {
                            return None;
                        }
                        Some(self.ite_val(c, t, &a, &b))
                    }
                    _ => self.vselect(t, &c, &a, &b),
                }
            }
            _ => self.simple(st, op).ok(),
        }
    }

    fn vselect(&mut self, t: &Ty, c: &Val, a: &Val, b: &Val) -> Option<Val> {
        let (Val::A(c), Val::A(x), Val::A(y)) = (c, a, b) else { return None };
        let Ty::Vec(_, et) = t else { return None };
        let mut v = vec![];
        for i in 0..c.len() {
            v.push(match &c[i] {
                Val::I(1) => x[i].clone(),
                Val::I(_) => y[i].clone(),
                Val::E(k) => self.ite_val(*k, et, &x[i], &y[i]),
                _ => return None,
            });
        }
        Some(Val::A(v.into()))
    }

    /// If-conversion: runs both arms of a symbolic branch and joins them.
    fn try_merge(&mut self, st: &mut State) -> bool {
        let f = st.cur.f;
        let b = st.cur.block;
        let Some(rg) = self.region(f, st.cur.fid, b) else { return false };
        let mut edges: HashMap<(u32, u32), Eid> = HashMap::new();
        let tt = self.ar.tt();
        if !self.edges_of(st, b, tt, &mut edges) {
            return false;
        }
        for &x in rg.order.iter() {
            let blk = &f.blocks[x as usize];
            // guard
            let inc: Vec<(u32, Eid)> = {
                let mut v: Vec<(u32, Eid)> = edges.iter().filter(|((_, t), _)| *t == x).map(|((s, _), g)| (*s, *g)).collect();
                v.sort_unstable();
                v
            };
            let mut guard = self.ar.ff();
            for &(_, g) in &inc {
                guard = self.ar.or1(guard, g);
            }
            if self.ar.cst(guard) == Some(0) {
                continue;
            }
            if !self.join_phis(st, x, &inc) {
                return false;
            }
            for i in &blk.insts[..blk.insts.len() - 1] {
                match self.pure(st, &i.op) {
                    Some(v) => st.cur.regs[i.dst as usize] = v,
                    None => return false,
                }
                self.mark(i.loc);
                st.steps += 1;
            }
            // successors of x
            if !self.edges_of(st, x, guard, &mut edges) {
                return false;
            }
        }
        let mut inc: Vec<(u32, Eid)> = edges.iter().filter(|((_, t), _)| *t == rg.join).map(|((s, _), g)| (*s, *g)).collect();
        inc.sort_unstable();
        if !self.join_phis(st, rg.join, &inc) {
            return false;
        }
        st.cur.block = rg.join;
        st.cur.ip = 0;
        self.t.merges += 1;
        true
    }

    fn edges_of(&mut self, st: &mut State, x: u32, guard: Eid, edges: &mut HashMap<(u32, u32), Eid>) -> bool {
        let f = st.cur.f;
        let mut add = |s: &mut Self, t: u32, g: Eid| {
            let old = edges.get(&(x, t)).copied();
            let g = match old {
                Some(o) => s.ar.or1(o, g),
                None => g,
            };
            edges.insert((x, t), g);
        };
        match &f.blocks[x as usize].insts.last().unwrap().op {
            Op::Br(t) => add(self, *t, guard),
            Op::CondBr(c, t, e) => {
                let c = self.op(st, c);
                let c = self.e(&c, 1);
                let nc = self.ar.not(c);
                let g1 = self.ar.and1(guard, c);
                let g2 = self.ar.and1(guard, nc);
                add(self, *t, g1);
                add(self, *e, g2);
            }
            Op::Switch(w, c, cases, d) => {
                let c = self.op(st, c);
                let c = self.e(&c, *w);
                let mut rest = guard;
                for (k, t) in cases.iter() {
                    let k = self.ar.c(*w, *k as u128);
                    let q = self.ar.cmp(C::Eq, c, k);
                    let g = self.ar.and1(guard, q);
                    add(self, *t, g);
                    let nq = self.ar.not(q);
                    rest = self.ar.and1(rest, nq);
                }
                add(self, *d, rest);
            }
            _ => return false,
        }
        true
    }

    fn join_phis(&mut self, st: &mut State, x: u32, inc: &[(u32, Eid)]) -> bool {
        let blk = &st.cur.f.blocks[x as usize];
        if blk.phis.is_empty() {
            return true;
        }
        let live: Vec<(u32, Eid)> = inc.iter().copied().filter(|&(_, g)| self.ar.cst(g) != Some(0)).collect();
        if live.is_empty() {
            return false;
        }
        let mut out = vec![];
        for (k, (r, t, ptr)) in blk.phis.iter().enumerate() {
            let vals: Vec<(Val, Eid)> = live.iter().map(|&(s, g)| (self.op(st, &blk.from[&s][k]), g)).collect();
            let mut acc = vals[vals.len() - 1].0.clone();
            for (v, g) in vals[..vals.len() - 1].iter().rev() {
                if Self::same(v, &acc) {
                    continue;
                }
                if *ptr {
                    return false;
                }
                acc = self.ite_val(*g, t, v, &acc);
            }
            out.push((*r, acc));
        }
        for (r, v) in out {
            st.cur.regs[r as usize] = v;
        }
        true
    }

    #[inline]
    fn mark(&mut self, loc: u32) {
        let l = loc as usize;
        if l >= self.seen.len() {
            self.seen.resize(l + 1024, false);
        }
        self.seen[l] = true;
    }

    /// Instructions that read only registers.
    fn simple(&mut self, st: &mut State, op: &Op) -> R<Val> {
        Ok(match op {
            Op::Bin(b, t, x, y) => {
                let p = self.op(st, x);
                let q = self.op(st, y);
                match t {
                    Ty::Int(w) => self.bin1(*b, *w, &p, &q),
                    _ => {
                        let (b, w) = (*b, t.bits());
                        self.lanes2(t.lanes(), &p, &q, |s, x, y| s.bin1(b, w, x, y))
                    }
                }
            }
            Op::Cmp(k, t, x, y) => {
                let p = self.op(st, x);
                let q = self.op(st, y);
                match t {
                    Ty::Int(w) => self.cmp1(*k, *w, &p, &q),
                    _ => {
                        let (k, w) = (*k, t.bits());
                        self.lanes2(t.lanes(), &p, &q, |s, x, y| s.cmp1(k, w, x, y))
                    }
                }
            }
            Op::Cast(k, from, to, x) => {
                let a = self.op(st, x);
                if *k == Cast::Bit {
                    return self.bitcast(from, to, &a);
                }
                match to {
                    Ty::Vec(..) => {
                        let Val::A(v) = &a else { panic!() };
                        let v = v.clone();
                        let r: Vec<Val> = v.iter().map(|x| self.cast1(*k, from.bits(), to.bits(), x)).collect();
                        Val::A(r.into())
                    }
                    _ => self.cast1(*k, from.bits(), to.bits(), &a),
                }
            }
            Op::Gep(b, off, idx) => {
                let base = self.op(st, b);
                if let Val::I(x) = base {
                    let mut k = x.wrapping_add(*off as u64);
                    let mut ok = true;
                    for (o, w, sc) in idx.iter() {
                        match o {
                            Opd::R(r) => match &st.cur.regs[*r as usize] {
                                Val::I(v) => k = k.wrapping_add((sext128(*v as u128, *w) as i64).wrapping_mul(*sc) as u64),
                                _ => {
                                    ok = false;
                                    break;
                                }
                            },
                            _ => unreachable!(),
                        }
                    }
                    if ok {
                        return Ok(Val::I(k));
                    }
                }
                let ix: Vec<(Val, u32, i64)> = idx.iter().map(|(o, w, s)| (self.op(st, o), *w, *s)).collect();
                self.gep(&base, *off, &ix)
            }
            Op::Extract(a, ix) => {
                let mut v = self.op(st, a);
                for &i in ix.iter() {
                    let Val::A(x) = &v else { panic!("extractvalue") };
                    v = x[i as usize].clone();
                }
                v
            }
            Op::Insert(_, a, b, ix) => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                fn ins(a: &Val, b: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return b;
                    }
                    let Val::A(x) = a else { panic!("insertvalue") };
                    let mut v: Vec<Val> = x.to_vec();
                    v[ix[0] as usize] = ins(&x[ix[0] as usize], b, &ix[1..]);
                    Val::A(v.into())
                }
                ins(&a, b, ix)
            }
            Op::ExtEl(a, i) => {
                let a = self.op(st, a);
                let i = self.op(st, i);
                match (a, i) {
                    (Val::A(x), Val::I(i)) => x[i as usize].clone(),
                    _ => return Err(End::Error("extractelement at a symbolic index".into())),
                }
            }
            Op::InsEl(_, a, b, i) => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                let i = self.op(st, i);
                match (a, i) {
                    (Val::A(x), Val::I(i)) => {
                        let mut v = x.to_vec();
                        v[i as usize] = b;
                        Val::A(v.into())
                    }
                    _ => return Err(End::Error("insertelement at a symbolic index".into())),
                }
            }
            Op::Shuffle(t, a, b, m) => {
                let a = self.op(st, a);
                let b = self.op(st, b);
                let (Val::A(x), Val::A(y)) = (&a, &b) else { panic!("shuffle") };
                let Ty::Vec(_, et) = t else { panic!() };
                let z = self.zero(et);
                let v: Vec<Val> = m
                    .iter()
                    .map(|&i| {
                        if i < 0 {
                            z.clone()
                        } else if (i as usize) < x.len() {
                            x[i as usize].clone()
                        } else {
                            y[i as usize - x.len()].clone()
                        }
                    })
                    .collect();
                Val::A(v.into())
            }
            Op::Copy(a) => self.op(st, a),
            Op::Call(Callee::Intr(k), args, tys, rt, _) => {
                let a: Vec<Val> = args.iter().map(|o| self.op(st, o)).collect();
                self.intr(st, *k, &a, tys, rt)?
            }
            _ => return Err(End::Error("not a simple instruction".into())),
        })
    }

    fn bitcast(&mut self, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        if from.lanes() == to.lanes() {
            return Ok(a.clone());
        }
        // through one wide value
        let (fb, fl) = (from.bits(), from.lanes());
        let total = fb * fl.max(1);
        if total > 128 && !(fl > 0 && to.lanes() > 0) {
            return Err(End::Error(format!("bitcast of {} bits", total)));
        }
        let bits: Vec<(Eid, u32)> = match a {
            Val::A(v) => {
                let v = v.clone();
                v.iter().map(|x| (self.e(x, fb), fb)).collect()
            }
            _ => vec![(self.e(a, fb), fb)],
        };
        let tb = to.bits();
        let take = |s: &mut Self, lo: u32, n: u32| -> Eid {
            // bits lo..lo+n of the concatenation
            let mut out: Option<Eid> = None;
            let mut got = 0;
            while got < n {
                let at = lo + got;
                let i = (at / fb) as usize;
                let o = at % fb;
                let k = (fb - o).min(n - got);
                let p = s.ar.extract(o, k, bits[i].0);
                out = Some(match out {
                    None => p,
                    Some(e) => s.ar.concat(p, e),
                });
                got += k;
            }
            out.unwrap()
        };
        if to.lanes() > 0 {
            let v: Vec<Val> = (0..to.lanes())
                .map(|i| {
                    let e = take(self, i * tb, tb);
                    self.v(e)
                })
                .collect();
            Ok(Val::A(v.into()))
        } else {
            let e = take(self, 0, tb);
            Ok(self.v(e))
        }
    }

    fn ret(&mut self, st: &mut State, v: Val) -> R<Flow> {
        for id in std::mem::take(&mut st.cur.allocas) {
            st.heap.remove(id);
        }
        let Some(fr) = st.stack.pop() else { return Err(End::Done) };
        let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
        st.cur = fr;
        let i = &st.cur.f.blocks[st.cur.block as usize].insts[st.cur.ip as usize];
        st.cur.regs[i.dst as usize] = v;
        if let Op::Call(_, _, _, _, Some(n)) = &i.op {
            return Ok(Flow::Jump(*n));
        }
        Ok(Flow::Next)
    }

    fn call(&mut self, st: &mut State, fid: u32, args: Vec<Val>, normal: Option<u32>, dst: u32) -> R<Flow> {
        if let Some(m) = self.model_of(fid) {
            let v = m(self, st, &args)?;
            st.cur.regs[dst as usize] = v;
            return Ok(match normal {
                Some(n) => Flow::Jump(n),
                None => Flow::Next,
            });
        }
        let f = self.m.get(fid);
        if f.decl {
            return Err(End::Error(format!("call of the external function {}", f.name)));
        }
        self.funcs_seen[fid as usize] = true;
        if st.stack.len() > 1500 {
            return Err(End::Violation(format!("stack overflow ({})", self.place(st))));
        }
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate().take(f.nargs as usize) {
            regs[i] = a;
        }
        let new = Frame { f, fid, block: 0, ip: 0, regs, allocas: vec![] };
        let old = std::mem::replace(&mut st.cur, new);
        st.stack.push(Rc::new(old));
        Ok(Flow::Stay)
    }

    fn step(&mut self, st: &mut State, i: &'static Inst) -> R<Flow> {
        match &i.op {
            Op::Load(t, p) => {
                let p = self.op(st, p);
                let v = self.load(st, &p, t)?;
                st.cur.regs[i.dst as usize] = v;
            }
            Op::Store(t, v, p) => {
                let v = self.op(st, v);
                let p = self.op(st, p);
                self.store(st, &p, t, &v)?;
            }
            Op::Select(t, c, a, b, ptr) => {
                let c = self.op(st, c);
                let v = match c {
                    Val::I(1) => self.op(st, a),
                    Val::I(_) => self.op(st, b),
                    Val::E(c) => {
                        let a = self.op(st, a);
                        let b = self.op(st, b);
                        let c = self.under(st, c);
                        if let Some(k) = self.ar.cst(c) {
                            if k == 1 { a } else { b }
                        } else if Self::same(&a, &b) {
                            a
                        } else if *ptr {
                            if self.decide(st, c) {
                                a
                            } else {
                                b
                            }
                        } else {
                            self.ite_val(c, t, &a, &b)
                        }
                    }
                    _ => {
                        let a = self.op(st, a);
                        let b = self.op(st, b);
                        self.vselect(t, &c, &a, &b).ok_or_else(|| End::Error("vector select".into()))?
                    }
                };
                st.cur.regs[i.dst as usize] = v;
            }
            Op::Br(b) => return Ok(Flow::Jump(*b)),
            Op::CondBr(c, t, e) => {
                let c = self.op(st, c);
                let side = match c {
                    Val::I(x) => x == 1,
                    Val::E(c) => {
                        if self.ar.w(c) != 1 {
                            return Err(End::Error("branch on a wide value".into()));
                        }
                        if self.o.merge && self.try_merge(st) {
                            return Ok(Flow::Stay);
                        }
                        self.decide(st, c)
                    }
                    _ => panic!(),
                };
                return Ok(Flow::Jump(if side { *t } else { *e }));
            }
            Op::Switch(w, c, cases, d) => {
                let c = self.op(st, c);
                match c {
                    Val::I(x) => {
                        let x = x & widemask(*w);
                        for (k, t) in cases.iter() {
                            if *k == x {
                                return Ok(Flow::Jump(*t));
                            }
                        }
                        return Ok(Flow::Jump(*d));
                    }
                    Val::E(c) => {
                        if self.o.merge && self.try_merge(st) {
                            return Ok(Flow::Stay);
                        }
                        // one decision per destination
                        let x = self.ar.eval(c, &st.model) as u64;
                        let dest = cases.iter().find(|(k, _)| *k == x).map_or(*d, |c| c.1);
                        let mut q = if dest == *d {
                            // none of the cases that lead elsewhere
                            let mut q = self.ar.tt();
                            for (k, t) in cases.iter() {
                                if *t != dest {
                                    let k = self.ar.c(*w, *k as u128);
                                    let e = self.ar.cmp(C::Eq, c, k);
                                    let n = self.ar.not(e);
                                    q = self.ar.and1(q, n);
                                }
                            }
                            q
                        } else {
                            self.ar.ff()
                        };
                        if dest != *d {
                            for (k, t) in cases.iter() {
                                if *t == dest {
                                    let k = self.ar.c(*w, *k as u128);
                                    let e = self.ar.cmp(C::Eq, c, k);
                                    q = self.ar.or1(q, e);
                                }
                            }
                        }
                        self.decide(st, q);
                        return Ok(Flow::Jump(dest));
                    }
                    _ => panic!(),
                }
            }
            Op::Ret(v) => {
                let v = match v {
                    Some(o) => self.op(st, o),
                    None => Val::I(0),
                };
                return self.ret(st, v);
            }
            Op::Call(callee, args, tys, rt, normal) => {
                let a: Vec<Val> = args.iter().map(|o| self.op(st, o)).collect();
                match callee {
                    Callee::Fn(id) => return self.call(st, *id, a, *normal, i.dst),
                    Callee::Ind(o) => {
                        let p = self.op(st, o);
                        let x = self.concretize(st, &p);
                        let Some(id) = addr_fn(x) else { return Err(self.memerr(st, "call through a bad pointer", x)) };
                        return self.call(st, id, a, *normal, i.dst);
                    }
                    Callee::Intr(k) => {
                        let v = self.intr(st, *k, &a, tys, rt)?;
                        st.cur.regs[i.dst as usize] = v;
                        if let Some(n) = normal {
                            return Ok(Flow::Jump(*n));
                        }
                    }
                    Callee::Asm(s) => {
                        let v = self.asm(s, rt)?;
                        st.cur.regs[i.dst as usize] = v;
                    }
                }
            }
            Op::Alloca(sz, n) => {
                let n = self.op(st, n);
                let n = self.concretize(st, &n);
                let a = self.alloc(st, sz * n, false)?;
                st.cur.allocas.push(((a - HEAP_BASE) >> HEAP_SHIFT) as u32);
                st.cur.regs[i.dst as usize] = Val::I(a);
            }
            Op::Rmw(k, t, p, v) => {
                let p = self.op(st, p);
                let v = self.op(st, v);
                let old = self.load(st, &p, t)?;
                let w = t.bits();
                let new = match k {
                    0 => v.clone(),
                    1 => self.bin1(B::Add, w, &old, &v),
                    2 => self.bin1(B::Sub, w, &old, &v),
                    3 => self.bin1(B::And, w, &old, &v),
                    5 => self.bin1(B::Or, w, &old, &v),
                    6 => self.bin1(B::Xor, w, &old, &v),
                    9 | 10 => {
                        let k = if *k == 9 { Intr::UMax } else { Intr::UMin };
                        self.intr(st, k, &[old.clone(), v.clone()], &[t.clone(), t.clone()], t)?
                    }
                    _ => return Err(End::Error(format!("atomicrmw {}", k))),
                };
                self.store(st, &p, t, &new)?;
                st.cur.regs[i.dst as usize] = old;
            }
            Op::CmpXchg(t, p, c, n) => {
                let p = self.op(st, p);
                let c = self.op(st, c);
                let n = self.op(st, n);
                let old = self.load(st, &p, t)?;
                let eq = self.cmp1(32, t.bits(), &old, &c);
                let eq = self.e(&eq, 1);
                let yes = self.decide(st, eq);
                if yes {
                    self.store(st, &p, t, &n)?;
                }
                st.cur.regs[i.dst as usize] = Val::A(vec![old, Val::I(yes as u64)].into());
            }
            Op::Fence => {}
            Op::Unreachable => return Err(End::Error(format!("unreachable code reached at {}{}", self.place(st), self.backtrace(st)))),
            Op::Bad(s) => return Err(End::Error(format!("instruction {} at {}{}", s, self.place(st), self.backtrace(st)))),
            op => {
                let v = self.simple(st, op)?;
                st.cur.regs[i.dst as usize] = v;
            }
        }
        Ok(Flow::Next)
    }

    fn asm(&mut self, s: &str, rt: &Ty) -> R<Val> {
        if s.contains("\"\"") || s.contains("asm sideeffect \"\"") {
            return Ok(self.zero(rt));
        }
        if s.contains("cpuid") || s.contains("xgetbv") {
            return Ok(self.zero(rt));
        }
        Err(End::Error(format!("inline assembly {}", s)))
    }

    /// Runs one state to its end.
    /// Runs a path to its end, or for a while if there are others.
    pub fn run(&mut self, mut st: State, quantum: u64) {
        self.ar.new_epoch();
        let until = self.t.instrs + quantum;
        let end = loop {
            if self.t.instrs > until {
                self.work.push(st);
                return;
            }
            let b = &st.cur.f.blocks[st.cur.block as usize];
            let i: &'static Inst = &b.insts[st.cur.ip as usize];
            st.steps += 1;
            if st.steps > self.o.max_steps {
                break End::Violation(format!("no end after {} steps", self.o.max_steps));
            }
            self.mark(i.loc);
            self.t.instrs += 1;
            if self.o.trace {
                eprintln!("{} b{}:{} {:?}", st.cur.f.name, st.cur.block, st.cur.ip, i);
            }
            match self.step(&mut st, i) {
                Ok(Flow::Next) => st.cur.ip += 1,
                Ok(Flow::Jump(b)) => self.enter(&mut st, b),
                Ok(Flow::Stay) => {}
                Err(e) => break e,
            }
        };
        self.finish(st, end);
    }

    fn finish(&mut self, st: State, end: End) {
        self.t.max_syms = self.t.max_syms.max(st.model.len());
        match end {
            End::Done => {
                self.t.paths += 1;
                for &c in &st.covers {
                    *self.t.covers.entry(c).or_insert(0) += 1;
                }
                if self.t.paths >= self.sample_next && self.t.samples.len() < 24 {
                    self.sample_next = self.t.paths + 1 + self.t.paths / 2;
                    let mut obs = vec![];
                    for (t, v) in &st.obs {
                        let x = match v {
                            Val::I(x) => *x,
                            Val::E(e) => self.ar.eval(*e, &st.model) as u64,
                            _ => 0,
                        };
                        obs.push((*t, x));
                    }
                    self.t.samples.push(Sample { bytes: st.model.clone(), obs, covers: st.covers.clone() });
                }
            }
            End::Assume => self.t.assumed_away += 1,
            End::Violation(m) => {
                self.t.paths += 1;
                let model = st.model.clone();
                self.found(&st, m, &model);
            }
            End::Error(m) => {
                self.t.paths += 1;
                if self.t.errors.is_empty() {
                    let bt = self.backtrace(&st);
                    self.error(format!("{}{}", m, bt));
                } else {
                    self.error(m);
                }
            }
        }
    }

    // ---- modelled functions

    fn model_of(&mut self, fid: u32) -> Option<Model> {
        match self.nomodel[fid as usize] {
            1 => return None,
            2 => return self.models.get(&fid).copied(),
            _ => {}
        }
        let n = self.m.fnames[fid as usize].clone();
        match find_model(&n) {
            Some(m) => {
                self.models.insert(fid, m);
                self.nomodel[fid as usize] = 2;
                Some(m)
            }
            None => {
                self.nomodel[fid as usize] = 1;
                None
            }
        }
    }
}

fn find_model(n: &str) -> Option<Model> {
    // v0-mangled names carry each path segment as <length><name>
    let has = |s: &str| n.contains(s);
    Some(match n {
        "sx_byte" => m_byte,
        "sx_assume" => m_assume,
        "sx_assert" => m_assert,
        "sx_observe" => m_observe,
        "sx_cover" => m_cover,
        "sx_fork" => m_fork,
        "sx_sched" => m_sched,
        "sx_param" => m_param,
        "malloc" => m_malloc,
        "calloc" => m_calloc,
        "realloc" => m_realloc,
        "free" => m_free,
        "posix_memalign" => m_memalign,
        "memcpy" | "memmove" => m_memcpy,
        "memset" => m_memset,
        "bcmp" => m_bcmp,
        "memcmp" => m_memcmp,
        "strlen" => m_strlen,
        "getenv" => m_null,
        "write" | "writev" => m_write,
        "__cxa_thread_atexit_impl" => m_zero,
        "__errno_location" => m_errno,
        "gettid" | "pthread_self" => m_one,
        "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete" => m_zero,
        "abort" | "exit" => m_abort,
        "clock_gettime" => m_clock,
        "syscall" => m_syscall,
        _ => {
            if has("14___rust_deallo") || has("14___rust_dealloc") {
                m_free
            } else if has("19___rust_alloc_zeroed") {
                m_ralloc_zeroed
            } else if has("14___rust_realloc") {
                m_rrealloc
            } else if has("12___rust_alloc") && !has("error") {
                m_malloc
            } else if has("35___rust_no_alloc_shim_is_unstable_v2") {
                m_zero
            } else if has("20hashmap_random_keys") || has("hashmap_random_keys") {
                m_keys
            } else if has("9panicking") && (has("9panic_fmt") || has("18panic_nounwind_fmt")) || has("17rust_begin_unwind") || n == "rust_begin_unwind" || has("19begin_panic_handler") || has("11begin_panic") || has("18handle_alloc_error") || has("17___rust_start_panic") {
                m_panic
            } else {
                return None;
            }
        }
    })
}

fn m_byte(x: &mut Ex, st: &mut State, _: &[Val]) -> R<Val> {
    let i = st.model.len() as u32;
    st.model.push(0);
    let s = x.ar.sym(i);
    let e = x.ar.zext(s, 32);
    Ok(Val::E(e))
}
fn cond(x: &mut Ex, v: &Val) -> Eid {
    let e = x.e(v, 32);
    x.ar.extract(0, 1, e)
}
fn m_assume(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let c = cond(x, &a[0]);
    x.assume(st, c)?;
    Ok(Val::I(0))
}
fn m_assert(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let c = cond(x, &a[0]);
    let p = x.concretize(st, &a[1]);
    let n = x.concretize(st, &a[2]);
    let msg = x.cstr(st, p, n as usize);
    x.assert(st, c, &msg)?;
    Ok(Val::I(0))
}
fn m_observe(_: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let Val::I(t) = a[0] else { return Err(End::Error("symbolic observation tag".into())) };
    st.obs.push((t as u32, a[1].clone()));
    Ok(Val::I(0))
}
fn m_cover(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let c = x.concretize(st, &a[0]) as u32;
    if !st.covers.contains(&c) {
        st.covers.push(c);
    }
    Ok(Val::I(0))
}
fn m_fork(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let e = match &a[0] {
        Val::I(v) => return Ok(Val::I(*v)),
        Val::E(e) => *e,
        _ => panic!("fork"),
    };
    // every value it can have, each on its own path
    let w = x.ar.w(e);
    let inst = &st.cur.f.blocks[st.cur.block as usize].insts[st.cur.ip as usize];
    let normal = match &inst.op {
        Op::Call(_, _, _, _, nm) => *nm,
        _ => None,
    };
    let first = x.ar.eval(e, &st.model);
    let mut pc = st.pc.clone();
    let mut last = first;
    let mut others = vec![];
    loop {
        let k = x.ar.c(w, last);
        let eq = x.ar.cmp(C::Eq, e, k);
        if x.ar.cst(eq).is_some() {
            break;
        }
        let ne = x.ar.not(eq);
        match x.z.query(&mut x.ar, &pc, ne) {
            Ans::Sat(vals) => {
                pc.push(ne);
                let mut m = st.model.clone();
                for &(i, b) in vals.iter() {
                    m[i as usize] = b;
                }
                x.ar.new_epoch();
                last = x.ar.eval(e, &m);
                others.push((last, m));
                if others.len() > 70000 {
                    x.error("too many values to fork on".into());
                    break;
                }
            }
            Ans::Unsat => break,
            Ans::Unknown => {
                x.error(format!("solver gave up at {}", x.place(st)));
                break;
            }
        }
    }
    for (v, m) in others.into_iter().rev() {
        let mut ch = st.clone();
        let k = x.ar.c(w, v);
        let eq = x.ar.cmp(C::Eq, e, k);
        ch.pc.push(eq);
        ch.model = m;
        ch.forks += 1;
        ch.cur.regs[inst.dst as usize] = Val::I(v as u64);
        match normal {
            Some(b) => x.enter(&mut ch, b),
            None => ch.cur.ip += 1,
        }
        x.t.forks += 1;
        x.work.push(ch);
    }
    x.ar.new_epoch();
    let k = x.ar.c(w, first);
    let eq = x.ar.cmp(C::Eq, e, k);
    if x.ar.cst(eq).is_none() {
        st.pc.push(eq);
        st.forks += 1;
    }
    x.t.max_pc = x.t.max_pc.max(st.pc.len());
    Ok(Val::I(first as u64))
}
fn m_sched(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let n = x.concretize(st, &a[0]);
    if n < 2 {
        return Ok(Val::I(0));
    }
    // every choice, each on its own path; the choice is recorded as a symbol
    let i = st.model.len() as u32;
    st.model.push(0);
    let s = x.ar.sym(i);
    let f = st.cur.f;
    let inst = &f.blocks[st.cur.block as usize].insts[st.cur.ip as usize];
    let _ = s;
    let normal = match &inst.op {
        Op::Call(_, _, _, _, nm) => *nm,
        _ => None,
    };
    for k in (1..n).rev() {
        let mut ch = st.clone();
        ch.model[i as usize] = k as u8;
        ch.cur.regs[inst.dst as usize] = Val::I(k);
        ch.forks += 1;
        match normal {
            Some(b) => x.enter(&mut ch, b),
            None => ch.cur.ip += 1,
        }
        x.t.forks += 1;
        x.work.push(ch);
    }
    Ok(Val::I(0))
}
fn m_param(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let i = x.concretize(st, &a[0]) as usize;
    Ok(Val::I(x.o.params.get(i).copied().unwrap_or(0)))
}
fn m_malloc(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let n = x.concretize(st, &a[0]);
    Ok(Val::I(x.alloc(st, n, true)?))
}
fn m_ralloc_zeroed(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    m_malloc(x, st, a)
}
fn m_calloc(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let n = x.concretize(st, &a[0]);
    let m = x.concretize(st, &a[1]);
    Ok(Val::I(x.alloc(st, n * m, true)?))
}
fn realloc(x: &mut Ex, st: &mut State, p: u64, n: u64) -> R<Val> {
    if p == 0 {
        return Ok(Val::I(x.alloc(st, n, true)?));
    }
    let old = match x.resolve(st, &Val::I(p), 0)? {
        Loc::Conc(false, id, 0) => st.heap.get(id).unwrap().size,
        _ => return Err(End::Violation("realloc of something that is not an allocation".into())),
    };
    let q = x.alloc(st, n, true)?;
    x.memcpy(st, &Val::I(q), &Val::I(p), &Val::I(old.min(n)))?;
    x.free(st, p)?;
    Ok(Val::I(q))
}
fn m_realloc(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let p = x.concretize(st, &a[0]);
    let n = x.concretize(st, &a[1]);
    realloc(x, st, p, n)
}
fn m_rrealloc(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let p = x.concretize(st, &a[0]);
    let n = x.concretize(st, &a[3]);
    realloc(x, st, p, n)
}
fn m_free(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let p = x.concretize(st, &a[0]);
    x.free(st, p)?;
    Ok(Val::I(0))
}
fn m_memalign(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let n = x.concretize(st, &a[2]);
    let p = x.alloc(st, n, true)?;
    x.store(st, &a[0], &Ty::Int(64), &Val::I(p))?;
    Ok(Val::I(0))
}
fn m_memcpy(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    x.memcpy(st, &a[0], &a[1], &a[2])?;
    Ok(a[0].clone())
}
fn m_memset(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let v = match &a[1] {
        Val::I(k) => Val::I(k & 255),
        Val::E(e) => {
            let b = x.ar.extract(0, 8, *e);
            x.v(b)
        }
        _ => unreachable!(),
    };
    x.memset(st, &a[0], &v, &a[2])?;
    Ok(a[0].clone())
}
fn m_bcmp(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    x.memcmp(st, &a[0], &a[1], &a[2], false)
}
fn m_memcmp(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    x.memcmp(st, &a[0], &a[1], &a[2], true)
}
fn m_strlen(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let p = x.concretize(st, &a[0]);
    let mut n = 0;
    loop {
        let b = x.load(st, &Val::I(p + n), &Ty::Int(8))?;
        if x.concretize(st, &b) == 0 {
            return Ok(Val::I(n));
        }
        n += 1;
    }
}
fn m_zero(_: &mut Ex, _: &mut State, _: &[Val]) -> R<Val> {
    Ok(Val::I(0))
}
fn m_one(_: &mut Ex, _: &mut State, _: &[Val]) -> R<Val> {
    Ok(Val::I(1))
}
fn m_null(_: &mut Ex, _: &mut State, _: &[Val]) -> R<Val> {
    Ok(Val::I(0))
}
fn m_write(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let n = x.concretize(st, &a[2]);
    Ok(Val::I(n))
}
fn m_errno(x: &mut Ex, st: &mut State, _: &[Val]) -> R<Val> {
    let p = x.alloc(st, 8, true)?;
    Ok(Val::I(p))
}
fn m_clock(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    // time passes with every instruction
    x.store(st, &a[1], &Ty::Int(64), &Val::I(1_700_000_000 + st.steps / 1_000_000_000))?;
    let p = x.concretize(st, &a[1]);
    x.store(st, &Val::I(p + 8), &Ty::Int(64), &Val::I(st.steps % 1_000_000_000))?;
    Ok(Val::I(0))
}
fn m_syscall(x: &mut Ex, st: &mut State, a: &[Val]) -> R<Val> {
    let n = x.concretize(st, &a[0]);
    match n {
        202 => Ok(Val::I(0)), // futex
        318 => {
            // getrandom: fixed bytes
            let len = x.concretize(st, &a[2]);
            x.memset(st, &a[1], &Val::I(7), &Val::I(len))?;
            Ok(Val::I(len))
        }
        _ => Err(End::Error(format!("system call {}", n))),
    }
}
fn m_keys(_: &mut Ex, _: &mut State, _: &[Val]) -> R<Val> {
    Ok(Val::A(vec![Val::I(0x0123456789abcdef), Val::I(0x0fedcba987654321)].into()))
}
fn m_abort(x: &mut Ex, st: &mut State, _: &[Val]) -> R<Val> {
    Err(End::Violation(format!("abort ({})", x.place(st))))
}
fn m_panic(_: &mut Ex, _: &mut State, _: &[Val]) -> R<Val> {
    Err(End::Violation("panic".into()))
}

