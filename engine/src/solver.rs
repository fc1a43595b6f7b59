//! Satisfiability queries: slicing, caching, translation to Z3.
use crate::expr::*;
use crate::z3::*;
use std::ffi::CString;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Ans {
    Unsat,
    /// Values for the symbols of the slice.
    Sat(std::rc::Rc<Vec<(u32, u8)>>),
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub cached: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub hard: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Z {
    ctx1: crate::ctx::Ctx1,
    ctx: Ctx,
    quick: Solver,
    strong: Solver,
    bv: FxMap<Eid, Ast>,
    bo: FxMap<Eid, Ast>,
    sorts: FxMap<u32, Sort>,
    pub cache: FxMap<Box<[Eid]>, Ans>,
    pub stats: Stats,
    pub rlimit_quick: u32,
    pub rlimit_strong: u32,
}

extern "C" fn on_error(c: Ctx, e: u32) {
    unsafe {
        let m = Z3_get_error_msg(c, e);
        let s = std::ffi::CStr::from_ptr(m).to_string_lossy().to_string();
        eprintln!("z3 error: {}", s);
        std::process::exit(9);
    }
}

impl Z {
    pub fn new() -> Z {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let rlimit_quick = 2_000_000;
            let rlimit_strong = 400_000_000;
            let quick = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, quick);
            let l = CString::new("QF_BV").unwrap();
            let strong = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, strong);
            for (s, lim) in [(quick, rlimit_quick), (strong, rlimit_strong)] {
                let p = Z3_mk_params(ctx);
                Z3_params_inc_ref(ctx, p);
                let k = CString::new("rlimit").unwrap();
                Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), lim);
                Z3_solver_set_params(ctx, s, p);
            }
            Z {
                ctx1: crate::ctx::Ctx1::new(),
                ctx,
                quick,
                strong,
                bv: Default::default(),
                bo: Default::default(),
                sorts: Default::default(),
                cache: Default::default(),
                stats: Default::default(),
                rlimit_quick,
                rlimit_strong,
            }
        }
    }

    fn sort(&mut self, w: u32) -> Sort {
        let c = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }

    fn num(&mut self, w: u32, v: u128) -> Ast {
        let s = self.sort(w);
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }

    fn have(&self, e: Eid, boolean: bool) -> bool {
        if boolean {
            self.bo.contains_key(&e)
        } else {
            self.bv.contains_key(&e)
        }
    }

    /// Translates with an explicit stack; (node, as boolean).
    fn tr(&mut self, ar: &Arena, e: Eid, boolean: bool) -> Ast {
        let mut st = vec![(e, boolean)];
        while let Some(&(x, b)) = st.last() {
            if self.have(x, b) {
                st.pop();
                continue;
            }
            let c = self.ctx;
            let w = ar.w(x);
            let kidbool = w == 1;
            // what is needed
            let mut needs: Vec<(Eid, bool)> = vec![];
            if b {
                match ar.n(x) {
                    N::Const(_) | N::Sym(_) => {}
                    N::Cmp(_, p, q) => {
                        let kb = ar.w(p) == 1;
                        needs.push((p, kb));
                        needs.push((q, kb));
                    }
                    N::Bin(op, p, q) if matches!(op, B::And | B::Or | B::Xor) => {
                        needs.push((p, true));
                        needs.push((q, true));
                    }
                    N::Ite(i, p, q) => {
                        needs.push((i, true));
                        needs.push((p, true));
                        needs.push((q, true));
                    }
                    _ => needs.push((x, false)),
                }
            } else if kidbool && matches!(ar.n(x), N::Cmp(..) | N::Ite(..) | N::Bin(B::And | B::Or | B::Xor, ..)) {
                needs.push((x, true));
            } else {
                match ar.n(x) {
                    N::Const(_) | N::Sym(_) => {}
                    N::Bin(_, p, q) | N::Concat(p, q) => {
                        needs.push((p, false));
                        needs.push((q, false));
                    }
                    N::Ite(i, p, q) => {
                        needs.push((i, true));
                        needs.push((p, false));
                        needs.push((q, false));
                    }
                    N::Extract(_, p) | N::Zext(p) | N::Sext(p) => needs.push((p, false)),
                    N::Cmp(..) => unreachable!(),
                }
            }
            let mut missing = false;
            for &(k, kb) in &needs {
                if !self.have(k, kb) {
                    st.push((k, kb));
                    missing = true;
                }
            }
            if missing {
                continue;
            }
            let g = |s: &Self, i: usize| {
                let (k, kb) = needs[i];
                if kb {
                    s.bo[&k]
                } else {
                    s.bv[&k]
                }
            };
            let a = unsafe {
                if b {
                    match ar.n(x) {
                        N::Const(v) => {
                            if v == 1 {
                                Z3_mk_true(c)
                            } else {
                                Z3_mk_false(c)
                            }
                        }
                        N::Cmp(op, _, _) => {
                            let (p, q) = (g(self, 0), g(self, 1));
                            match op {
                                C::Eq => Z3_mk_eq(c, p, q),
                                C::Ult => Z3_mk_bvult(c, p, q),
                                C::Ule => Z3_mk_bvule(c, p, q),
                                C::Slt => Z3_mk_bvslt(c, p, q),
                                C::Sle => Z3_mk_bvsle(c, p, q),
                            }
                        }
                        N::Bin(op, _, q) if matches!(op, B::And | B::Or | B::Xor) => {
                            let (p, r) = (g(self, 0), g(self, 1));
                            match op {
                                B::And => Z3_mk_and(c, 2, [p, r].as_ptr()),
                                B::Or => Z3_mk_or(c, 2, [p, r].as_ptr()),
                                _ => {
                                    if ar.cst(q) == Some(1) {
                                        Z3_mk_not(c, p)
                                    } else {
                                        Z3_mk_xor(c, p, r)
                                    }
                                }
                            }
                        }
                        N::Ite(..) => Z3_mk_ite(c, g(self, 0), g(self, 1), g(self, 2)),
                        _ => {
                            let p = g(self, 0);
                            let one = self.num(1, 1);
                            Z3_mk_eq(c, p, one)
                        }
                    }
                } else if kidbool && matches!(ar.n(x), N::Cmp(..) | N::Ite(..) | N::Bin(B::And | B::Or | B::Xor, ..)) {
                    let p = g(self, 0);
                    let one = self.num(1, 1);
                    let zero = self.num(1, 0);
                    Z3_mk_ite(c, p, one, zero)
                } else {
                    match ar.n(x) {
                        N::Const(v) => self.num(w, v),
                        N::Sym(i) => {
                            let s = self.sort(8);
                            Z3_mk_const(c, Z3_mk_int_symbol(c, i as i32), s)
                        }
                        N::Bin(op, _, _) => {
                            let (p, q) = (g(self, 0), g(self, 1));
                            match op {
                                B::Add => Z3_mk_bvadd(c, p, q),
                                B::Sub => Z3_mk_bvsub(c, p, q),
                                B::Mul => Z3_mk_bvmul(c, p, q),
                                B::UDiv => Z3_mk_bvudiv(c, p, q),
                                B::SDiv => Z3_mk_bvsdiv(c, p, q),
                                B::URem => Z3_mk_bvurem(c, p, q),
                                B::SRem => Z3_mk_bvsrem(c, p, q),
                                B::And => Z3_mk_bvand(c, p, q),
                                B::Or => Z3_mk_bvor(c, p, q),
                                B::Xor => Z3_mk_bvxor(c, p, q),
                                B::Shl => Z3_mk_bvshl(c, p, q),
                                B::LShr => Z3_mk_bvlshr(c, p, q),
                                B::AShr => Z3_mk_bvashr(c, p, q),
                            }
                        }
                        N::Concat(..) => Z3_mk_concat(c, g(self, 0), g(self, 1)),
                        N::Ite(..) => Z3_mk_ite(c, g(self, 0), g(self, 1), g(self, 2)),
                        N::Extract(lo, _) => Z3_mk_extract(c, lo + w - 1, lo, g(self, 0)),
                        N::Zext(p) => Z3_mk_zero_ext(c, w - ar.w(p), g(self, 0)),
                        N::Sext(p) => Z3_mk_sign_ext(c, w - ar.w(p), g(self, 0)),
                        N::Cmp(..) => unreachable!(),
                    }
                }
            };
            if b {
                self.bo.insert(x, a);
            } else {
                self.bv.insert(x, a);
            }
            st.pop();
        }
        if boolean {
            self.bo[&e]
        } else {
            self.bv[&e]
        }
    }

    /// `e` simplified by the constraints about the symbols in it.
    pub fn under(&mut self, ar: &mut Arena, pc: &[Eid], e: Eid) -> Eid {
        let s = ar.support(e);
        if s.len() > 64 {
            return e;
        }
        let key: Vec<Eid> = pc.iter().copied().filter(|&p| intersects(&ar.support(p), &s)).collect();
        if key.is_empty() {
            return e;
        }
        self.ctx1.simplify(ar, &key, e)
    }

    /// Is `pc` (already satisfiable) still satisfiable together with `q`?
    pub fn query(&mut self, ar: &mut Arena, pc: &[Eid], q: Eid) -> Ans {
        match ar.cst(q) {
            Some(0) => return Ans::Unsat,
            Some(_) => return Ans::Sat(std::rc::Rc::new(vec![])),
            None => {}
        }
        // slice: the constraints connected to q
        let mut want = ar.support(q);
        let mut left: Vec<(Eid, Supp)> = pc.iter().map(|&e| (e, ar.support(e))).collect();
        let mut sel: Vec<Eid> = vec![q];
        loop {
            let mut changed = false;
            let mut rest = Vec::with_capacity(left.len());
            for (e, s) in left {
                if intersects(&s, &want) {
                    sel.push(e);
                    let u = union(&want, &s);
                    if u.len() != want.len() {
                        changed = true;
                        want = u;
                    }
                } else {
                    rest.push((e, s));
                }
            }
            left = rest;
            if !changed {
                break;
            }
        }
        sel.sort_unstable();
        sel.dedup();
        let key: Box<[Eid]> = sel.into_boxed_slice();
        self.stats.queries += 1;
        if let Some(a) = self.cache.get(&key) {
            self.stats.cached += 1;
            return a.clone();
        }
        let t = Instant::now();
        let q2 = self.ctx1.simplify(ar, &key, q);
        if ar.cst(q2) == Some(0) {
            self.stats.unsat += 1;
            self.stats.time_us += t.elapsed().as_micros() as u64;
            self.cache.insert(key, Ans::Unsat);
            return Ans::Unsat;
        }
        let asts: Vec<Ast> = key.iter().map(|&e| self.tr(ar, if e == q { q2 } else { e }, true)).collect();
        let c = self.ctx;
        let mut ans = Ans::Unknown;
        for s in [self.quick, self.strong] {
            unsafe {
                Z3_solver_push(c, s);
                for &a in &asts {
                    Z3_solver_assert(c, s, a);
                }
                let r = Z3_solver_check(c, s);
                if r == 1 {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut vals = Vec::with_capacity(want.len());
                    for &i in want.iter() {
                        let e = ar.sym(i);
                        let a = self.tr(ar, e, false);
                        let mut out: Ast = std::ptr::null_mut();
                        Z3_model_eval(c, m, a, true, &mut out);
                        let mut v = 0u64;
                        Z3_get_numeral_uint64(c, out, &mut v);
                        vals.push((i, v as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    ans = Ans::Sat(std::rc::Rc::new(vals));
                } else if r == -1 {
                    ans = Ans::Unsat;
                }
                Z3_solver_pop(c, s, 1);
            }
            if !matches!(ans, Ans::Unknown) {
                break;
            }
            self.stats.hard += 1;
        }
        let us = t.elapsed().as_micros() as u64;
        self.stats.time_us += us;
        if us > 50_000 && std::env::var("SYMIR_SLOW").map_or(false, |v| us > v.parse().unwrap_or(2_000_000)) {
            eprintln!("slow query {} s {:?}", us as f64 / 1e6, std::mem::discriminant(&ans));
            eprintln!("   q {}", ar.show(q2, 12));
            for &e in key.iter() {
                eprintln!("   {}", ar.show(e, 7));
            }
        }
        self.stats.max_us = self.stats.max_us.max(us);
        match ans {
            Ans::Sat(_) => self.stats.sat += 1,
            Ans::Unsat => self.stats.unsat += 1,
            Ans::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(key, ans.clone());
        ans
    }
}

fn intersects(a: &Supp, b: &Supp) -> bool {
    if a.is_empty() || b.is_empty() || a[a.len() - 1] < b[0] || b[b.len() - 1] < a[0] {
        return false;
    }
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            i += 1;
        } else if a[i] > b[j] {
            j += 1;
        } else {
            return true;
        }
    }
    false
}
