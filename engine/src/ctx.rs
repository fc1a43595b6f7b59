//! Simplification of a query under the constraints it is asked with.
use crate::expr::*;

pub type Dom = [u64; 4];

pub struct Ctx1 {
    /// Values of the only symbol for which a one-bit expression holds.
    bits: FxMap<Eid, Option<Dom>>,
}

impl Ctx1 {
    pub fn new() -> Self {
        Ctx1 { bits: Default::default() }
    }

    fn ev(ar: &Arena, e: Eid, v: u128, budget: &mut u32) -> Option<u128> {
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let w = ar.w(e);
        Some(match ar.n(e) {
            N::Const(c) => c,
            N::Sym(_) => v,
            N::Bin(op, a, b) => fold_bin(op, w, Self::ev(ar, a, v, budget)?, Self::ev(ar, b, v, budget)?),
            N::Cmp(op, a, b) => fold_cmp(op, ar.w(a), Self::ev(ar, a, v, budget)?, Self::ev(ar, b, v, budget)?) as u128,
            N::Ite(c, a, b) => {
                if Self::ev(ar, c, v, budget)? == 1 {
                    Self::ev(ar, a, v, budget)?
                } else {
                    Self::ev(ar, b, v, budget)?
                }
            }
            N::Extract(lo, a) => (Self::ev(ar, a, v, budget)? >> lo) & mask(w),
            N::Zext(a) => Self::ev(ar, a, v, budget)?,
            N::Sext(a) => sext128(Self::ev(ar, a, v, budget)?, ar.w(a)) as u128 & mask(w),
            N::Concat(h, l) => (Self::ev(ar, h, v, budget)? << ar.w(l)) | Self::ev(ar, l, v, budget)?,
        })
    }

    fn dom(&mut self, ar: &Arena, e: Eid) -> Option<Dom> {
        if let Some(d) = self.bits.get(&e) {
            return *d;
        }
        let mut d = [0u64; 4];
        let mut ok = true;
        for v in 0..256u32 {
            let mut b = 120;
            match Self::ev(ar, e, v as u128, &mut b) {
                Some(1) => d[(v / 64) as usize] |= 1 << (v % 64),
                Some(_) => {}
                None => {
                    ok = false;
                    break;
                }
            }
        }
        let r = if ok { Some(d) } else { None };
        self.bits.insert(e, r);
        r
    }

    /// `q` rewritten, equal to it wherever all of `pc` hold.
    pub fn simplify(&mut self, ar: &mut Arena, pc: &[Eid], q: Eid) -> Eid {
        let mut lit: FxMap<Eid, Eid> = Default::default();
        let mut doms: FxMap<u32, Dom> = Default::default();
        let (tt, ff) = (ar.tt(), ar.ff());
        for &p in pc {
            if p == q {
                continue;
            }
            lit.insert(p, tt);
            let n = ar.not(p);
            lit.insert(n, ff);
            let s = ar.support(p);
            if s.len() == 1 {
                if let Some(d) = self.dom(ar, p) {
                    let e = doms.entry(s[0]).or_insert([!0; 4]);
                    for i in 0..4 {
                        e[i] &= d[i];
                    }
                }
            }
        }
        let mut memo: FxMap<Eid, Eid> = Default::default();
        let mut n = 4000;
        self.go(ar, &lit, &doms, &mut memo, q, &mut n)
    }

    fn go(&mut self, ar: &mut Arena, lit: &FxMap<Eid, Eid>, doms: &FxMap<u32, Dom>, memo: &mut FxMap<Eid, Eid>, e: Eid, left: &mut u32) -> Eid {
        if let Some(&r) = lit.get(&e) {
            return r;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        if *left == 0 {
            return e;
        }
        *left -= 1;
        let w = ar.w(e);
        let node = ar.n(e);
        if matches!(node, N::Const(_)) {
            return e;
        }
        let s = ar.support(e);
        if s.len() == 1 {
            if let Some(d) = doms.get(&s[0]).copied() {
                if w == 1 {
                    if let Some(b) = self.dom(ar, e) {
                        if (0..4).all(|i| d[i] & !b[i] == 0) {
                            return ar.tt();
                        }
                        if (0..4).all(|i| d[i] & b[i] == 0) {
                            return ar.ff();
                        }
                    }
                } else if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                    let v = (0..4).find(|&i| d[i] != 0).map(|i| i as u32 * 64 + d[i].trailing_zeros()).unwrap();
                    let mut b = 400;
                    if let Some(x) = Self::ev(ar, e, v as u128, &mut b) {
                        return ar.c(w, x);
                    }
                }
            }
        }
        let r = match node {
            N::Const(_) | N::Sym(_) => e,
            N::Bin(op, a, b) => {
                let a = self.go(ar, lit, doms, memo, a, left);
                let b = self.go(ar, lit, doms, memo, b, left);
                ar.bin(op, a, b)
            }
            N::Cmp(op, a, b) => {
                let a = self.go(ar, lit, doms, memo, a, left);
                let b = self.go(ar, lit, doms, memo, b, left);
                ar.cmp(op, a, b)
            }
            N::Ite(c, a, b) => {
                let c = self.go(ar, lit, doms, memo, c, left);
                match ar.cst(c) {
                    Some(1) => self.go(ar, lit, doms, memo, a, left),
                    Some(_) => self.go(ar, lit, doms, memo, b, left),
                    None => {
                        let a = self.go(ar, lit, doms, memo, a, left);
                        let b = self.go(ar, lit, doms, memo, b, left);
                        ar.ite(c, a, b)
                    }
                }
            }
            N::Extract(lo, a) => {
                let a = self.go(ar, lit, doms, memo, a, left);
                ar.extract(lo, w, a)
            }
            N::Zext(a) => {
                let a = self.go(ar, lit, doms, memo, a, left);
                // zext(s + c) where s + c always, or never, overflows
                if let N::Bin(B::Add, x, k) = ar.n(a) {
                    if let (N::Sym(i), Some(c)) = (ar.n(x), ar.cst(k)) {
                        if let Some(d) = doms.get(&i) {
                            let over = |v: u32| v as u128 + c > 255;
                            let mut yes = false;
                            let mut no = false;
                            for v in 0..256u32 {
                                if d[(v / 64) as usize] >> (v % 64) & 1 == 1 {
                                    if over(v) {
                                        yes = true
                                    } else {
                                        no = true
                                    }
                                }
                            }
                            if yes != no {
                                let z = ar.zext(x, w);
                                let k = ar.c(w, if yes { c.wrapping_sub(256) & mask(w) } else { c });
                                let r = ar.bin(B::Add, z, k);
                                memo.insert(e, r);
                                return r;
                            }
                        }
                    }
                }
                ar.zext(a, w)
            }
            N::Sext(a) => {
                let a = self.go(ar, lit, doms, memo, a, left);
                ar.sext(a, w)
            }
            N::Concat(h, l) => {
                let h = self.go(ar, lit, doms, memo, h, left);
                let l = self.go(ar, lit, doms, memo, l, left);
                ar.concat(h, l)
            }
        };
        memo.insert(e, r);
        r
    }
}
