//! Hash-consed bit-vector expressions with constant folding and simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type Eid = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Sym(u32),
    Bin(B, Eid, Eid),
    Cmp(C, Eid, Eid),
    Ite(Eid, Eid, Eid),
    Extract(u32, Eid), // low bit; width is the node's
    Zext(Eid),
    Sext(Eid),
    Concat(Eid, Eid), // high, low
}

pub type Supp = Rc<Vec<u32>>;

pub struct Arena {
    pub nodes: Vec<N>,
    pub width: Vec<u32>,
    pub umin: Vec<u64>,
    pub umax: Vec<u64>,
    pub supp: Vec<Option<Supp>>,
    map: FxMap<(N, u32), Eid>,
    // evaluation under the current model
    pub ev_epoch: Vec<u32>,
    pub ev_val: Vec<u128>,
    pub epoch: u32,
    empty: Supp,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn fold_bin(op: B, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        B::Add => a.wrapping_add(b),
        B::Sub => a.wrapping_sub(b),
        B::Mul => a.wrapping_mul(b),
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        B::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let x = sext128(a, w);
            (x >> (if b >= w as u128 { w.min(127) } else { b as u32 })) as u128
        }
    };
    r & m
}

pub fn fold_cmp(op: C, w: u32, a: u128, b: u128) -> bool {
    match op {
        C::Eq => a == b,
        C::Ult => a < b,
        C::Ule => a <= b,
        C::Slt => sext128(a, w) < sext128(b, w),
        C::Sle => sext128(a, w) <= sext128(b, w),
    }
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: vec![],
            width: vec![],
            umin: vec![],
            umax: vec![],
            supp: vec![],
            map: Default::default(),
            ev_epoch: vec![],
            ev_val: vec![],
            epoch: 1,
            empty: Rc::new(vec![]),
        }
    }
    #[inline]
    pub fn w(&self, e: Eid) -> u32 {
        self.width[e as usize]
    }
    #[inline]
    pub fn n(&self, e: Eid) -> N {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn cst(&self, e: Eid) -> Option<u128> {
        match self.nodes[e as usize] {
            N::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn is_const(&self, e: Eid) -> bool {
        matches!(self.nodes[e as usize], N::Const(_))
    }

    fn intern(&mut self, n: N, w: u32) -> Eid {
        if let Some(&e) = self.map.get(&(n, w)) {
            return e;
        }
        let id = self.nodes.len() as Eid;
        let (lo, hi) = self.range_of(n, w);
        self.nodes.push(n);
        self.width.push(w);
        self.umin.push(lo);
        self.umax.push(hi);
        self.supp.push(None);
        self.ev_epoch.push(0);
        self.ev_val.push(0);
        self.map.insert((n, w), id);
        id
    }

    fn range_of(&self, n: N, w: u32) -> (u64, u64) {
        let top = mask64(w);
        if w > 64 {
            return (0, u64::MAX);
        }
        let r = |e: Eid| (self.umin[e as usize], self.umax[e as usize]);
        match n {
            N::Const(c) => (c as u64, c as u64),
            N::Sym(_) => (0, top),
            N::Zext(a) => r(a),
            N::Ite(_, a, b) => {
                let (x, y) = (r(a), r(b));
                (x.0.min(y.0), x.1.max(y.1))
            }
            N::Concat(h, l) => {
                let lw = self.w(l);
                let (x, y) = (r(h), r(l));
                ((x.0 << lw) | y.0, (x.1 << lw) | y.1.min(mask64(lw)))
            }
            N::Extract(lo, a) => {
                if self.w(a) > 64 {
                    return (0, top);
                }
                let x = r(a);
                if lo == 0 {
                    if x.1 <= top {
                        x
                    } else {
                        (0, top)
                    }
                } else {
                    let (p, q) = (x.0 >> lo, x.1 >> lo);
                    if q <= top {
                        (p, q)
                    } else {
                        (0, top)
                    }
                }
            }
            N::Bin(op, a, b) => {
                let (x, y) = (r(a), r(b));
                match op {
                    B::Add => match (x.0.checked_add(y.0), x.1.checked_add(y.1)) {
                        (Some(p), Some(q)) if q <= top => (p, q),
                        _ => (0, top),
                    },
                    B::Sub => {
                        if x.0 >= y.1 {
                            (x.0 - y.1, x.1 - y.0)
                        } else {
                            (0, top)
                        }
                    }
                    B::Mul => match x.1.checked_mul(y.1) {
                        Some(q) if q <= top => (x.0 * y.0, q),
                        _ => (0, top),
                    },
                    B::And => (0, x.1.min(y.1)),
                    B::Or => {
                        let m = x.1 | y.1;
                        let hi = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() };
                        (x.0.max(y.0), hi.min(top))
                    }
                    B::Xor => {
                        let m = x.1 | y.1;
                        let hi = if m == 0 { 0 } else { u64::MAX >> m.leading_zeros() };
                        (0, hi.min(top))
                    }
                    B::LShr if y.0 == y.1 => {
                        if y.0 >= w as u64 {
                            (0, 0)
                        } else {
                            (x.0 >> y.0, x.1 >> y.0)
                        }
                    }
                    B::LShr => (0, x.1),
                    B::Shl if y.0 == y.1 && y.0 < w as u64 => {
                        if x.1.leading_zeros() as u64 >= y.0 && (x.1 << y.0) <= top {
                            (x.0 << y.0, x.1 << y.0)
                        } else {
                            (0, top)
                        }
                    }
                    B::UDiv if y.0 == y.1 && y.0 > 0 => (x.0 / y.0, x.1 / y.0),
                    B::URem if y.1 > 0 && y.0 > 0 => (0, x.1.min(y.1 - 1)),
                    _ => (0, top),
                }
            }
            _ => (0, top),
        }
    }

    pub fn c(&mut self, w: u32, v: u128) -> Eid {
        self.intern(N::Const(v & mask(w)), w)
    }
    pub fn sym(&mut self, i: u32) -> Eid {
        self.intern(N::Sym(i), 8)
    }
    pub fn tt(&mut self) -> Eid {
        self.c(1, 1)
    }
    pub fn ff(&mut self) -> Eid {
        self.c(1, 0)
    }

    pub fn not(&mut self, a: Eid) -> Eid {
        let w = self.w(a);
        if w == 1 {
            match self.n(a) {
                N::Const(c) => return self.c(1, 1 ^ c),
                N::Cmp(C::Ult, x, y) => return self.cmp(C::Ule, y, x),
                N::Cmp(C::Ule, x, y) => return self.cmp(C::Ult, y, x),
                N::Cmp(C::Slt, x, y) => return self.cmp(C::Sle, y, x),
                N::Cmp(C::Sle, x, y) => return self.cmp(C::Slt, y, x),
                _ => {}
            }
        }
        let m = self.c(w, mask(w));
        self.bin(B::Xor, a, m)
    }

    pub fn and1(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(B::And, a, b)
    }
    pub fn or1(&mut self, a: Eid, b: Eid) -> Eid {
        self.bin(B::Or, a, b)
    }

    pub fn bin(&mut self, op: B, mut a: Eid, mut b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c(w, fold_bin(op, w, x, y));
        }
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        if comm {
            // constants to the right, otherwise by id
            let (ca, cb) = (self.is_const(a), self.is_const(b));
            if (ca && !cb) || (ca == cb && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let m = mask(w);
        if op == B::Xor {
            if w == 1 && (matches!(self.n(a), N::Bin(B::Xor, ..)) || matches!(self.n(b), N::Bin(B::Xor, ..))) {
                return self.xor1(a, b);
            }
            if w > 1 && w <= 64 && (self.bitty(a) || self.bitty(b)) {
                let mut e = None;
                for i in 0..w {
                    let (x, y) = (self.extract(i, 1, a), self.extract(i, 1, b));
                    let z = self.bin(B::Xor, x, y);
                    e = Some(match e {
                        None => z,
                        Some(l) => self.concat(z, l),
                    });
                }
                return e.unwrap();
            }
        }
        if op == B::Mul && w <= 64 {
            // a single bit times a constant
            if let (N::Zext(x), Some(k)) = (self.n(a), self.cst(b)) {
                if self.w(x) == 1 && k.count_ones() > 1 {
                    let z = self.ff();
                    let mut e = None;
                    for i in 0..w {
                        let z = if (k >> i) & 1 == 1 { x } else { z };
                        e = Some(match e {
                            None => z,
                            Some(l) => self.concat(z, l),
                        });
                    }
                    return e.unwrap();
                }
            }
        }
        if let Some(k) = self.cst(b) {
            match op {
                B::Add if k == 0 => return a,
                B::Sub => {
                    let nk = self.c(w, k.wrapping_neg());
                    return self.bin(B::Add, a, nk);
                }
                B::Mul if k == 0 => return b,
                B::Mul if k == 1 => return a,
                B::Mul if k.is_power_of_two() => {
                    let s = self.c(w, k.trailing_zeros() as u128);
                    return self.bin(B::Shl, a, s);
                }
                B::UDiv if k == 1 => return a,
                B::UDiv if k.is_power_of_two() => {
                    let s = self.c(w, k.trailing_zeros() as u128);
                    return self.bin(B::LShr, a, s);
                }
                B::URem if k.is_power_of_two() => {
                    let s = self.c(w, k - 1);
                    return self.bin(B::And, a, s);
                }
                B::And if k == 0 => return b,
                B::And if k == m => return a,
                B::Or if k == 0 => return a,
                B::Or if k == m => return b,
                B::Xor if k == 0 => return a,
                B::Shl | B::LShr | B::AShr if k == 0 => return a,
                B::Shl | B::LShr if k >= w as u128 => return self.c(w, 0),
                B::Shl => {
                    // (x << k): concat(extract, zeros)
                    let k = k as u32;
                    let h = self.extract(0, w - k, a);
                    let z = self.c(k, 0);
                    return self.concat(h, z);
                }
                B::LShr => {
                    let k = k as u32;
                    let h = self.extract(k, w - k, a);
                    return self.zext(h, w);
                }
                B::AShr if k < w as u128 => {
                    let k = k as u32;
                    let h = self.extract(k, w - k, a);
                    return self.sext(h, w);
                }
                B::And => {
                    // low mask: zext(extract)
                    if (k & (k + 1)) == 0 {
                        let bits = 128 - k.leading_zeros();
                        if bits < w {
                            let x = self.extract(0, bits, a);
                            return self.zext(x, w);
                        }
                    }
                    // one contiguous run of bits: extract, reposition
                    let tz = k.trailing_zeros();
                    let run = k >> tz;
                    if (run & (run + 1)) == 0 {
                        let bits = 128 - run.leading_zeros();
                        let x = self.extract(tz, bits, a);
                        let z = self.c(tz, 0);
                        let y = self.concat(x, z);
                        return self.zext(y, w);
                    }
                }
                _ => {}
            }
            // (x op k1) op k2
            if matches!(op, B::Add | B::Xor | B::And | B::Or) {
                if let N::Bin(op2, x, y) = self.n(a) {
                    if op2 == op {
                        if let Some(k1) = self.cst(y) {
                            let kk = self.c(w, fold_bin(op, w, k1, k));
                            return self.bin(op, x, kk);
                        }
                    }
                }
            }
            // push into an ite with a constant arm
            if let N::Ite(c, x, y) = self.n(a) {
                if self.is_const(x) || self.is_const(y) {
                    let (p, q) = (self.bin(op, x, b), self.bin(op, y, b));
                    return self.ite(c, p, q);
                }
            }
            // zext(x) op k where k fits and the operation stays within x's width
            if let N::Zext(x) = self.n(a) {
                let xw = self.w(x);
                if matches!(op, B::And | B::Or | B::Xor) && k <= mask(xw) {
                    let kk = self.c(xw, k);
                    let r = self.bin(op, x, kk);
                    return self.zext(r, w);
                }
                if matches!(op, B::And) {
                    let kk = self.c(xw, k);
                    let r = self.bin(op, x, kk);
                    return self.zext(r, w);
                }
            }
        }
        if a == b {
            match op {
                B::And | B::Or => return a,
                B::Xor | B::Sub => return self.c(w, 0),
                _ => {}
            }
        }
        match op {
            B::Or | B::Xor | B::Add => {
                // disjoint pieces become a concat
                if let Some(r) = self.join_disjoint(a, b) {
                    return r;
                }
                if op == B::Or && w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.c(1, 1);
                    }
                }
            }
            B::And => {
                if w == 1 {
                    let na = self.not(a);
                    if na == b {
                        return self.c(1, 0);
                    }
                }
                if let (N::Zext(x), N::Zext(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        let r = self.bin(op, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            B::Sub => {
                // (x + y) - x
                if let N::Bin(B::Add, x, y) = self.n(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                }
            }
            _ => {}
        }
        if op == B::Or && w == 1 {
            if let (N::Bin(B::Xor, p, x), N::Bin(B::Xor, q, y)) = (self.n(a), self.n(b)) {
                if self.cst(x) == Some(1) && self.cst(y) == Some(1) {
                    let e = self.bin(B::And, p, q);
                    return self.not(e);
                }
            }
        }
        if op == B::Add && w > 1 {
            // sums in a normal form: sorted, the constant last
            let composite = |s: &Self, e: Eid| matches!(s.n(e), N::Bin(B::Add, ..));
            if composite(self, a) || (composite(self, b)) {
                let mut leaves = vec![];
                let mut k = 0u128;
                let mut st = vec![a, b];
                while let Some(x) = st.pop() {
                    match self.n(x) {
                        N::Bin(B::Add, p, q) if leaves.len() < 200 => {
                            st.push(p);
                            st.push(q);
                        }
                        N::Const(c) => k = k.wrapping_add(c) & m,
                        _ => leaves.push(x),
                    }
                }
                leaves.sort_unstable();
                let mut e = leaves[0];
                for &x in &leaves[1..] {
                    e = self.intern(N::Bin(B::Add, e, x), w);
                }
                if k != 0 {
                    let kk = self.c(w, k);
                    e = self.intern(N::Bin(B::Add, e, kk), w);
                }
                return e;
            }
        }
        if matches!(op, B::Or | B::Xor) {
            if let (N::Zext(x), N::Zext(y)) = (self.n(a), self.n(b)) {
                if self.w(x) == self.w(y) {
                    let r = self.bin(op, x, y);
                    return self.zext(r, w);
                }
            }
        }
        if matches!(op, B::And | B::Or | B::Xor) {
            // piecewise on equally split concats
            if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.n(a), self.n(b)) {
                if self.w(l1) == self.w(l2) {
                    let h = self.bin(op, h1, h2);
                    let l = self.bin(op, l1, l2);
                    return self.concat(h, l);
                }
            }
            if op == B::Xor {
                // x ^ (x ^ y)
                if let N::Bin(B::Xor, p, q) = self.n(b) {
                    if p == a {
                        return q;
                    }
                    if q == a {
                        return p;
                    }
                }
                if let N::Bin(B::Xor, p, q) = self.n(a) {
                    if p == b {
                        return q;
                    }
                    if q == b {
                        return p;
                    }
                }
            }
        }
        self.intern(N::Bin(op, a, b), w)
    }

    /// Contains a single computed bit between other pieces.
    pub fn bitty(&self, e: Eid) -> bool {
        let mut e = e;
        if let N::Zext(x) = self.n(e) {
            e = x;
        }
        while let N::Concat(h, l) = self.n(e) {
            if self.w(h) == 1 && !self.is_const(h) {
                return true;
            }
            if self.w(l) == 1 && !self.is_const(l) {
                return true;
            }
            e = l;
        }
        false
    }

    /// Exclusive or of single bits: sorted, equal ones cancelled.
    fn xor1(&mut self, a: Eid, b: Eid) -> Eid {
        let mut leaves = vec![];
        let mut odd = false;
        let mut st = vec![a, b];
        while let Some(x) = st.pop() {
            if leaves.len() > 400 {
                return self.intern(N::Bin(B::Xor, a, b), 1);
            }
            match self.n(x) {
                N::Bin(B::Xor, p, q) => {
                    st.push(p);
                    st.push(q);
                }
                N::Const(c) => odd ^= c == 1,
                _ => leaves.push(x),
            }
        }
        leaves.sort_unstable();
        let mut kept: Vec<Eid> = vec![];
        for x in leaves {
            if kept.last() == Some(&x) {
                kept.pop();
            } else {
                kept.push(x);
            }
        }
        let mut it = kept.into_iter();
        let mut e = match it.next() {
            None => return self.c(1, odd as u128),
            Some(x) => x,
        };
        for x in it {
            e = self.intern(N::Bin(B::Xor, e, x), 1);
        }
        if odd && matches!(self.n(e), N::Bin(B::Xor, ..)) {
            let one = self.tt();
            self.intern(N::Bin(B::Xor, e, one), 1)
        } else if odd {
            self.not(e)
        } else {
            e
        }
    }

    /// a|b where one has zeros exactly where the other has bits (concat/zext shapes).
    fn join_disjoint(&mut self, a: Eid, b: Eid) -> Option<Eid> {
        let w = self.w(a);
        for (x, y) in [(a, b), (b, a)] {
            // x = concat(h, 0_k), y = zext(l) with width(l) <= k
            if let N::Concat(h, z) = self.n(x) {
                if self.cst(z) == Some(0) {
                    let k = self.w(z);
                    let y_ok = match self.n(y) {
                        N::Zext(l) => self.w(l) <= k,
                        N::Const(c) => c <= mask(k),
                        _ => false,
                    };
                    if y_ok {
                        let l = self.extract(0, k, y);
                        let r = self.concat(h, l);
                        debug_assert_eq!(self.w(r), w);
                        return Some(r);
                    }
                }
            }
            // x = zext(concat(h,0_k)) , y = zext(l) with l <= k
            if let N::Zext(xx) = self.n(x) {
                if let N::Concat(_, z) = self.n(xx) {
                    if self.cst(z) == Some(0) {
                        let k = self.w(z);
                        let y_ok = match self.n(y) {
                            N::Zext(l) => self.w(l) <= k,
                            N::Const(c) => c <= mask(k),
                            _ => false,
                        };
                        if y_ok {
                            let xw = self.w(xx);
                            let yy = self.extract(0, xw, y);
                            let r = self.join_disjoint(xx, yy)?;
                            return Some(self.zext(r, w));
                        }
                    }
                }
            }
        }
        None
    }

    pub fn cmp(&mut self, op: C, a: Eid, b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.c(1, fold_cmp(op, w, x, y) as u128);
        }
        if a == b {
            return self.c(1, matches!(op, C::Eq | C::Ule | C::Sle) as u128);
        }
        if w <= 64 {
            let (al, ah) = (self.umin[a as usize], self.umax[a as usize]);
            let (bl, bh) = (self.umin[b as usize], self.umax[b as usize]);
            match op {
                C::Eq if ah < bl || bh < al => return self.c(1, 0),
                C::Ult if ah < bl => return self.c(1, 1),
                C::Ult if al >= bh => return self.c(1, 0),
                C::Ule if ah <= bl => return self.c(1, 1),
                C::Ule if al > bh => return self.c(1, 0),
                C::Slt | C::Sle => {
                    // both non-negative: unsigned
                    let half = 1u64 << (w - 1);
                    if ah < half && bh < half {
                        return self.cmp(if op == C::Slt { C::Ult } else { C::Ule }, a, b);
                    }
                }
                _ => {}
            }
        }
        match op {
            C::Eq => {
                let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
                for (x, y) in [(a, b), (b, a)] {
                    if let N::Bin(B::Sub, z, q) = self.n(y) {
                        if self.cst(z) == Some(0) && !self.is_const(x) {
                            let s = self.bin(B::Add, x, q);
                            return self.cmp(C::Eq, s, z);
                        }
                    }
                }
                if w == 1 {
                    if let Some(k) = self.cst(b) {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    let x = self.bin(B::Xor, a, b);
                    return self.not(x);
                }
                if let Some(k) = self.cst(b) {
                    match self.n(a) {
                        N::Zext(x) => {
                            let xw = self.w(x);
                            if k > mask(xw) {
                                return self.c(1, 0);
                            }
                            let kk = self.c(xw, k);
                            return self.cmp(C::Eq, x, kk);
                        }
                        N::Sext(x) => {
                            let xw = self.w(x);
                            let kk = self.c(xw, k);
                            let back = sext128(k & mask(xw), xw) as u128 & mask(w);
                            if back != k {
                                return self.c(1, 0);
                            }
                            return self.cmp(C::Eq, x, kk);
                        }
                        N::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            let kh = self.c(hw, k >> lw);
                            let kl = self.c(lw, k);
                            let p = self.cmp(C::Eq, h, kh);
                            if self.cst(p) == Some(0) {
                                return p;
                            }
                            let q = self.cmp(C::Eq, l, kl);
                            return self.bin(B::And, p, q);
                        }
                        N::Bin(B::Add, x, y) => {
                            if let Some(k1) = self.cst(y) {
                                let kk = self.c(w, k.wrapping_sub(k1));
                                return self.cmp(C::Eq, x, kk);
                            }
                        }
                        N::Bin(B::Xor, x, y) => {
                            if let Some(k1) = self.cst(y) {
                                let kk = self.c(w, k ^ k1);
                                return self.cmp(C::Eq, x, kk);
                            }
                            if k == 0 {
                                return self.cmp(C::Eq, x, y);
                            }
                        }
                        N::Bin(B::Sub, x, y) => {
                            if k == 0 {
                                return self.cmp(C::Eq, x, y);
                            }
                        }
                        N::Ite(c, x, y) => {
                            if self.cheap_const_ite(a, 0) {
                                let p = self.cmp(C::Eq, x, b);
                                let q = self.cmp(C::Eq, y, b);
                                return self.ite(c, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if let (N::Zext(x), N::Zext(y)) = (self.n(a), self.n(b)) {
                        if self.w(x) == self.w(y) {
                            return self.cmp(C::Eq, x, y);
                        }
                    }
                    if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.n(a), self.n(b)) {
                        if self.w(l1) == self.w(l2) {
                            let p = self.cmp(C::Eq, h1, h2);
                            let q = self.cmp(C::Eq, l1, l2);
                            return self.bin(B::And, p, q);
                        }
                    }
                }
                self.intern(N::Cmp(C::Eq, a, b), 1)
            }
            C::Ult | C::Ule => {
                // normal forms against constants
                if let Some(k) = self.cst(b) {
                    if op == C::Ule {
                        if k == mask(w) {
                            return self.c(1, 1);
                        }
                        let kk = self.c(w, k + 1);
                        return self.cmp(C::Ult, a, kk);
                    }
                    if k == 1 {
                        let z = self.c(w, 0);
                        return self.cmp(C::Eq, a, z);
                    }
                    if let N::Zext(x) = self.n(a) {
                        let xw = self.w(x);
                        if k > mask(xw) {
                            return self.c(1, 1);
                        }
                        let kk = self.c(xw, k);
                        return self.cmp(C::Ult, x, kk);
                    }
                    if let N::Ite(c, x, y) = self.n(a) {
                        if self.cheap_const_ite(a, 0) {
                            let p = self.cmp(op, x, b);
                            let q = self.cmp(op, y, b);
                            return self.ite(c, p, q);
                        }
                    }
                }
                if let Some(k) = self.cst(a) {
                    if op == C::Ult {
                        // k < b  <=>  not (b < k+1)
                        if k == mask(w) {
                            return self.c(1, 0);
                        }
                        let kk = self.c(w, k + 1);
                        let r = self.cmp_raw_ult(b, kk);
                        return self.not_raw(r);
                    }
                    // k <= b <=> not (b < k)
                    if k == 0 {
                        return self.c(1, 1);
                    }
                    let kk = self.c(w, k);
                    let r = self.cmp_raw_ult(b, kk);
                    return self.not_raw(r);
                }
                if let (N::Zext(x), N::Zext(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        return self.cmp(op, x, y);
                    }
                }
                if op == C::Ule {
                    // a <= b  <=> not (b < a)
                    let r = self.intern(N::Cmp(C::Ult, b, a), 1);
                    return self.not_raw(r);
                }
                self.intern(N::Cmp(op, a, b), 1)
            }
            C::Slt | C::Sle => {
                if op == C::Sle {
                    let r = self.cmp(C::Slt, b, a);
                    return self.not_raw(r);
                }
                if let Some(k) = self.cst(b) {
                    if k == 0 {
                        // sign bit
                        return self.extract(w - 1, 1, a);
                    }
                    if let N::Ite(c, x, y) = self.n(a) {
                        if self.cheap_const_ite(a, 0) {
                            let p = self.cmp(op, x, b);
                            let q = self.cmp(op, y, b);
                            return self.ite(c, p, q);
                        }
                    }
                    if let N::Sext(x) = self.n(a) {
                        let xw = self.w(x);
                        let back = sext128(k & mask(xw), xw) as u128 & mask(w);
                        if back == k {
                            let kk = self.c(xw, k);
                            return self.cmp(op, x, kk);
                        }
                    }
                }
                if let Some(k) = self.cst(a) {
                    if let N::Ite(c, x, y) = self.n(b) {
                        if self.cheap_const_ite(b, 0) {
                            let p = self.cmp(op, a, x);
                            let q = self.cmp(op, a, y);
                            return self.ite(c, p, q);
                        }
                    }
                    if sext128(k, w) == -1 {
                        let s = self.extract(w - 1, 1, b);
                        return self.not(s);
                    }
                }
                self.intern(N::Cmp(op, a, b), 1)
            }
        }
    }

    fn cmp_raw_ult(&mut self, a: Eid, b: Eid) -> Eid {
        self.cmp(C::Ult, a, b)
    }
    fn not_raw(&mut self, a: Eid) -> Eid {
        if let Some(c) = self.cst(a) {
            return self.c(1, 1 ^ c);
        }
        if let N::Bin(B::Xor, x, y) = self.n(a) {
            if self.cst(y) == Some(1) {
                return x;
            }
        }
        let one = self.c(1, 1);
        self.intern(N::Bin(B::Xor, a, one), 1)
    }

    /// An ite tree of constants, small enough to push comparisons into.
    fn cheap_const_ite(&self, e: Eid, depth: u32) -> bool {
        if depth > 12 {
            return false;
        }
        match self.n(e) {
            N::Const(_) => true,
            N::Ite(_, x, y) => {
                (self.is_const(x) && self.cheap_const_ite(y, depth + 1)) || (self.is_const(y) && self.cheap_const_ite(x, depth + 1))
            }
            N::Zext(x) => self.is_const(x),
            _ => depth > 0 && depth <= 3,
        }
    }

    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if let Some(k) = self.cst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        // negated condition
        if let N::Bin(B::Xor, x, y) = self.n(c) {
            if self.cst(y) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(B::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(B::And, nc, b);
                }
                (None, Some(0)) => return self.bin(B::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(B::Or, nc, a);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, x, _) = self.n(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = self.n(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        if let N::Ite(d, x, y) = self.n(b) {
            if x == a {
                let cd = self.bin(B::Or, c, d);
                return self.ite(cd, a, y);
            }
        }
        if let (N::Zext(x), N::Zext(y)) = (self.n(a), self.n(b)) {
            if self.w(x) == self.w(y) {
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
        }
        if w > 1 {
            // keep width minimal when both arms are small
            let (ha, hb) = (self.umax[a as usize], self.umax[b as usize]);
            if w <= 64 && (self.is_const(a) || self.is_const(b)) {
                if let (N::Zext(x), Some(k)) = (self.n(a), self.cst(b)) {
                    let xw = self.w(x);
                    if k <= mask(xw) {
                        let kk = self.c(xw, k);
                        let r = self.ite(c, x, kk);
                        return self.zext(r, w);
                    }
                }
                if let (Some(k), N::Zext(y)) = (self.cst(a), self.n(b)) {
                    let yw = self.w(y);
                    if k <= mask(yw) {
                        let kk = self.c(yw, k);
                        let r = self.ite(c, kk, y);
                        return self.zext(r, w);
                    }
                }
                let _ = (ha, hb);
            }
        }
        self.intern(N::Ite(c, a, b), w)
    }

    pub fn extract(&mut self, lo: u32, w: u32, a: Eid) -> Eid {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw {
            return a;
        }
        match self.n(a) {
            N::Const(c) => self.c(w, c >> lo),
            N::Extract(l2, x) => self.extract(lo + l2, w, x),
            N::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.c(w, 0)
                } else if lo + w <= xw {
                    self.extract(lo, w, x)
                } else {
                    let y = self.extract(lo, xw - lo, x);
                    self.zext(y, w)
                }
            }
            N::Sext(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    self.extract(lo, w, x)
                } else if lo < xw {
                    let y = self.extract(lo, xw - lo, x);
                    self.sext(y, w)
                } else {
                    let s = self.extract(xw - 1, 1, x);
                    self.sext(s, w)
                }
            }
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(lo - lw, w, h)
                } else if lo + w <= lw {
                    self.extract(lo, w, l)
                } else {
                    let x = self.extract(lo, lw - lo, l);
                    let y = self.extract(0, lo + w - lw, h);
                    self.concat(y, x)
                }
            }
            N::Bin(op, x, y) if matches!(op, B::And | B::Or | B::Xor) => {
                let p = self.extract(lo, w, x);
                let q = self.extract(lo, w, y);
                self.bin(op, p, q)
            }
            N::Bin(op, x, y) if lo == 0 && matches!(op, B::Add | B::Sub | B::Mul) => {
                let p = self.extract(0, w, x);
                let q = self.extract(0, w, y);
                self.bin(op, p, q)
            }
            N::Ite(c, x, y) if self.is_const(x) || self.is_const(y) || self.is_small_ite(x) || self.is_small_ite(y) => {
                let p = self.extract(lo, w, x);
                let q = self.extract(lo, w, y);
                self.ite(c, p, q)
            }
            _ => self.intern(N::Extract(lo, a), w),
        }
    }
    fn is_small_ite(&self, e: Eid) -> bool {
        matches!(self.n(e), N::Zext(_) | N::Concat(..))
    }

    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        match self.n(a) {
            N::Const(c) => self.c(w, c),
            N::Zext(x) => self.zext(x, w),
            _ => self.intern(N::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            N::Const(c) => self.c(w, sext128(c, aw) as u128),
            N::Sext(x) => self.sext(x, w),
            N::Zext(x) => self.zext(x, w),
            N::Ite(c, x, y) if self.is_const(x) && self.is_const(y) => {
                let p = self.sext(x, w);
                let q = self.sext(y, w);
                self.ite(c, p, q)
            }
            _ => {
                if aw <= 64 && self.umax[a as usize] < (1u64 << (aw - 1)) {
                    return self.zext(a, w);
                }
                self.intern(N::Sext(a), w)
            }
        }
    }
    pub fn concat(&mut self, h: Eid, l: Eid) -> Eid {
        let (hw, lw) = (self.w(h), self.w(l));
        if hw == 0 {
            return l;
        }
        if lw == 0 {
            return h;
        }
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cst(h), self.cst(l)) {
            return self.c(w, (x << lw) | y);
        }
        if self.cst(h) == Some(0) {
            return self.zext(l, w);
        }
        // adjacent extracts of one value
        if let (N::Extract(lo1, x), N::Extract(lo2, y)) = (self.n(h), self.n(l)) {
            if x == y && lo2 + lw == lo1 {
                return self.extract(lo2, w, x);
            }
        }
        if let N::Extract(lo1, x) = self.n(h) {
            if x == l && lo1 == lw {
                return self.extract(0, w, x);
            }
            // l may be the low part of x in the form an extract took
            if lo1 >= lw && matches!(self.n(x), N::Bin(B::Add | B::Sub | B::Mul, ..) | N::Ite(..)) && self.extract(lo1 - lw, lw, x) == l {
                return self.extract(lo1 - lw, w, x);
            }
        }
        if let N::Zext(x) = self.n(h) {
            let y = self.concat(x, l);
            return self.zext(y, w);
        }
        // right-nested: concat(a, concat(b, c)) ; try to merge a with b
        if let N::Concat(h2, l2) = self.n(l) {
            if let (N::Extract(lo1, x), N::Extract(lo2, y)) = (self.n(h), self.n(h2)) {
                if x == y && lo2 + self.w(h2) == lo1 {
                    let hh = self.extract(lo2, hw + self.w(h2), x);
                    return self.concat(hh, l2);
                }
            }
            if let (Some(x), Some(y)) = (self.cst(h), self.cst(h2)) {
                let w2 = self.w(h2);
                let hh = self.c(hw + w2, (x << w2) | y);
                return self.concat(hh, l2);
            }
        }
        if let N::Concat(h1, l1) = self.n(h) {
            let t = self.concat(l1, l);
            return self.concat(h1, t);
        }
        // ite(c, x, y) ++ ite(c, p, q)
        if let (N::Ite(c1, x, y), N::Ite(c2, p, q)) = (self.n(h), self.n(l)) {
            if c1 == c2 {
                let a = self.concat(x, p);
                let b = self.concat(y, q);
                return self.ite(c1, a, b);
            }
        }
        self.intern(N::Concat(h, l), w)
    }

    pub fn support(&mut self, e: Eid) -> Supp {
        if let Some(s) = &self.supp[e as usize] {
            return s.clone();
        }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.supp[x as usize].is_some() {
                continue;
            }
            let kids: [Option<Eid>; 3] = match self.n(x) {
                N::Const(_) | N::Sym(_) => [None; 3],
                N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => [Some(a), Some(b), None],
                N::Ite(a, b, c) => [Some(a), Some(b), Some(c)],
                N::Extract(_, a) | N::Zext(a) | N::Sext(a) => [Some(a), None, None],
            };
            if !done {
                stack.push((x, true));
                for k in kids.into_iter().flatten() {
                    if self.supp[k as usize].is_none() {
                        stack.push((k, false));
                    }
                }
                continue;
            }
            let s: Supp = match self.n(x) {
                N::Const(_) => self.empty.clone(),
                N::Sym(i) => Rc::new(vec![i]),
                _ => {
                    let mut acc: Option<Supp> = None;
                    for k in kids.into_iter().flatten() {
                        let s = self.supp[k as usize].clone().unwrap();
                        acc = Some(match acc {
                            None => s,
                            Some(a) => union(&a, &s),
                        });
                    }
                    acc.unwrap()
                }
            };
            self.supp[x as usize] = Some(s);
        }
        self.supp[e as usize].clone().unwrap()
    }

    /// A number of low bits that are certainly zero.
    pub fn low_zeros(&self, e: Eid) -> u32 {
        // the lowest piece of a concatenation decides, unless it is all zero
        let mut x = e;
        loop {
            match self.n(x) {
                N::Concat(_, l) if self.cst(l) != Some(0) => x = l,
                N::Zext(l) if !self.is_const(l) => x = l,
                _ => break,
            }
        }
        if x != e && self.cst(x).is_none() {
            let k = self.lz(x, 6);
            if k < self.w(x) {
                return k;
            }
        }
        // a concatenation chain ending in zeros
        let mut x = e;
        let mut last = 0;
        loop {
            match self.n(x) {
                N::Concat(_, l) => x = l,
                N::Zext(l) => x = l,
                N::Const(0) => {
                    last = self.w(x);
                    break;
                }
                _ => break,
            }
        }
        self.lz(e, 6).max(last)
    }
    fn lz(&self, e: Eid, d: u32) -> u32 {
        let w = self.w(e);
        if d == 0 {
            return 0;
        }
        match self.n(e) {
            N::Const(c) => {
                if c == 0 {
                    w
                } else {
                    c.trailing_zeros()
                }
            }
            N::Concat(h, l) => {
                let k = self.lz(l, d - 1);
                if k >= self.w(l) {
                    k + self.lz(h, d - 1)
                } else {
                    k
                }
            }
            N::Zext(a) | N::Sext(a) => self.lz(a, d - 1),
            N::Bin(B::Add, a, b) | N::Bin(B::Or, a, b) | N::Bin(B::Sub, a, b) | N::Bin(B::Xor, a, b) => self.lz(a, d - 1).min(self.lz(b, d - 1)),
            N::Bin(B::Mul, a, b) => (self.lz(a, d - 1) + self.lz(b, d - 1)).min(w),
            N::Bin(B::And, a, b) => self.lz(a, d - 1).max(self.lz(b, d - 1)),
            N::Ite(_, a, b) => self.lz(a, d - 1).min(self.lz(b, d - 1)),
            _ => 0,
        }
    }

    pub fn new_epoch(&mut self) {
        self.epoch += 1;
    }

    /// Value of `e` under `model` (bytes by symbol number; absent = 0).
    pub fn eval(&mut self, e: Eid, model: &[u8]) -> u128 {
        if self.ev_epoch[e as usize] == self.epoch {
            return self.ev_val[e as usize];
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.ev_epoch[x as usize] == self.epoch {
                stack.pop();
                continue;
            }
            let w = self.w(x);
            let n = self.n(x);
            let val = {
                let ep = self.epoch;
                let mut need = |s: &Self, k: Eid, st: &mut Vec<Eid>| -> Option<u128> {
                    if s.ev_epoch[k as usize] == ep {
                        Some(s.ev_val[k as usize])
                    } else {
                        st.push(k);
                        None
                    }
                };
                match n {
                    N::Const(c) => Some(c),
                    N::Sym(i) => Some(model.get(i as usize).copied().unwrap_or(0) as u128),
                    N::Bin(op, a, b) => {
                        let p = need(self, a, &mut stack);
                        let q = need(self, b, &mut stack);
                        match (p, q) {
                            (Some(p), Some(q)) => Some(fold_bin(op, w, p, q)),
                            _ => None,
                        }
                    }
                    N::Cmp(op, a, b) => {
                        let p = need(self, a, &mut stack);
                        let q = need(self, b, &mut stack);
                        match (p, q) {
                            (Some(p), Some(q)) => Some(fold_cmp(op, self.w(a), p, q) as u128),
                            _ => None,
                        }
                    }
                    N::Ite(c, a, b) => match need(self, c, &mut stack) {
                        Some(1) => need(self, a, &mut stack),
                        Some(_) => need(self, b, &mut stack),
                        None => None,
                    },
                    N::Extract(lo, a) => need(self, a, &mut stack).map(|v| (v >> lo) & mask(w)),
                    N::Zext(a) => need(self, a, &mut stack),
                    N::Sext(a) => need(self, a, &mut stack).map(|v| sext128(v, self.w(a)) as u128 & mask(w)),
                    N::Concat(h, l) => {
                        let p = need(self, h, &mut stack);
                        let q = need(self, l, &mut stack);
                        match (p, q) {
                            (Some(p), Some(q)) => Some((p << self.w(l)) | q),
                            _ => None,
                        }
                    }
                }
            };
            if let Some(v) = val {
                self.ev_epoch[x as usize] = self.epoch;
                self.ev_val[x as usize] = v;
                stack.pop();
            }
        }
        self.ev_val[e as usize]
    }

    pub fn show(&self, e: Eid, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let s = |x| self.show(x, depth - 1);
        match self.n(e) {
            N::Const(c) => format!("{:#x}:{}", c, self.w(e)),
            N::Sym(i) => format!("s{}", i),
            N::Bin(op, a, b) => format!("({:?} {} {})", op, s(a), s(b)),
            N::Cmp(op, a, b) => format!("({:?} {} {})", op, s(a), s(b)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", s(c), s(a), s(b)),
            N::Extract(lo, a) => format!("{}[{}+{}]", s(a), lo, self.w(e)),
            N::Zext(a) => format!("z{}({})", self.w(e), s(a)),
            N::Sext(a) => format!("x{}({})", self.w(e), s(a)),
            N::Concat(h, l) => format!("({} ++ {})", s(h), s(l)),
        }
    }
}

pub fn union(a: &Supp, b: &Supp) -> Supp {
    if Rc::ptr_eq(a, b) || b.is_empty() {
        return a.clone();
    }
    if a.is_empty() {
        return b.clone();
    }
    let mut out = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] < b[j] {
            out.push(a[i]);
            i += 1;
        } else if a[i] > b[j] {
            out.push(b[j]);
            j += 1;
        } else {
            out.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    out.extend_from_slice(&a[i..]);
    out.extend_from_slice(&b[j..]);
    if out.len() == a.len() {
        return a.clone();
    }
    Rc::new(out)
}
