//! Hash-consed bit-vector expression DAG with local simplification.
//! Widths 1..=128. Every node carries an unsigned interval and the set of
//! symbolic variables it depends on.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Eid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(Op, Eid, Eid),
    Eq(Eid, Eid),
    Ult(Eid, Eid),
    Slt(Eid, Eid),
    Ite(Eid, Eid, Eid),
    Concat(Eid, Eid),
    Extract(u32, Eid),
    ZExt(Eid),
    SExt(Eid),
}

pub const MAXVARS: usize = 512;
pub type VarSet = [u64; MAXVARS / 64];

#[derive(Clone)]
pub struct Node { pub n: N, pub w: u32, pub lo: u128, pub hi: u128, pub vs: VarSet }

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<(N, u32), Eid>,
    /// (ordinal on path, width) per variable
    pub vars: Vec<(u32, u32)>,
    varmap: FxMap<(u32, u32), Eid>,
    memo: Vec<(u32, u128)>,
    gen: u32,
    pub t: Eid,
    pub f: Eid,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn binop(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => if b == 0 { if sext(a, w) < 0 { 1 } else { m } } else { sext(a, w).wrapping_div(sext(b, w)) as u128 },
        Op::SRem => if b == 0 { a } else { sext(a, w).wrapping_rem(sext(b, w)) as u128 },
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = sext(a, w); if b >= w as u128 { (s >> 127) as u128 } else { (s >> b) as u128 } }
    };
    r & m
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx { nodes: vec![], map: Default::default(), vars: vec![], varmap: Default::default(), memo: vec![], gen: 0, t: 0, f: 0 };
        c.f = c.konst(0, 1);
        c.t = c.konst(1, 1);
        c
    }
    pub fn w(&self, e: Eid) -> u32 { self.nodes[e as usize].w }
    pub fn n(&self, e: Eid) -> N { self.nodes[e as usize].n }
    pub fn cv(&self, e: Eid) -> Option<u128> { if let N::Const(k) = self.nodes[e as usize].n { Some(k) } else { None } }
    pub fn vs(&self, e: Eid) -> &VarSet { &self.nodes[e as usize].vs }

    fn intern(&mut self, n: N, w: u32) -> Eid {
        if let Some(&e) = self.map.get(&(n, w)) { return e }
        let m = mask(w);
        let mut vs = [0u64; MAXVARS / 64];
        let mut add = |s: &Ctx, e: Eid| { let o = &s.nodes[e as usize].vs; for i in 0..vs.len() { vs[i] |= o[i] } };
        let (mut lo, mut hi) = (0u128, m);
        let iv = |s: &Ctx, e: Eid| (s.nodes[e as usize].lo, s.nodes[e as usize].hi);
        match n {
            N::Const(k) => { lo = k; hi = k }
            N::Var(i) => { vs[i as usize / 64] |= 1 << (i % 64) }
            N::Bin(op, a, b) => {
                add(self, a); add(self, b);
                let (al, ah) = iv(self, a); let (bl, bh) = iv(self, b);
                match op {
                    Op::Add => if let (Some(l), Some(h)) = (al.checked_add(bl), ah.checked_add(bh)) { if h <= m { lo = l; hi = h } else if l > m { lo = l & m; hi = h & m; if lo > hi { lo = 0; hi = m } } },
                    Op::Sub => if al >= bh { lo = al - bh; hi = ah - bl },
                    Op::Mul => if let (Some(l), Some(h)) = (al.checked_mul(bl), ah.checked_mul(bh)) { if h <= m { lo = l; hi = h } },
                    Op::UDiv => if bl > 0 { lo = al / bh; hi = ah / bl },
                    Op::URem => if bl > 0 { hi = ah.min(bh - 1) },
                    Op::And => hi = ah.min(bh),
                    Op::Or => { lo = al.max(bl); let x = ah | bh; hi = if x == 0 { 0 } else { let k = 128 - x.leading_zeros(); mask(k).min(m) } }
                    Op::Xor => { let x = ah | bh; hi = if x == 0 { 0 } else { let k = 128 - x.leading_zeros(); mask(k).min(m) } }
                    Op::Shl => if let Some(k) = self.cv(b) { if k < w as u128 && ah <= (m >> k) { lo = al << k; hi = ah << k } } else if bh < w as u128 && ah <= (m >> bh) { lo = al << bl; hi = ah << bh },
                    Op::LShr => if bh < 128 { lo = al >> bh; hi = ah >> bl } else { hi = if bl < 128 { ah >> bl } else { 0 } },
                    _ => {}
                }
            }
            N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) => { add(self, a); add(self, b) }
            N::Ite(c, a, b) => {
                add(self, c); add(self, a); add(self, b);
                let (al, ah) = iv(self, a); let (bl, bh) = iv(self, b);
                lo = al.min(bl); hi = ah.max(bh);
            }
            N::Concat(a, b) => {
                add(self, a); add(self, b);
                let wb = self.w(b);
                let (al, ah) = iv(self, a); let (bl, bh) = iv(self, b);
                lo = (al << wb) | bl; hi = (ah << wb) | bh;
            }
            N::Extract(l, a) => {
                add(self, a);
                let (al, ah) = iv(self, a);
                let (x, y) = (al >> l, ah >> l);
                if y <= m { lo = x; hi = y }
            }
            N::ZExt(a) => { add(self, a); let (al, ah) = iv(self, a); lo = al; hi = ah }
            N::SExt(a) => { add(self, a); let (al, ah) = iv(self, a); let wa = self.w(a); if ah < (1u128 << (wa - 1)) { lo = al; hi = ah } }
        }
        let e = self.nodes.len() as Eid;
        // singleton interval => constant
        if lo == hi && !matches!(n, N::Const(_)) {
            let k = self.konst(lo, w);
            self.map.insert((n, w), k);
            return k;
        }
        self.nodes.push(Node { n, w, lo, hi, vs });
        self.map.insert((n, w), e);
        e
    }

    pub fn konst(&mut self, k: u128, w: u32) -> Eid { self.intern(N::Const(k & mask(w)), w) }
    pub fn var(&mut self, ord: u32, w: u32) -> Eid {
        if let Some(&e) = self.varmap.get(&(ord, w)) { return e }
        let i = self.vars.len() as u32;
        assert!((i as usize) < MAXVARS, "too many symbolic variables");
        self.vars.push((ord, w));
        let e = self.intern(N::Var(i), w);
        self.varmap.insert((ord, w), e);
        e
    }
    pub fn bool(&self, b: bool) -> Eid { if b { self.t } else { self.f } }

    pub fn not(&mut self, e: Eid) -> Eid {
        let w = self.w(e);
        if w == 1 {
            if let Some(k) = self.cv(e) { return self.bool(k == 0) }
            if let N::Bin(Op::Xor, a, b) = self.n(e) { if self.cv(b) == Some(1) { return a } }
            return self.intern(N::Bin(Op::Xor, e, self.t), 1);
        }
        let m = self.konst(mask(w), w);
        self.bin(Op::Xor, e, m)
    }

    pub fn bin(&mut self, op: Op, mut a: Eid, mut b: Eid) -> Eid {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let m = mask(w);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.konst(binop(op, w, x, y), w) }
        use Op::*;
        // constants on the right for commutative ops
        if matches!(op, Add | Mul | And | Or | Xor) && (self.cv(a).is_some() || (self.cv(b).is_none() && a > b)) { std::mem::swap(&mut a, &mut b) }
        let kb = self.cv(b);
        match op {
            Add => {
                if kb == Some(0) { return a }
                if let (Some(k), N::Bin(Add, x, y)) = (kb, self.n(a)) { if let Some(k2) = self.cv(y) { let c = self.konst(k.wrapping_add(k2), w); return self.bin(Add, x, c) } }
                // (x + k1) + y => (x + y) + k1
                if kb.is_none() {
                    if let N::Bin(Add, x, y) = self.n(a) { if self.cv(y).is_some() { let s = self.bin(Add, x, b); return self.bin(Add, s, y) } }
                    if let N::Bin(Add, x, y) = self.n(b) { if self.cv(y).is_some() { let s = self.bin(Add, a, x); return self.bin(Add, s, y) } }
                }
                if w == 1 { return self.bin(Xor, a, b) }
            }
            Sub => {
                if a == b { return self.konst(0, w) }
                if let Some(k) = kb { let c = self.konst(k.wrapping_neg() & m, w); return self.bin(Add, a, c) }
                if let N::Bin(Add, x, y) = self.n(a) {
                    if x == b { return y }
                    if y == b { return x }
                    if self.cv(y).is_some() { let s = self.bin(Sub, x, b); return self.bin(Add, s, y) }
                }
                if let N::Bin(Add, x, y) = self.n(b) {
                    if x == a { let z = self.konst(0, w); return self.bin(Sub, z, y) }
                    if let Some(k) = self.cv(y) { let s = self.bin(Sub, a, x); let c = self.konst(k.wrapping_neg() & m, w); return self.bin(Add, s, c) }
                }
                if w == 1 { return self.bin(Xor, a, b) }
            }
            Mul => {
                if kb == Some(0) { return b }
                if kb == Some(1) { return a }
                if let Some(k) = kb {
                    if k.is_power_of_two() { let c = self.konst(k.trailing_zeros() as u128, w); return self.bin(Shl, a, c) }
                    if let N::Ite(c, x, y) = self.n(a) { if self.cv(x).is_some() && self.cv(y).is_some() { let p = self.bin(Mul, x, b); let q = self.bin(Mul, y, b); return self.ite(c, p, q) } }
                }
            }
            And => {
                if kb == Some(0) { return b }
                if kb == Some(m) || a == b { return a }
                if let Some(k) = kb {
                    // low mask => zext(extract)
                    if (k & (k + 1)) == 0 {
                        let n = 128 - k.leading_zeros();
                        if self.nodes[a as usize].hi <= k { return a }
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    if let N::ZExt(x) = self.n(a) {
                        let wx = self.w(x);
                        let kk = self.konst(k & mask(wx), wx);
                        let r = self.bin(And, x, kk);
                        return self.zext(r, w);
                    }
                    if let N::Bin(And, x, y) = self.n(a) { if let Some(k2) = self.cv(y) { let c = self.konst(k & k2, w); return self.bin(And, x, c) } }
                    // contiguous mask => concat
                    let tz = k.trailing_zeros();
                    let kk = k >> tz;
                    if (kk & (kk + 1)) == 0 {
                        let n = 128 - kk.leading_zeros();
                        let x = self.extract(a, tz, n);
                        let z = self.konst(0, tz);
                        let c = self.concat(x, z);
                        return self.zext(c, w);
                    }
                }
                if w == 1 {
                    let (na, nb) = (self.not(a), self.not(b));
                    if na == b || nb == a { return self.f }
                }
            }
            Or => {
                if kb == Some(0) || a == b { return a }
                if kb == Some(m) { return b }
                if w == 1 {
                    let (na, nb) = (self.not(a), self.not(b));
                    if na == b || nb == a { return self.t }
                } else if let Some(e) = self.or_disjoint(a, b) { return e }
            }
            Xor => {
                if kb == Some(0) { return a }
                if a == b { return self.konst(0, w) }
                if w == 1 && kb == Some(1) { return self.not(a) }
                if let (Some(k), N::Bin(Xor, x, y)) = (kb, self.n(a)) { if let Some(k2) = self.cv(y) { let c = self.konst(k ^ k2, w); return self.bin(Xor, x, c) } }
            }
            Shl => {
                if kb == Some(0) || self.cv(a) == Some(0) { return a }
                if let Some(k) = kb {
                    if k >= w as u128 { return self.konst(0, w) }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.konst(0, k);
                    return self.concat(x, z);
                }
            }
            LShr => {
                if kb == Some(0) || self.cv(a) == Some(0) { return a }
                if let Some(k) = kb {
                    if k >= w as u128 { return self.konst(0, w) }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            AShr => {
                if kb == Some(0) { return a }
                if let Some(k) = kb { if self.nodes[a as usize].hi < (1u128 << (w - 1)) { let c = self.konst(k.min(w as u128 - 1), w); return self.bin(LShr, a, c) } }
            }
            UDiv => {
                if self.nodes[a as usize].hi < self.nodes[b as usize].lo { return self.konst(0, w) }
                if kb == Some(1) { return a }
                if let Some(k) = kb { if k.is_power_of_two() { let c = self.konst(k.trailing_zeros() as u128, w); return self.bin(LShr, a, c) } }
            }
            URem => {
                if self.nodes[a as usize].hi < self.nodes[b as usize].lo { return a }
                if let Some(k) = kb { if k.is_power_of_two() { let c = self.konst(k - 1, w); return self.bin(And, a, c) } }
            }
            _ => {}
        }
        // push through ite of constants when other operand is constant
        if kb.is_some() {
            if let N::Ite(c, x, y) = self.n(a) {
                if self.cv(x).is_some() && self.cv(y).is_some() {
                    let p = self.bin(op, x, b); let q = self.bin(op, y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        if self.cv(a).is_some() {
            if let N::Ite(c, x, y) = self.n(b) {
                if self.cv(x).is_some() && self.cv(y).is_some() {
                    let p = self.bin(op, a, x); let q = self.bin(op, a, y);
                    return self.ite(c, p, q);
                }
            }
        }
        self.intern(N::Bin(op, a, b), w)
    }

    /// `a | b` where the set bits cannot overlap, as a concatenation of parts.
    fn or_disjoint(&mut self, a: Eid, b: Eid) -> Option<Eid> {
        let w = self.w(a);
        // x in low k bits, y has low k bits zero
        for (x, y) in [(a, b), (b, a)] {
            let hx = self.nodes[x as usize].hi;
            let k = 128 - hx.leading_zeros();
            if k == 0 || k >= w { continue }
            // y low k bits zero?
            let low = self.extract(y, 0, k);
            if self.cv(low) == Some(0) {
                let h = self.extract(y, k, w - k);
                let l = self.extract(x, 0, k);
                return Some(self.concat(h, l));
            }
        }
        None
    }

    pub fn extract(&mut self, a: Eid, lo: u32, n: u32) -> Eid {
        let w = self.w(a);
        debug_assert!(n > 0 && lo + n <= w, "extract {lo} {n} of {w}");
        if n == w { return a }
        match self.n(a) {
            N::Const(k) => return self.konst(k >> lo, n),
            N::Extract(l, x) => return self.extract(x, l + lo, n),
            N::Concat(h, l) => {
                let wl = self.w(l);
                if lo + n <= wl { return self.extract(l, lo, n) }
                if lo >= wl { return self.extract(h, lo - wl, n) }
                let x = self.extract(h, 0, lo + n - wl);
                let y = self.extract(l, lo, wl - lo);
                return self.concat(x, y);
            }
            N::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx { return self.konst(0, n) }
                if lo + n <= wx { return self.extract(x, lo, n) }
                let y = self.extract(x, lo, wx - lo);
                return self.zext(y, n);
            }
            N::SExt(x) => {
                let wx = self.w(x);
                if lo + n <= wx { return self.extract(x, lo, n) }
                if lo == 0 { return self.sext(x, n) }
            }
            N::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let p = self.extract(x, lo, n);
                let q = self.extract(y, lo, n);
                return self.bin(op, p, q);
            }
            N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, 0, n);
                let q = self.extract(y, 0, n);
                return self.bin(op, p, q);
            }
            N::Ite(c, x, y) => {
                let p = self.extract(x, lo, n);
                let q = self.extract(y, lo, n);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        if self.nodes[a as usize].hi >> lo == 0 { return self.konst(0, n) }
        self.intern(N::Extract(lo, a), n)
    }

    pub fn zext(&mut self, a: Eid, w: u32) -> Eid {
        let wa = self.w(a);
        if w == wa { return a }
        debug_assert!(w > wa);
        match self.n(a) {
            N::Const(k) => return self.konst(k, w),
            N::ZExt(x) => return self.zext(x, w),
            N::Concat(h, l) => if self.cv(h) == Some(0) { return self.zext(l, w) },
            _ if wa == 1 => { let o = self.konst(1, w); let z = self.konst(0, w); return self.ite(a, o, z) }
            N::Bin(Op::Add, x, y) => if let Some(k) = self.cv(y) {
                // no wrap: extend the operands instead
                if self.nodes[x as usize].hi.checked_add(k).map_or(false, |h| h <= mask(wa)) {
                    let p = self.zext(x, w); let q = self.konst(k, w);
                    return self.bin(Op::Add, p, q);
                }
            },
            N::Ite(c, x, y) => if self.cv(x).is_some() && self.cv(y).is_some() {
                let p = self.zext(x, w); let q = self.zext(y, w); return self.ite(c, p, q)
            },
            _ => {}
        }
        self.intern(N::ZExt(a), w)
    }

    pub fn sext(&mut self, a: Eid, w: u32) -> Eid {
        let wa = self.w(a);
        if w == wa { return a }
        if let Some(k) = self.cv(a) { return self.konst(sext(k, wa) as u128, w) }
        if self.nodes[a as usize].hi < (1u128 << (wa - 1)) { return self.zext(a, w) }
        if wa == 1 { let m = self.konst(!0, w); let z = self.konst(0, w); return self.ite(a, m, z) }
        self.intern(N::SExt(a), w)
    }

    /// hi:lo
    pub fn concat(&mut self, h: Eid, l: Eid) -> Eid {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128);
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) { return self.konst((x << wl) | y, w) }
        if self.cv(h) == Some(0) { return self.zext(l, w) }
        if let (N::Extract(lh, x), N::Extract(ll, y)) = (self.n(h), self.n(l)) {
            if x == y && lh == ll + wl { return self.extract(x, ll, w) }
        }
        // extract(x, wl, ..) : x[0..wl] when the low part was simplified away from an Extract node
        if let N::Extract(lh, x) = self.n(h) {
            if lh >= wl {
                let low = self.extract(x, lh - wl, wl);
                if low == l { return self.extract(x, lh - wl, w) }
            }
        }
        // (h = zext(y)) : l   =>   zext(concat(y, l))
        if let N::ZExt(y) = self.n(h) { let c = self.concat(y, l); return self.zext(c, w) }
        // concat(h, concat(a, b)) : reassociate so that adjacent extracts merge
        if let N::Concat(a, b) = self.n(l) {
            let ha = self.concat(h, a);
            if !matches!(self.n(ha), N::Concat(x, _) if x == h) { return self.concat(ha, b) }
        }
        // same-condition ites merge
        if let (N::Ite(c1, a1, b1), N::Ite(c2, a2, b2)) = (self.n(h), self.n(l)) {
            if c1 == c2 { let p = self.concat(a1, a2); let q = self.concat(b1, b2); return self.ite(c1, p, q) }
        }
        self.intern(N::Concat(h, l), w)
    }

    pub fn ite(&mut self, c: Eid, a: Eid, b: Eid) -> Eid {
        if let Some(k) = self.cv(c) { return if k == 1 { a } else { b } }
        if a == b { return a }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b) }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a) }
                _ => {}
            }
        }
        if let N::Bin(Op::Xor, x, y) = self.n(c) { if self.cv(y) == Some(1) { return self.ite(x, b, a) } }
        if let N::Ite(c2, x, _) = self.n(a) { if c2 == c { return self.ite(c, x, b) } }
        if let N::Ite(c2, _, y) = self.n(b) { if c2 == c { return self.ite(c, a, y) } }
        if let N::Ite(c2, x, y) = self.n(b) { if x == a { let o = self.bin(Op::Or, c, c2); return self.ite(o, a, y) } }
        self.intern(N::Ite(c, a, b), w)
    }

    pub fn eq(&mut self, mut a: Eid, mut b: Eid) -> Eid {
        if a == b { return self.t }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b) }
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        if na.hi < nb.lo || nb.hi < na.lo { return self.f }
        if let Some(k) = self.cv(b) {
            if self.cv(a).is_some() { return self.f }
            if w == 1 { return if k == 1 { a } else { self.not(a) } }
            match self.n(a) {
                N::ZExt(x) => { let wx = self.w(x); if k > mask(wx) { return self.f } let c = self.konst(k, wx); return self.eq(x, c) }
                N::SExt(x) => { let wx = self.w(x); let c = self.konst(k, wx); let s = self.sext(c, w); if s != b { return self.f } return self.eq(x, c) }
                N::Concat(h, l) => {
                    let wl = self.w(l); let wh = self.w(h);
                    let kh = self.konst(k >> wl, wh); let kl = self.konst(k, wl);
                    let p = self.eq(h, kh); let q = self.eq(l, kl);
                    return self.bin(Op::And, p, q);
                }
                N::Ite(c, x, y) => {
                    if self.cv(x).is_some() || self.cv(y).is_some() {
                        let p = self.eq(x, b); let q = self.eq(y, b);
                        return self.ite(c, p, q);
                    }
                }
                N::Bin(Op::Add, x, y) => if let Some(k2) = self.cv(y) { let c = self.konst(k.wrapping_sub(k2) & mask(w), w); return self.eq(x, c) },
                N::Bin(Op::Xor, x, y) => if let Some(k2) = self.cv(y) { let c = self.konst(k ^ k2, w); return self.eq(x, c) },
                N::Bin(Op::Sub, x, y) => if k == 0 { return self.eq(x, y) },
                N::Bin(Op::Mul, x, y) => if let Some(k2) = self.cv(y) {
                    // no wrap: x * k2 == k  <=>  k2 | k && x == k / k2
                    if let Some(h) = self.nodes[x as usize].hi.checked_mul(k2) { if h <= mask(w) {
                        if k % k2 != 0 { return self.f }
                        let c = self.konst(k / k2, w); return self.eq(x, c)
                    } }
                },
                N::Bin(Op::Or, x, y) if k == 0 => { let p = self.eq(x, b); let q = self.eq(y, b); return self.bin(Op::And, p, q) }
                _ => {}
            }
        } else {
            if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) { if self.w(x) == self.w(y) { return self.eq(x, y) } }
            if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.n(a), self.n(b)) {
                if self.w(l1) == self.w(l2) { let p = self.eq(h1, h2); let q = self.eq(l1, l2); return self.bin(Op::And, p, q) }
            }
            if let (N::Bin(Op::Add, x, y), N::Bin(Op::Add, p, q)) = (self.n(a), self.n(b)) { if y == q { return self.eq(x, p) } }
            if w == 1 { let x = self.bin(Op::Xor, a, b); return self.not(x) }
            if a > b { std::mem::swap(&mut a, &mut b) }
        }
        self.intern(N::Eq(a, b), 1)
    }

    pub fn ult(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b { return self.f }
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        if na.hi < nb.lo { return self.t }
        if na.lo >= nb.hi { return self.f }
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 { return self.f }
            if k == 1 { let z = self.konst(0, w); return self.eq(a, z) }
            if let N::ZExt(x) = self.n(a) { let wx = self.w(x); if k > mask(wx) { return self.t } let c = self.konst(k, wx); return self.ult(x, c) }
            if let N::Ite(c, x, y) = self.n(a) { if self.cv(x).is_some() || self.cv(y).is_some() { let p = self.ult(x, b); let q = self.ult(y, b); return self.ite(c, p, q) } }
            // x + k2 <u k where x + k2 cannot wrap
            if let N::Bin(Op::Add, x, y) = self.n(a) { if let Some(k2) = self.cv(y) {
                if self.nodes[x as usize].hi.checked_add(k2).map_or(false, |h| h <= mask(w)) {
                    if k <= k2 { return self.f }
                    let c = self.konst(k - k2, w); return self.ult(x, c);
                }
            } }
        }
        if let Some(k) = self.cv(a) {
            if k == mask(w) { return self.f }
            if let N::ZExt(x) = self.n(b) { let wx = self.w(x); if k >= mask(wx) { return self.f } let c = self.konst(k, wx); return self.ult(c, x) }
            if let N::Ite(c, x, y) = self.n(b) { if self.cv(x).is_some() || self.cv(y).is_some() { let p = self.ult(a, x); let q = self.ult(a, y); return self.ite(c, p, q) } }
            if k == 0 { let e = self.eq(b, a); return self.not(e) }
        }
        if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) { if self.w(x) == self.w(y) { return self.ult(x, y) } }
        self.intern(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: Eid, b: Eid) -> Eid { let c = self.ult(b, a); self.not(c) }
    pub fn slt(&mut self, a: Eid, b: Eid) -> Eid {
        if a == b { return self.f }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { return self.bool(sext(x, w) < sext(y, w)) }
        let half = 1u128 << (w - 1);
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        let (ap, an) = (na.hi < half, na.lo >= half);
        let (bp, bn) = (nb.hi < half, nb.lo >= half);
        if (ap && bp) || (an && bn) { return self.ult(a, b) }
        if an && bp { return self.t }
        if ap && bn { return self.f }
        if let Some(k) = self.cv(b) { if k == 0 && w > 1 { return self.extract(a, w - 1, 1) } }
        if let Some(k) = self.cv(a) { if k == mask(w) && w > 1 { let s = self.extract(b, w - 1, 1); return self.not(s) } }
        self.intern(N::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: Eid, b: Eid) -> Eid { let c = self.slt(b, a); self.not(c) }

    /// Evaluate under a model (value per variable index).
    pub fn eval(&mut self, e: Eid, model: &[u64]) -> u128 {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 { self.memo.clear(); self.gen = 1 }
        self.memo.resize(self.nodes.len(), (0, 0));
        self.ev(e, model)
    }
    fn ev(&mut self, e: Eid, m: &[u64]) -> u128 {
        let Node { n, w, .. } = self.nodes[e as usize];
        match n {
            N::Const(k) => return k,
            N::Var(i) => return m.get(i as usize).copied().unwrap_or(0) as u128 & mask(w),
            _ => {}
        }
        let (g, v) = self.memo[e as usize];
        if g == self.gen { return v }
        let r = match n {
            N::Bin(op, a, b) => { let x = self.ev(a, m); let y = self.ev(b, m); binop(op, w, x, y) }
            N::Eq(a, b) => (self.ev(a, m) == self.ev(b, m)) as u128,
            N::Ult(a, b) => (self.ev(a, m) < self.ev(b, m)) as u128,
            N::Slt(a, b) => { let wa = self.w(a); (sext(self.ev(a, m), wa) < sext(self.ev(b, m), wa)) as u128 }
            N::Ite(c, a, b) => if self.ev(c, m) == 1 { self.ev(a, m) } else { self.ev(b, m) },
            N::Concat(a, b) => { let wb = self.w(b); (self.ev(a, m) << wb) | self.ev(b, m) }
            N::Extract(l, a) => (self.ev(a, m) >> l) & mask(w),
            N::ZExt(a) => self.ev(a, m),
            N::SExt(a) => { let wa = self.w(a); sext(self.ev(a, m), wa) as u128 & mask(w) }
            _ => unreachable!(),
        };
        self.memo[e as usize] = (self.gen, r);
        r
    }

    /// All values `e` can take are of the form lo + k*stride, when known statically.
    pub fn stride(&self, e: Eid) -> u128 {
        let Node { n, w, lo, hi, .. } = self.nodes[e as usize];
        let _ = (lo, hi);
        fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }
        match n {
            N::Const(_) => 0,
            N::Bin(Op::Add, a, b) => {
                if self.nodes[a as usize].hi.checked_add(self.nodes[b as usize].hi).map_or(true, |h| h > mask(w)) { return 1 }
                gcd(self.stride(a), self.stride(b))
            }
            N::Bin(Op::Mul, a, b) => if let Some(k) = self.cv(b) {
                if self.nodes[a as usize].hi.checked_mul(k).map_or(true, |h| h > mask(w)) { return 1 }
                self.stride(a).max(1) * k
            } else { 1 },
            N::ZExt(a) => self.stride(a),
            N::Concat(a, b) => { let wb = self.w(b); if self.cv(b).is_some() { self.stride(a).max(1) << wb } else { 1 } }
            _ => 1,
        }
    }

    pub fn show(&self, e: Eid, depth: u32) -> String {
        if depth == 0 { return "..".into() }
        let d = depth - 1;
        match self.n(e) {
            N::Const(k) => format!("{:#x}:{}", k, self.w(e)),
            N::Var(i) => format!("v{}", self.vars[i as usize].0),
            N::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(a, d), self.show(b, d)),
            N::Eq(a, b) => format!("(= {} {})", self.show(a, d), self.show(b, d)),
            N::Ult(a, b) => format!("(< {} {})", self.show(a, d), self.show(b, d)),
            N::Slt(a, b) => format!("(s< {} {})", self.show(a, d), self.show(b, d)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, d), self.show(a, d), self.show(b, d)),
            N::Concat(a, b) => format!("(++ {} {})", self.show(a, d), self.show(b, d)),
            N::Extract(l, a) => format!("{}[{}+{}]", self.show(a, d), l, self.w(e)),
            N::ZExt(a) => format!("(zx{} {})", self.w(e), self.show(a, d)),
            N::SExt(a) => format!("(sx{} {})", self.w(e), self.show(a, d)),
        }
    }
}
