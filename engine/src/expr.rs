//! Hash-consed bit-vector expressions with a concrete shadow value under the
//! model that drives the current path.
use crate::ir::{mask, sext, BinOp, Pred};
use std::collections::HashMap;
use std::fmt::Write;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum O {
    Var(u32),
    Const(u128),
    Bin(BinOp, E, E),
    Cmp(Pred, E, E),
    Ite(E, E, E),
    Zext(E),
    Sext(E),
    Extract(u32, E), // low bit
    Concat(E, E),    // hi, lo
}

#[derive(Clone, Debug)]
pub struct Node {
    pub o: O,
    pub w: u32,
    pub shadow: u128,
    pub hash: u128,
    pub vars: u128,
}

pub struct VarInfo {
    pub name: String,
    pub bits: u32,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<(O, u32), E>,
    pub vars: Vec<VarInfo>,
}

fn mix(a: u128, b: u128) -> u128 {
    let x = (a ^ b.rotate_left(41)).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    x ^ (x >> 59) ^ (x >> 101)
}

pub fn bin_eval(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                mask(u128::MAX, w)
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x >= 0 {
                    u128::MAX
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        BinOp::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let x = sext(a, w);
            if b >= w as u128 {
                if x < 0 {
                    u128::MAX
                } else {
                    0
                }
            } else {
                (x >> b) as u128
            }
        }
        _ => panic!("symbolic fp"),
    };
    mask(r, w)
}

pub fn cmp_eval(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
    }
}

pub fn neg_pred(p: Pred) -> Pred {
    match p {
        Pred::Eq => Pred::Ne,
        Pred::Ne => Pred::Eq,
        Pred::Ugt => Pred::Ule,
        Pred::Uge => Pred::Ult,
        Pred::Ult => Pred::Uge,
        Pred::Ule => Pred::Ugt,
        Pred::Sgt => Pred::Sle,
        Pred::Sge => Pred::Slt,
        Pred::Slt => Pred::Sge,
        Pred::Sle => Pred::Sgt,
    }
}

impl Arena {
    pub fn reset(&mut self) {
        self.nodes.clear();
        self.map.clear();
        self.vars.clear();
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn sh(&self, e: E) -> u128 {
        self.nodes[e as usize].shadow
    }
    #[inline]
    pub fn o(&self, e: E) -> O {
        self.nodes[e as usize].o
    }
    #[inline]
    pub fn cst(&self, e: E) -> Option<u128> {
        if let O::Const(k) = self.o(e) {
            Some(k)
        } else {
            None
        }
    }
    fn mk(&mut self, o: O, w: u32) -> E {
        if let Some(e) = self.map.get(&(o, w)) {
            return *e;
        }
        let n = |e: E| &self.nodes[e as usize];
        let (shadow, vars, h) = match o {
            O::Var(_) => unreachable!(),
            O::Const(k) => (k, 0, mix(1 + w as u128 * 977, k)),
            O::Bin(op, a, b) => (bin_eval(op, w, n(a).shadow, n(b).shadow), n(a).vars | n(b).vars, mix(mix(100 + op as u128, n(a).hash), n(b).hash)),
            O::Cmp(p, a, b) => (cmp_eval(p, n(a).w, n(a).shadow, n(b).shadow) as u128, n(a).vars | n(b).vars, mix(mix(200 + p as u128, n(a).hash), n(b).hash)),
            O::Ite(c, a, b) => (if n(c).shadow != 0 { n(a).shadow } else { n(b).shadow }, n(a).vars | n(b).vars | n(c).vars, mix(mix(mix(300, n(c).hash), n(a).hash), n(b).hash)),
            O::Zext(a) => (n(a).shadow, n(a).vars, mix(mix(400, n(a).hash), w as u128)),
            O::Sext(a) => (mask(sext(n(a).shadow, n(a).w) as u128, w), n(a).vars, mix(mix(500, n(a).hash), w as u128)),
            O::Extract(lo, a) => (mask(n(a).shadow >> lo, w), n(a).vars, mix(mix(mix(600, n(a).hash), w as u128), lo as u128)),
            O::Concat(a, b) => (n(a).shadow << n(b).w | n(b).shadow, n(a).vars | n(b).vars, mix(mix(700, n(a).hash), n(b).hash)),
        };
        let id = self.nodes.len() as E;
        self.nodes.push(Node { o, w, shadow, hash: h, vars });
        self.map.insert((o, w), id);
        id
    }
    pub fn var(&mut self, name: String, bits: u32, val: u128) -> E {
        let i = self.vars.len() as u32;
        let id = self.nodes.len() as E;
        self.nodes.push(Node { o: O::Var(i), w: bits, shadow: val, hash: mix(mix(7, i as u128), bits as u128), vars: 1u128 << i.min(127) });
        self.vars.push(VarInfo { name, bits });
        id
    }
    pub fn k(&mut self, v: u128, w: u32) -> E {
        self.mk(O::Const(mask(v, w)), w)
    }
    pub fn not(&mut self, a: E) -> E {
        // width 1
        match self.o(a) {
            O::Const(k) => self.k(k ^ 1, 1),
            O::Cmp(p, x, y) => self.mk(O::Cmp(neg_pred(p), x, y), 1),
            O::Bin(BinOp::Xor, x, y) if self.cst(y) == Some(1) => x,
            O::Bin(BinOp::And, x, y) => {
                let (nx, ny) = (self.not(x), self.not(y));
                self.bin(BinOp::Or, nx, ny)
            }
            O::Bin(BinOp::Or, x, y) => {
                let (nx, ny) = (self.not(x), self.not(y));
                self.bin(BinOp::And, nx, ny)
            }
            _ => {
                let one = self.k(1, 1);
                self.mk(O::Bin(BinOp::Xor, a, one), 1)
            }
        }
    }
    pub fn bin(&mut self, op: BinOp, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut ca, mut cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.k(bin_eval(op, w, x, y), w);
        }
        if matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor) && ca.is_some() {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let ones = mask(u128::MAX, w);
        match (op, cb) {
            (BinOp::Add | BinOp::Sub | BinOp::Or | BinOp::Xor | BinOp::Shl | BinOp::LShr | BinOp::AShr, Some(0)) => return a,
            (BinOp::And | BinOp::Mul, Some(0)) => return b,
            (BinOp::Mul | BinOp::UDiv, Some(1)) => return a,
            (BinOp::And, Some(k)) if k == ones => return a,
            (BinOp::Or, Some(k)) if k == ones => return b,
            (BinOp::Xor, Some(1)) if w == 1 => return self.not(a),
            (BinOp::Sub, Some(k)) => {
                let nk = self.k((!k).wrapping_add(1), w);
                return self.bin(BinOp::Add, a, nk);
            }
            (BinOp::Add, Some(k)) => {
                if let O::Bin(BinOp::Add, x, y) = self.o(a) {
                    if let Some(k2) = self.cst(y) {
                        let s = self.k(k.wrapping_add(k2), w);
                        return self.bin(BinOp::Add, x, s);
                    }
                }
            }
            // low mask -> zext(extract)
            (BinOp::And, Some(k)) if k & (k + 1) == 0 => {
                let n = k.count_ones();
                let x = self.extract(0, n, a);
                return self.zext(x, w);
            }
            (BinOp::Shl, Some(k)) if k < w as u128 => {
                let x = self.extract(0, w - k as u32, a);
                let z = self.k(0, k as u32);
                return self.concat(x, z);
            }
            (BinOp::LShr, Some(k)) if k < w as u128 => {
                let x = self.extract(k as u32, w - k as u32, a);
                return self.zext(x, w);
            }
            _ => {}
        }
        if a == b {
            match op {
                BinOp::And | BinOp::Or => return a,
                BinOp::Xor | BinOp::Sub => return self.k(0, w),
                _ => {}
            }
        }
        // or of disjoint concat pieces: (x ++ 0_k) | zext(y) with w(y) <= k
        if op == BinOp::Or {
            for (p, q) in [(a, b), (b, a)] {
                if let O::Concat(hi, lo) = self.o(p) {
                    if self.cst(lo) == Some(0) {
                        let lw = self.w(lo);
                        if let O::Zext(y) = self.o(q) {
                            if self.w(y) <= lw {
                                let l2 = self.zext(y, lw);
                                return self.concat(hi, l2);
                            }
                        }
                        if let O::Concat(h2, l2) = self.o(q) {
                            if self.cst(h2) == Some(0) && self.w(l2) <= lw {
                                let l3 = self.zext(l2, lw);
                                return self.concat(hi, l3);
                            }
                        }
                    }
                }
                // constant low part / high part
                if let (O::Concat(hi, lo), Some(k)) = (self.o(p), self.cst(q)) {
                    let lw = self.w(lo);
                    let hk = self.k(k >> lw, w - lw);
                    let lk = self.k(k, lw);
                    let h = self.bin(BinOp::Or, hi, hk);
                    let l = self.bin(BinOp::Or, lo, lk);
                    return self.concat(h, l);
                }
            }
        }
        if op == BinOp::And {
            // and with constant over concat
            if let (O::Concat(hi, lo), Some(k)) = (self.o(a), self.cst(b)) {
                let lw = self.w(lo);
                let hk = self.k(k >> lw, w - lw);
                let lk = self.k(k, lw);
                let h = self.bin(BinOp::And, hi, hk);
                let l = self.bin(BinOp::And, lo, lk);
                return self.concat(h, l);
            }
        }
        if let (O::Ite(c, x, y), Some(_)) = (self.o(a), cb) {
            if self.cst(x).is_some() && self.cst(y).is_some() {
                let x2 = self.bin(op, x, b);
                let y2 = self.bin(op, y, b);
                return self.ite(c, x2, y2);
            }
        }
        if matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor) && cb.is_none() && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(O::Bin(op, a, b), w)
    }
    pub fn cmp(&mut self, p: Pred, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.k(cmp_eval(p, w, x, y) as u128, 1);
        }
        if a == b {
            let r = matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle);
            return self.k(r as u128, 1);
        }
        if ca.is_some() {
            let sp = match p {
                Pred::Eq | Pred::Ne => p,
                Pred::Ugt => Pred::Ult,
                Pred::Uge => Pred::Ule,
                Pred::Ult => Pred::Ugt,
                Pred::Ule => Pred::Uge,
                Pred::Sgt => Pred::Slt,
                Pred::Sge => Pred::Sle,
                Pred::Slt => Pred::Sgt,
                Pred::Sle => Pred::Sge,
            };
            return self.cmp(sp, b, a);
        }
        if let Some(k) = cb {
            if w == 1 {
                match p {
                    Pred::Eq | Pred::Ne => {
                        return if (k == 1) == (p == Pred::Eq) { a } else { self.not(a) };
                    }
                    _ => {}
                }
            }
            match (p, k) {
                (Pred::Ult, 0) => return self.k(0, 1),
                (Pred::Uge, 0) => return self.k(1, 1),
                (Pred::Ugt, k) if k == mask(u128::MAX, w) => return self.k(0, 1),
                (Pred::Ule, k) if k == mask(u128::MAX, w) => return self.k(1, 1),
                _ => {}
            }
            match self.o(a) {
                O::Ite(c, x, y) => {
                    if self.cst(x).is_some() || self.cst(y).is_some() {
                        let r1 = self.cmp(p, x, b);
                        let r2 = self.cmp(p, y, b);
                        return self.ite(c, r1, r2);
                    }
                }
                O::Zext(x) => {
                    let xw = self.w(x);
                    if k < (1u128 << xw) {
                        match p {
                            Pred::Eq | Pred::Ne | Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge => {
                                let kk = self.k(k, xw);
                                return self.cmp(p, x, kk);
                            }
                            _ => {}
                        }
                    } else {
                        match p {
                            Pred::Eq | Pred::Ugt | Pred::Uge => return self.k(0, 1),
                            Pred::Ne | Pred::Ult | Pred::Ule => return self.k(1, 1),
                            _ => {}
                        }
                    }
                }
                O::Concat(hi, lo) if matches!(p, Pred::Eq | Pred::Ne) => {
                    let lw = self.w(lo);
                    let hk = self.k(k >> lw, w - lw);
                    let lk = self.k(k, lw);
                    let x = self.cmp(Pred::Eq, hi, hk);
                    let y = self.cmp(Pred::Eq, lo, lk);
                    let r = self.bin(BinOp::And, x, y);
                    return if p == Pred::Eq { r } else { self.not(r) };
                }
                O::Bin(BinOp::Add, x, y) if matches!(p, Pred::Eq | Pred::Ne) => {
                    if let Some(k2) = self.cst(y) {
                        let kk = self.k(k.wrapping_sub(k2), w);
                        return self.cmp(p, x, kk);
                    }
                }
                O::Bin(BinOp::Xor, x, y) if matches!(p, Pred::Eq | Pred::Ne) => {
                    if let Some(k2) = self.cst(y) {
                        let kk = self.k(k ^ k2, w);
                        return self.cmp(p, x, kk);
                    }
                    if k == 0 {
                        return self.cmp(p, x, y);
                    }
                }
                O::Bin(BinOp::Or, x, y) if matches!(p, Pred::Eq | Pred::Ne) && k == 0 => {
                    let z = self.k(0, w);
                    let r1 = self.cmp(Pred::Eq, x, z);
                    let r2 = self.cmp(Pred::Eq, y, z);
                    let r = self.bin(BinOp::And, r1, r2);
                    return if p == Pred::Eq { r } else { self.not(r) };
                }
                _ => {}
            }
        }
        if let (O::Concat(h1, l1), O::Concat(h2, l2)) = (self.o(a), self.o(b)) {
            if matches!(p, Pred::Eq | Pred::Ne) && self.w(l1) == self.w(l2) {
                let x = self.cmp(Pred::Eq, h1, h2);
                let y = self.cmp(Pred::Eq, l1, l2);
                let r = self.bin(BinOp::And, x, y);
                return if p == Pred::Eq { r } else { self.not(r) };
            }
        }
        if let (O::Zext(x), O::Zext(y)) = (self.o(a), self.o(b)) {
            if self.w(x) == self.w(y) && matches!(p, Pred::Eq | Pred::Ne | Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge) {
                return self.cmp(p, x, y);
            }
        }
        self.mk(O::Cmp(p, a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cst(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(BinOp::Or, c, b),
                (None, Some(0)) => return self.bin(BinOp::And, c, a),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(BinOp::And, n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(BinOp::Or, n, a);
                }
                _ => {}
            }
        }
        self.mk(O::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.o(a) {
            O::Const(k) => self.k(k, w),
            O::Zext(x) => self.zext(x, w),
            O::Concat(h, l) if self.cst(h) == Some(0) => self.zext(l, w),
            O::Ite(c, x, y) if self.cst(x).is_some() && self.cst(y).is_some() => {
                let (x, y) = (self.zext(x, w), self.zext(y, w));
                self.ite(c, x, y)
            }
            _ => self.mk(O::Zext(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.o(a) {
            O::Const(k) => self.k(sext(k, aw) as u128, w),
            O::Zext(x) => self.zext(x, w),
            O::Ite(c, x, y) if self.cst(x).is_some() && self.cst(y).is_some() => {
                let (x, y) = (self.sext(x, w), self.sext(y, w));
                self.ite(c, x, y)
            }
            _ => self.mk(O::Sext(a), w),
        }
    }
    pub fn extract(&mut self, lo: u32, w: u32, a: E) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        match self.o(a) {
            O::Const(k) => self.k(k >> lo, w),
            O::Extract(l2, x) => self.extract(lo + l2, w, x),
            O::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(lo - lw, w, h)
                } else if lo + w <= lw {
                    self.extract(lo, w, l)
                } else {
                    let lp = self.extract(lo, lw - lo, l);
                    let hp = self.extract(0, w - (lw - lo), h);
                    self.concat(hp, lp)
                }
            }
            O::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.k(0, w)
                } else if lo + w <= xw {
                    self.extract(lo, w, x)
                } else {
                    let y = self.extract(lo, xw - lo, x);
                    self.zext(y, w)
                }
            }
            O::Sext(x) if lo + w <= self.w(x) => self.extract(lo, w, x),
            O::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                let (x, y) = (self.extract(lo, w, x), self.extract(lo, w, y));
                self.bin(op, x, y)
            }
            O::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => {
                let (x, y) = (self.extract(lo, w, x), self.extract(lo, w, y));
                self.bin(op, x, y)
            }
            O::Ite(c, x, y) => {
                let (x, y) = (self.extract(lo, w, x), self.extract(lo, w, y));
                self.ite(c, x, y)
            }
            _ => self.mk(O::Extract(lo, a), w),
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let w = self.w(hi) + self.w(lo);
        if let (Some(a), Some(b)) = (self.cst(hi), self.cst(lo)) {
            return self.k(a << self.w(lo) | b, w);
        }
        if self.cst(hi) == Some(0) {
            return self.zext(lo, w);
        }
        // adjacent extracts
        if let (O::Extract(l1, x), O::Extract(l0, y)) = (self.o(hi), self.o(lo)) {
            if x == y && l1 == l0 + self.w(lo) {
                return self.extract(l0, w, x);
            }
        }
        // extract above the whole of lo when lo is itself low part of x
        if let (O::Extract(l1, x), O::Concat(h2, l2)) = (self.o(hi), self.o(lo)) {
            if let O::Extract(l0, y) = self.o(h2) {
                if x == y && l1 == l0 + self.w(h2) {
                    let h = self.extract(l0, self.w(hi) + self.w(h2), x);
                    return self.concat(h, l2);
                }
            }
        }
        // 0 ++ zext pieces: hi const 0 handled; lo zext(x) fully -> keep
        if let O::Concat(h2, l2) = self.o(lo) {
            if self.cst(hi).is_some() && self.cst(h2).is_some() {
                let h = self.concat(hi, h2);
                return self.concat(h, l2);
            }
        }
        if let O::Ite(c, x, y) = self.o(lo) {
            if self.cst(hi).is_some() && self.cst(x).is_some() && self.cst(y).is_some() {
                let (x, y) = (self.concat(hi, x), self.concat(hi, y));
                return self.ite(c, x, y);
            }
        }
        if let (O::Ite(c1, x1, y1), O::Ite(c2, x2, y2)) = (self.o(hi), self.o(lo)) {
            if c1 == c2 {
                let (x, y) = (self.concat(x1, x2), self.concat(y1, y2));
                return self.ite(c1, x, y);
            }
        }
        self.mk(O::Concat(hi, lo), w)
    }

    /// SMT-LIB2 definitions for the given roots; returns names of roots.
    pub fn smt(&self, roots: &[E], out: &mut String) -> Vec<u32> {
        let mut done: FxMap<E, ()> = FxMap::default();
        let mut vars = vec![];
        let mut stack: Vec<(E, bool)> = roots.iter().rev().map(|r| (*r, false)).collect();
        while let Some((e, exp)) = stack.pop() {
            if done.contains_key(&e) {
                continue;
            }
            let n = &self.nodes[e as usize];
            if !exp {
                stack.push((e, true));
                match n.o {
                    O::Var(_) | O::Const(_) => {}
                    O::Bin(_, a, b) | O::Cmp(_, a, b) | O::Concat(a, b) => {
                        stack.push((a, false));
                        stack.push((b, false));
                    }
                    O::Ite(c, a, b) => {
                        stack.push((c, false));
                        stack.push((a, false));
                        stack.push((b, false));
                    }
                    O::Zext(a) | O::Sext(a) | O::Extract(_, a) => stack.push((a, false)),
                }
                continue;
            }
            done.insert(e, ());
            match n.o {
                O::Var(i) => {
                    vars.push(i);
                    let _ = writeln!(out, "(declare-const v{} (_ BitVec {}))(define-fun e{} () (_ BitVec {}) v{})", i, n.w, e, n.w, i);
                    continue;
                }
                _ => {}
            }
            let _ = write!(out, "(define-fun e{} () (_ BitVec {}) ", e, n.w);
            let _ = match n.o {
                O::Var(_) => Ok(()),
                O::Const(k) => write!(out, "(_ bv{} {})", k, n.w),
                O::Bin(op, a, b) => {
                    let s = match op {
                        BinOp::Add => "bvadd",
                        BinOp::Sub => "bvsub",
                        BinOp::Mul => "bvmul",
                        BinOp::UDiv => "bvudiv",
                        BinOp::SDiv => "bvsdiv",
                        BinOp::URem => "bvurem",
                        BinOp::SRem => "bvsrem",
                        BinOp::And => "bvand",
                        BinOp::Or => "bvor",
                        BinOp::Xor => "bvxor",
                        BinOp::Shl => "bvshl",
                        BinOp::LShr => "bvlshr",
                        BinOp::AShr => "bvashr",
                        _ => panic!("fp"),
                    };
                    write!(out, "({} e{} e{})", s, a, b)
                }
                O::Cmp(p, a, b) => {
                    let s = match p {
                        Pred::Eq => "=",
                        Pred::Ne => "distinct",
                        Pred::Ugt => "bvugt",
                        Pred::Uge => "bvuge",
                        Pred::Ult => "bvult",
                        Pred::Ule => "bvule",
                        Pred::Sgt => "bvsgt",
                        Pred::Sge => "bvsge",
                        Pred::Slt => "bvslt",
                        Pred::Sle => "bvsle",
                    };
                    write!(out, "(ite ({} e{} e{}) #b1 #b0)", s, a, b)
                }
                O::Ite(c, a, b) => write!(out, "(ite (= e{} #b1) e{} e{})", c, a, b),
                O::Zext(a) => write!(out, "((_ zero_extend {}) e{})", n.w - self.w(a), a),
                O::Sext(a) => write!(out, "((_ sign_extend {}) e{})", n.w - self.w(a), a),
                O::Extract(lo, a) => write!(out, "((_ extract {} {}) e{})", lo + n.w - 1, lo, a),
                O::Concat(a, b) => write!(out, "(concat e{} e{})", a, b),
            };
            out.push_str(")\n");
        }
        vars
    }
}
