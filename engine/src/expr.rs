//! Hash-consed bit-vector expressions with local simplification.
//!
//! All simplification is a function of the expression's structure only (never of creation order),
//! so that re-executing a decision prefix in another arena meets the same symbolic branches.
use crate::ir::mask64;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone)]
pub struct FxHasher(u64);
impl Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxHasher>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Concat,
    Extract,
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
    Lookup,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FSqrt,
    FRound,
    FTrunc,
    FFloor,
    FCeil,
    FLt,
    FLe,
    FEq,
    UIToFP,
    SIToFP,
    FPToUISat,
    FPToSISat,
    Ctlz,
    Ctpop,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Key {
    op: Op,
    w: u8,
    a: E,
    b: E,
    c: E,
    k: u64,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
    /// Unsigned range.
    pub lo: u64,
    pub hi: u64,
    /// Bits known to be zero / one.
    pub kz: u64,
    pub ko: u64,
    pub h: u64,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Key, E>,
    pub tables: Vec<Rc<Vec<u64>>>,
    table_ids: HashMap<(u64, u64, u32, u32), u32>,
    table_hash: Vec<u64>,
    /// table is affine over GF(2), indexed by table
    table_affine: Vec<bool>,
    /// node contains an affine table lookup reachable through bit-linear operations
    linear: Vec<bool>,
    lin_memo: FxMap<E, Rc<Vec<Lin>>>,
    lin_atoms: FxMap<(E, u8), u32>,
    lin_atom_list: Vec<(E, u8)>,
    supports: Vec<Option<Rc<[u32]>>>,
    stamp: Vec<u32>,
    vals: Vec<u64>,
    gen: u32,
    pub t: E,
    pub f: E,
}

fn m(w: u8) -> u64 {
    mask64(u64::MAX, w as u32)
}

fn sx(v: u64, w: u8) -> i64 {
    ((v << (64 - w as u32)) as i64) >> (64 - w as u32)
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 32;
    x
}

pub fn f64_to_u64_sat(f: f64, w: u8) -> u64 {
    if f.is_nan() || f <= 0.0 {
        0
    } else if f >= 2f64.powi(w as i32) {
        m(w)
    } else {
        f as u64
    }
}
pub fn f64_to_i64_sat(f: f64, w: u8) -> u64 {
    if f.is_nan() {
        return 0;
    }
    let lim = 2f64.powi(w as i32 - 1);
    let v: i64 = if f >= lim {
        if w == 64 { i64::MAX } else { (1i64 << (w - 1)) - 1 }
    } else if f < -lim {
        if w == 64 { i64::MIN } else { -(1i64 << (w - 1)) }
    } else {
        f as i64
    };
    v as u64 & m(w)
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            map: Default::default(),
            tables: vec![],
            table_ids: Default::default(),
            table_hash: vec![],
            table_affine: vec![],
            linear: vec![],
            lin_memo: Default::default(),
            lin_atoms: Default::default(),
            lin_atom_list: vec![(0, 0)],
            supports: vec![],
            stamp: vec![],
            vals: vec![],
            gen: 0,
            t: 0,
            f: 0,
        };
        // id 0 is reserved
        a.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0, lo: 0, hi: 0, kz: 1, ko: 0, h: 0 });
        a.linear.push(false);
        a.f = a.c(0, 1);
        a.t = a.c(1, 1);
        a
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u64> {
        let n = self.n(e);
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    pub fn c(&mut self, v: u64, w: u8) -> E {
        self.mk(Op::Const, w, 0, 0, 0, v & m(w))
    }
    pub fn var(&mut self, ordinal: u64, w: u8) -> E {
        self.mk(Op::Var, w, 0, 0, 0, ordinal)
    }
    pub fn b(&mut self, v: bool) -> E {
        if v { self.t } else { self.f }
    }

    fn mk(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u64) -> E {
        let key = Key { op, w, a, b, c, k };
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let kh = if op == Op::Lookup { self.table_hash[k as usize] } else { k };
        let mut h = mix((op as u64) << 8 | w as u64, kh);
        h = mix(h, self.n0h(a));
        h = mix(h, self.n0h(b).rotate_left(17));
        h = mix(h, self.n0h(c).rotate_left(31));
        let (lo, hi, kz, ko) = self.facts(op, w, a, b, c, k);
        let full = m(w);
        // combine
        let lo2 = lo.max(ko);
        let hi2 = hi.min(full & !kz);
        let id = self.nodes.len() as E;
        // high bits known zero from the range
        let lz = if hi2 == 0 { full } else { full & !(u64::MAX >> hi2.leading_zeros()) };
        self.nodes.push(Node { op, w, a, b, c, k, lo: lo2, hi: hi2, kz: kz | lz, ko, h });
        let l = match op {
            Op::Lookup => self.table_affine[k as usize],
            Op::Xor | Op::Concat => self.linear[a as usize] || self.linear[b as usize],
            Op::And | Op::Or => {
                (self.linear[a as usize] || self.linear[b as usize]) && self.nodes[b as usize].op == Op::Const
            }
            Op::Extract | Op::SExt => self.linear[a as usize],
            // one step of a bitwise checksum
            Op::Ite => match (self.cv(b), self.cv(c)) {
                (Some(x), Some(y)) => w == 32 && (x == 0 || y == 0) && (x ^ y).count_ones() >= 6 || self.linear[a as usize],
                _ => false,
            },
            _ => false,
        };
        self.linear.push(l);
        self.map.insert(key, id);
        id
    }
    fn n0h(&self, e: E) -> u64 {
        if e == 0 { 0 } else { self.n(e).h }
    }

    fn facts(&self, op: Op, w: u8, a: E, b: E, c: E, k: u64) -> (u64, u64, u64, u64) {
        let full = m(w);
        let any = (0, full, 0, 0);
        if op == Op::Const {
            return (k, k, full & !k, k);
        }
        if op == Op::Var {
            return any;
        }
        let na = *self.n(a);
        let nb = *self.n(b);
        let nc = *self.n(c);
        match op {
            Op::Add => {
                let tz = (na.kz | na.ko).trailing_ones().min((nb.kz | nb.ko).trailing_ones()).min(w as u32);
                let (kz, ko) = if tz == 0 {
                    (0, 0)
                } else {
                    let mm = mask64(u64::MAX, tz);
                    let s = na.ko.wrapping_add(nb.ko) & mm;
                    (mm & !s, s)
                };
                match (na.lo.checked_add(nb.lo), na.hi.checked_add(nb.hi)) {
                    (Some(l), Some(h)) if h <= full => (l, h, kz, ko),
                    // a + const where the sum always wraps
                    (Some(l), Some(h)) if l > full => (l & full, h & full, kz, ko),
                    _ => {
                        if w == 64 {
                            // check always-wrapping in 64 bits
                            let l = na.lo as u128 + nb.lo as u128;
                            let h = na.hi as u128 + nb.hi as u128;
                            if l > u64::MAX as u128 {
                                return (l as u64, h as u64, kz, ko);
                            }
                        }
                        (0, full, kz, ko)
                    }
                }
            }
            Op::Sub => {
                if na.lo >= nb.hi {
                    (na.lo - nb.hi, na.hi - nb.lo, 0, 0)
                } else {
                    any
                }
            }
            Op::Mul => match na.hi.checked_mul(nb.hi) {
                Some(h) if h <= full => {
                    let tz = (na.kz.trailing_ones() + nb.kz.trailing_ones()).min(w as u32);
                    (na.lo * nb.lo, h, mask64(u64::MAX, tz) & if tz == 0 { 0 } else { full }, 0)
                }
                _ => any,
            },
            Op::UDiv => {
                if nb.lo > 0 {
                    (na.lo / nb.hi, na.hi / nb.lo, 0, 0)
                } else {
                    any
                }
            }
            Op::URem => {
                if nb.lo > 0 {
                    (0, (nb.hi - 1).min(na.hi), 0, 0)
                } else {
                    any
                }
            }
            Op::And => (0, na.hi.min(nb.hi), na.kz | nb.kz, na.ko & nb.ko),
            Op::Or => (na.lo.max(nb.lo), full, na.kz & nb.kz, na.ko | nb.ko),
            Op::Xor => (0, full, (na.kz & nb.kz) | (na.ko & nb.ko), (na.kz & nb.ko) | (na.ko & nb.kz)),
            Op::Concat => {
                let s = nb.w as u32;
                (na.lo << s | nb.lo, na.hi << s | nb.hi, na.kz << s | nb.kz, na.ko << s | nb.ko)
            }
            Op::Extract => {
                let s = k as u32;
                let kz = (na.kz >> s) & full;
                let ko = (na.ko >> s) & full;
                if s == 0 && na.hi <= full {
                    (na.lo, na.hi, kz, ko)
                } else if (na.hi >> s) <= full {
                    (na.lo >> s, na.hi >> s, kz, ko)
                } else {
                    (0, full, kz, ko)
                }
            }
            Op::Ite => (nb.lo.min(nc.lo), nb.hi.max(nc.hi), nb.kz & nc.kz, nb.ko & nc.ko),
            Op::Lookup => {
                let t = &self.tables[k as usize];
                let mut lo = u64::MAX;
                let mut hi = 0;
                let mut kz = full;
                let mut ko = full;
                for i in na.lo..=na.hi.min(t.len() as u64 - 1) {
                    let v = t[i as usize];
                    lo = lo.min(v);
                    hi = hi.max(v);
                    kz &= !v;
                    ko &= v;
                }
                if lo > hi { any } else { (lo, hi, kz & full, ko) }
            }
            Op::Shl => any,
            Op::LShr => (0, na.hi, 0, 0),
            Op::FPToUISat | Op::FPToSISat => {
                if op == Op::FPToUISat {
                    let (l, h) = self.frange(a, 12);
                    if l <= h {
                        return (f64_to_u64_sat(l, w), f64_to_u64_sat(h, w), 0, 0);
                    }
                }
                any
            }
            Op::Ctlz | Op::Ctpop => (0, (na.w as u64).min(full), 0, 0),
            _ => any,
        }
    }

    /// Interval of the double with bits `e`; (1, 0) if unknown. NaN-free if an interval is returned.
    pub fn frange(&self, e: E, depth: u32) -> (f64, f64) {
        const UNK: (f64, f64) = (1.0, 0.0);
        let n = self.n(e);
        if depth == 0 {
            return UNK;
        }
        let fin = |l: f64, h: f64| if l.is_nan() || h.is_nan() { UNK } else { (l, h) };
        match n.op {
            Op::Const => {
                let f = f64::from_bits(n.k);
                fin(f, f)
            }
            Op::UIToFP => {
                let x = self.n(n.a);
                (x.lo as f64, x.hi as f64)
            }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                let (al, ah) = self.frange(n.a, depth - 1);
                let (bl, bh) = self.frange(n.b, depth - 1);
                if al > ah || bl > bh {
                    return UNK;
                }
                // Rounding is monotonic, so end points are exact images
                match n.op {
                    Op::FAdd => fin(al + bl, ah + bh),
                    Op::FSub => fin(al - bh, ah - bl),
                    Op::FMul | Op::FDiv => {
                        if n.op == Op::FDiv && bl <= 0.0 && bh >= 0.0 {
                            return UNK;
                        }
                        let f = |x: f64, y: f64| if n.op == Op::FMul { x * y } else { x / y };
                        let v = [f(al, bl), f(al, bh), f(ah, bl), f(ah, bh)];
                        if v.iter().any(|x| x.is_nan()) {
                            return UNK;
                        }
                        (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
                    }
                    _ => UNK,
                }
            }
            Op::FSqrt => {
                let (l, h) = self.frange(n.a, depth - 1);
                if l > h || l < 0.0 { UNK } else { (l.sqrt(), h.sqrt()) }
            }
            Op::FRound => {
                let (l, h) = self.frange(n.a, depth - 1);
                if l > h { UNK } else { (l.round(), h.round()) }
            }
            Op::FTrunc => {
                let (l, h) = self.frange(n.a, depth - 1);
                if l > h { UNK } else { (l.trunc(), h.trunc()) }
            }
            Op::FFloor => {
                let (l, h) = self.frange(n.a, depth - 1);
                if l > h { UNK } else { (l.floor(), h.floor()) }
            }
            Op::FCeil => {
                let (l, h) = self.frange(n.a, depth - 1);
                if l > h { UNK } else { (l.ceil(), h.ceil()) }
            }
            Op::Ite => {
                let (al, ah) = self.frange(n.b, depth - 1);
                let (bl, bh) = self.frange(n.c, depth - 1);
                if al > ah || bl > bh { UNK } else { (al.min(bl), ah.max(bh)) }
            }
            _ => UNK,
        }
    }

    fn ord(&self, a: E, b: E) -> (E, E) {
        // constants last, else by structural hash
        let ca = self.n(a).op == Op::Const;
        let cb = self.n(b).op == Op::Const;
        if ca != cb {
            return if ca { (b, a) } else { (a, b) };
        }
        if self.n(a).h <= self.n(b).h { (a, b) } else { (b, a) }
    }

    // ---------------------------------------------------------------- constructors

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x.wrapping_add(y), w);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = self.ord(a, b);
        if self.cv(b) == Some(0) {
            return a;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        // disjoint bits: no carries
        if (na.kz | nb.kz) & m(w) == m(w) {
            return self.or(a, b);
        }
        if let Some(y) = self.cv(b) {
            // (x + c1) + c2
            if na.op == Op::Add {
                if let Some(x) = self.cv(na.b) {
                    let k = self.c(x.wrapping_add(y), w);
                    return self.add(na.a, k);
                }
            }
            if na.op == Op::Sub {
                if let Some(x) = self.cv(na.a) {
                    let k = self.c(x.wrapping_add(y), w);
                    return self.sub(k, na.b);
                }
            }
            if na.op == Op::Ite {
                if let (Some(p), Some(q)) = (self.cv(na.b), self.cv(na.c)) {
                    let p = self.c(p.wrapping_add(y), w);
                    let q = self.c(q.wrapping_add(y), w);
                    return self.ite(na.a, p, q);
                }
            }
            // no carry out of the low part of a concatenation: keep the high part
            if na.op == Op::Concat {
                let (hi, lo) = (na.a, na.b);
                let lw = self.w(lo);
                let nl = *self.n(lo);
                let ylo = y & m(lw);
                let yhi = y >> lw;
                let sum = nl.hi as u128 + ylo as u128;
                if sum <= m(lw) as u128 {
                    let hw = self.w(hi);
                    let yh = self.c(yhi, hw);
                    let h2 = if yhi == 0 { hi } else { self.add(hi, yh) };
                    let yl = self.c(ylo, lw);
                    let l2 = self.add(lo, yl);
                    return self.concat(h2, l2);
                } else if nl.lo as u128 + ylo as u128 > m(lw) as u128 {
                    // always carries
                    let hw = self.w(hi);
                    let yh = self.c(yhi.wrapping_add(1), hw);
                    let h2 = self.add(hi, yh);
                    let yl = self.c(ylo, lw);
                    let l2 = self.add(lo, yl);
                    return self.concat(h2, l2);
                }
            }
            return self.mk(Op::Add, w, a, b, 0, 0);
        }
        // pull constants out
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add && self.cv(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // (x - y) + y
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        self.mk(Op::Add, w, a, b, 0, 0)
    }

    /// a - b if it simplifies to something without a Sub node.
    fn try_sub(&mut self, a: E, b: E, depth: u32) -> Option<E> {
        let w = self.w(a);
        if a == b {
            return Some(self.c(0, w));
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return Some(self.c(x.wrapping_sub(y), w));
        }
        if let Some(y) = self.cv(b) {
            let k = self.c(y.wrapping_neg(), w);
            return Some(self.add(a, k));
        }
        if depth == 0 {
            return None;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Add {
            if let Some(d) = self.try_sub(na.a, b, depth - 1) {
                return Some(self.add(d, na.b));
            }
            if self.cv(na.b).is_none() {
                if let Some(d) = self.try_sub(na.b, b, depth - 1) {
                    return Some(self.add(d, na.a));
                }
            }
        }
        if nb.op == Op::Add {
            if let Some(k) = self.cv(nb.b) {
                if let Some(d) = self.try_sub(a, nb.a, depth - 1) {
                    let k = self.c(k.wrapping_neg(), w);
                    return Some(self.add(d, k));
                }
            }
        }
        if na.op == Op::Sub && na.a == b {
            // (b - y) - b = -y : leave
            return None;
        }
        if nb.op == Op::Sub && nb.a == a {
            return Some(nb.b);
        }
        // same high part
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) && na.a == nb.a {
            let z = self.c(0, w - self.w(na.b));
            let x = self.concat(z, na.b);
            let y = self.concat(z, nb.b);
            return self.try_sub(x, y, depth - 1);
        }
        // high parts differing by a constant, low parts constant
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            if let (Some(x), Some(y)) = (self.cv(na.b), self.cv(nb.b)) {
                if let Some(d) = self.try_sub(na.a, nb.a, depth - 1) {
                    if let Some(d) = self.cv(d) {
                        let lw = self.w(na.b);
                        return Some(self.c((d << lw).wrapping_add(x).wrapping_sub(y), w));
                    }
                }
            }
        }
        None
    }

    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(r) = self.try_sub(a, b, 6) {
            return r;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        // (x + c) - y = (x - y) + c
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let s = self.sub(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add {
            if let Some(k) = self.cv(nb.b) {
                if self.cv(a).is_none() {
                    let s = self.sub(a, nb.a);
                    let k = self.c(k.wrapping_neg(), w);
                    return self.add(s, k);
                }
                let x = self.cv(a).unwrap();
                let k = self.c(x.wrapping_sub(k), w);
                return self.mk(Op::Sub, w, k, nb.a, 0, 0);
            }
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }

    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x.wrapping_mul(y), w);
        }
        let (a, b) = self.ord(a, b);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                return self.shl_c(a, y.trailing_zeros() as u8);
            }
            let na = *self.n(a);
            if na.op == Op::Ite {
                if let (Some(p), Some(q)) = (self.cv(na.b), self.cv(na.c)) {
                    let p = self.c(p.wrapping_mul(y), w);
                    let q = self.c(q.wrapping_mul(y), w);
                    return self.ite(na.a, p, q);
                }
            }
            if na.op == Op::Mul {
                if let Some(x) = self.cv(na.b) {
                    let k = self.c(x.wrapping_mul(y), w);
                    return self.mul(na.a, k);
                }
            }
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }

    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 1 {
                return a;
            }
            if y != 0 {
                if let Some(x) = self.cv(a) {
                    return self.c(x / y, w);
                }
                if y.is_power_of_two() {
                    return self.lshr_c(a, y.trailing_zeros() as u8);
                }
                if self.n(a).hi < y {
                    return self.c(0, w);
                }
                // operate at the width of the dividend
                let na = *self.n(a);
                if na.op == Op::Concat && self.cv(na.a) == Some(0) && y <= m(self.w(na.b)) {
                    let k = self.c(y, self.w(na.b));
                    let d = self.udiv(na.b, k);
                    return self.concat(na.a, d);
                }
            }
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y != 0 {
                if let Some(x) = self.cv(a) {
                    return self.c(x % y, w);
                }
                if y.is_power_of_two() {
                    let k = self.c(y - 1, w);
                    return self.and(a, k);
                }
                if self.n(a).hi < y {
                    return a;
                }
                let na = *self.n(a);
                if na.op == Op::Concat && self.cv(na.a) == Some(0) && y <= m(self.w(na.b)) {
                    let k = self.c(y, self.w(na.b));
                    let d = self.urem(na.b, k);
                    return self.concat(na.a, d);
                }
            }
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let top = 1u64 << (w - 1);
        if self.n(a).kz & top != 0 && self.n(b).kz & top != 0 {
            return self.udiv(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sx(x, w).wrapping_div(sx(y, w)) as u64, w);
            }
        }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let top = 1u64 << (w - 1);
        if self.n(a).kz & top != 0 && self.n(b).kz & top != 0 {
            return self.urem(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sx(x, w).wrapping_rem(sx(y, w)) as u64, w);
            }
        }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }

    pub fn shl_c(&mut self, a: E, s: u8) -> E {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c(0, w);
        }
        let x = self.extract(a, 0, w - s);
        let z = self.c(0, s);
        self.concat(x, z)
    }
    pub fn lshr_c(&mut self, a: E, s: u8) -> E {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.c(0, w);
        }
        let x = self.extract(a, s, w - s);
        let z = self.c(0, s);
        self.concat(z, x)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            return self.shl_c(a, s.min(w as u64) as u8);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            return self.lshr_c(a, s.min(w as u64) as u8);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.n(a).kz >> (w - 1) & 1 == 1 {
            return self.lshr(a, b);
        }
        if let Some(s) = self.cv(b) {
            let s = s.min(w as u64 - 1) as u8;
            if s == 0 {
                return a;
            }
            let x = self.extract(a, s, w - s);
            return self.sext(x, w);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x & y, w);
        }
        let (a, b) = self.ord(a, b);
        let (na, nb) = (*self.n(a), *self.n(b));
        if (na.kz | nb.kz) & m(w) == m(w) {
            return self.c(0, w);
        }
        if let Some(y) = self.cv(b) {
            if (y | na.kz) & m(w) == m(w) {
                return a;
            }
            if w > 1 {
                // split into runs
                let mut runs = vec![];
                let mut i = 0u8;
                while i < w {
                    let bit = y >> i & 1;
                    let s = i;
                    while i < w && y >> i & 1 == bit {
                        i += 1;
                    }
                    runs.push((bit, s, i - s));
                }
                if runs.len() <= 6 {
                    let mut r: Option<E> = None;
                    for (bit, s, l) in runs {
                        let p = if bit == 1 { self.extract(a, s, l) } else { self.c(0, l) };
                        r = Some(match r {
                            None => p,
                            Some(q) => self.concat(p, q),
                        });
                    }
                    return r.unwrap();
                }
            }
        }
        if w == 1 {
            // x & !x
            if self.is_not_of(a, b) {
                return self.f;
            }
            // absorption
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let na = self.n(a);
        let nb = self.n(b);
        (na.op == Op::Xor && na.w == 1 && na.a == b && self.cv(na.b) == Some(1)) || (nb.op == Op::Xor && nb.w == 1 && nb.a == a && self.cv(nb.b) == Some(1))
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x | y, w);
        }
        let (a, b) = self.ord(a, b);
        if self.cv(b) == Some(0) {
            return a;
        }
        if self.cv(b) == Some(m(w)) {
            return b;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if w == 1 {
            if self.is_not_of(a, b) {
                return self.t;
            }
            return self.mk(Op::Or, w, a, b, 0, 0);
        }
        // merge by segments: where one side is known zero take the other; where b is known one take ones
        {
            let mut runs: Vec<(u8, u8, u8)> = vec![];
            let mut ok = true;
            let mut i = 0u8;
            let kind = |i: u8| -> u8 {
                let bit = 1u64 << i;
                if na.kz & bit != 0 && nb.kz & bit != 0 {
                    0
                } else if nb.kz & bit != 0 {
                    1
                } else if na.kz & bit != 0 {
                    2
                } else if (na.ko | nb.ko) & bit != 0 {
                    3
                } else {
                    4
                }
            };
            while i < w {
                let k = kind(i);
                if k == 4 {
                    ok = false;
                    break;
                }
                let s = i;
                while i < w && kind(i) == k {
                    i += 1;
                }
                runs.push((k, s, i - s));
                if runs.len() > 8 {
                    ok = false;
                    break;
                }
            }
            if ok {
                let mut r: Option<E> = None;
                for (k, s, l) in runs {
                    let p = match k {
                        0 => self.c(0, l),
                        1 => self.extract(a, s, l),
                        2 => self.extract(b, s, l),
                        _ => self.c(u64::MAX, l),
                    };
                    r = Some(match r {
                        None => p,
                        Some(q) => self.concat(p, q),
                    });
                }
                return r.unwrap();
            }
        }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x ^ y, w);
        }
        let (a, b) = self.ord(a, b);
        let (na, nb) = (*self.n(a), *self.n(b));
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            if na.op == Op::Xor {
                if let Some(x) = self.cv(na.b) {
                    let k = self.c(x ^ y, w);
                    return self.xor(na.a, k);
                }
            }
            if na.op == Op::Ite {
                if let (Some(p), Some(q)) = (self.cv(na.b), self.cv(na.c)) {
                    let p = self.c(p ^ y, w);
                    let q = self.c(q ^ y, w);
                    return self.ite(na.a, p, q);
                }
            }
            if na.op == Op::Concat {
                let lw = self.w(na.b);
                let yl = self.c(y, lw);
                let yh = self.c(y >> lw, w - lw);
                let l = self.xor(na.b, yl);
                let h = self.xor(na.a, yh);
                return self.concat(h, l);
            }
            return self.mk(Op::Xor, w, a, b, 0, 0);
        }
        if na.op == Op::Xor {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
            if self.cv(na.b).is_some() {
                let s = self.xor(na.a, b);
                return self.xor(s, na.b);
            }
        }
        if nb.op == Op::Xor {
            if nb.a == a {
                return nb.b;
            }
            if nb.b == a {
                return nb.a;
            }
            if self.cv(nb.b).is_some() {
                let s = self.xor(a, nb.a);
                return self.xor(s, nb.b);
            }
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let l = self.xor(na.b, nb.b);
            let h = self.xor(na.a, nb.a);
            return self.concat(h, l);
        }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let k = self.c(u64::MAX, w);
        self.xor(a, k)
    }

    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        debug_assert!(w <= 64);
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Concat {
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        // fuse a with the head of b
        let (head, tail) = if nb.op == Op::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
        let nh = *self.n(head);
        let fused = if na.op == Op::Const && nh.op == Op::Const {
            Some(self.c(na.k << nh.w | nh.k, na.w + nh.w))
        } else if na.op == Op::Extract && nh.op == Op::Extract && na.a == nh.a && na.k == nh.k + nh.w as u64 {
            Some(self.extract(na.a, nh.k as u8, na.w + nh.w))
        } else if na.op == Op::Extract && na.a == head && na.k == nh.w as u64 {
            // extract(x, w..) ++ x where x itself is narrower cannot happen
            None
        } else if na.op == Op::Ite && nh.op == Op::Ite && na.a == nh.a {
            let x = self.concat(na.b, nh.b);
            let y = self.concat(na.c, nh.c);
            Some(self.ite(na.a, x, y))
        } else {
            None
        };
        if let Some(f) = fused {
            return match tail {
                Some(t) => self.concat(f, t),
                None => f,
            };
        }
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let z = self.c(0, w - wa);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = *self.n(a);
        let top = 1u64 << (wa - 1);
        if n.kz & top != 0 {
            return self.zext(a, w);
        }
        if n.ko & top != 0 {
            let o = self.c(u64::MAX, w - wa);
            return self.concat(o, a);
        }
        if wa == 1 {
            let p = self.c(u64::MAX, w);
            let q = self.c(0, w);
            return self.ite(a, p, q);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = *self.n(a);
        debug_assert!(lo + w <= n.w);
        if lo == 0 && w == n.w {
            return a;
        }
        // fully known
        let mm = m(w);
        let known = (n.kz | n.ko) >> lo & mm;
        if known == mm {
            return self.c(n.ko >> lo, w);
        }
        match n.op {
            Op::Const => self.c(n.k >> lo, w),
            Op::Extract => self.extract(n.a, n.k as u8 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, lo + w - lw);
                    self.concat(h, l)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.sext(x, w)
                } else {
                    let x = self.extract(n.a, iw - 1, 1);
                    self.sext(x, w)
                }
            }
            Op::And => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.and(x, y)
            }
            Op::Or => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.or(x, y)
            }
            Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.xor(x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                }
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
                self.mk(Op::Extract, w, a, 0, 0, lo as u64)
            }
            _ => self.mk(Op::Extract, w, a, 0, 0, lo as u64),
        }
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.t;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.b(x == y);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.hi < nb.lo || nb.hi < na.lo || na.kz & nb.ko != 0 || na.ko & nb.kz != 0 {
            return self.f;
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (a, b) = self.ord(a, b);
        if self.linear[a as usize] || self.linear[b as usize] {
            return self.lin_eq(a, b);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if let Some(y) = self.cv(b) {
            match na.op {
                Op::Add => {
                    if let Some(x) = self.cv(na.b) {
                        let k = self.c(y.wrapping_sub(x), w);
                        return self.eq(na.a, k);
                    }
                }
                Op::Sub => {
                    if let Some(x) = self.cv(na.a) {
                        let k = self.c(x.wrapping_sub(y), w);
                        return self.eq(na.b, k);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Xor => {
                    if let Some(x) = self.cv(na.b) {
                        let k = self.c(y ^ x, w);
                        return self.eq(na.a, k);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Concat => {
                    let lw = self.w(na.b);
                    let kl = self.c(y, lw);
                    let kh = self.c(y >> lw, w - lw);
                    let x = self.eq(na.a, kh);
                    if x == self.f {
                        return x;
                    }
                    let z = self.eq(na.b, kl);
                    return self.and(x, z);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let k = self.c(y, iw);
                    if sx(y & m(iw), iw) as u64 & m(w) == y {
                        return self.eq(na.a, k);
                    }
                    return self.f;
                }
                Op::Ite => {
                    let x = self.cv(na.b);
                    let z = self.cv(na.c);
                    if x.is_some() || z.is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                _ => {}
            }
        } else {
            if let Some(d) = self.try_sub(a, b, 4) {
                if let Some(d) = self.cv(d) {
                    return self.b(d == 0);
                }
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                if x == self.f {
                    return x;
                }
                let z = self.eq(na.b, nb.b);
                return self.and(x, z);
            }
            // same addend on both sides
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    // Linear forms over GF(2): each bit of an expression as the exclusive or of atoms (bits of
    // other expressions) and a constant (atom 0). Used to decide and to simplify equations between
    // values computed through affine tables, i.e. checksums.

    fn lin_atom(&mut self, e: E, bit: u8) -> Lin {
        if let Some(x) = self.lin_atoms.get(&(e, bit)) {
            return vec![*x].into();
        }
        let id = self.lin_atom_list.len() as u32;
        self.lin_atom_list.push((e, bit));
        self.lin_atoms.insert((e, bit), id);
        vec![id].into()
    }

    fn lin(&mut self, e: E) -> Rc<Vec<Lin>> {
        if let Some(r) = self.lin_memo.get(&e) {
            return r.clone();
        }
        let n = *self.n(e);
        let zero: Lin = Rc::from([]);
        let one: Lin = Rc::from([0u32]);
        let mut v: Vec<Lin> = match n.op {
            Op::Xor => {
                let (x, y) = (self.lin(n.a), self.lin(n.b));
                (0..n.w as usize).map(|i| lin_xor(&x[i], &y[i])).collect()
            }
            Op::Concat => {
                let mut r = (*self.lin(n.b)).clone();
                r.extend(self.lin(n.a).iter().cloned());
                r
            }
            Op::Extract => self.lin(n.a)[n.k as usize..n.k as usize + n.w as usize].to_vec(),
            Op::SExt => {
                let mut r = (*self.lin(n.a)).clone();
                let top = r[r.len() - 1].clone();
                r.resize(n.w as usize, top);
                r
            }
            Op::And | Op::Or => {
                let (na, nb) = (*self.n(n.a), *self.n(n.b));
                let (x, y) = (self.lin(n.a), self.lin(n.b));
                // bits that leave the other operand as it is
                let pass = |k: &Node, i: usize| (if n.op == Op::And { k.ko } else { k.kz }) >> i & 1 == 1;
                (0..n.w as usize)
                    .map(|i| {
                        if pass(&nb, i) {
                            x[i].clone()
                        } else if pass(&na, i) {
                            y[i].clone()
                        } else {
                            self.lin_atom(e, i as u8)
                        }
                    })
                    .collect()
            }
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let (p, q) = (self.cv(n.b).unwrap(), self.cv(n.c).unwrap());
                let x = self.lin(n.a)[0].clone();
                (0..n.w as usize)
                    .map(|j| {
                        let r = if q >> j & 1 == 1 { one.clone() } else { zero.clone() };
                        if (p ^ q) >> j & 1 == 1 { lin_xor(&r, &x) } else { r }
                    })
                    .collect()
            }
            Op::Lookup if self.table_affine[n.k as usize] => {
                let t = self.tables[n.k as usize].clone();
                let x = self.lin(n.a);
                let nb = t.len().trailing_zeros() as usize;
                (0..n.w as usize)
                    .map(|j| {
                        let mut r = if t[0] >> j & 1 == 1 { one.clone() } else { zero.clone() };
                        for b in 0..nb.min(x.len()) {
                            if (t[1 << b] ^ t[0]) >> j & 1 == 1 {
                                r = lin_xor(&r, &x[b]);
                            }
                        }
                        r
                    })
                    .collect()
            }
            _ => (0..n.w).map(|i| self.lin_atom(e, i)).collect(),
        };
        for i in 0..n.w as usize {
            if n.kz >> i & 1 == 1 {
                v[i] = zero.clone();
            } else if n.ko >> i & 1 == 1 {
                v[i] = one.clone();
            }
        }
        let r = Rc::new(v);
        self.lin_memo.insert(e, r.clone());
        r
    }

    fn lin_eq(&mut self, a: E, b: E) -> E {
        let (x, y) = (self.lin(a), self.lin(b));
        // reduced rows, by leading (largest) atom
        let mut rows: Vec<Lin> = vec![];
        for i in 0..x.len() {
            let mut r = lin_xor(&x[i], &y[i]);
            for q in &rows {
                let lead = q[q.len() - 1];
                if r.binary_search(&lead).is_ok() {
                    r = lin_xor(&r, q);
                }
            }
            if r.is_empty() {
                continue;
            }
            if r.len() == 1 && r[0] == 0 {
                return self.f;
            }
            let lead = r[r.len() - 1];
            for q in rows.iter_mut() {
                if q.binary_search(&lead).is_ok() {
                    *q = lin_xor(q, &r);
                }
            }
            rows.push(r);
        }
        rows.sort();
        let mut res = self.t;
        for r in rows {
            let mut p = self.t;
            for k in r.iter() {
                let bit = if *k == 0 {
                    self.t
                } else {
                    let (e, i) = self.lin_atom_list[*k as usize];
                    self.extract(e, i, 1)
                };
                p = self.xor(p, bit);
            }
            res = self.and(res, p);
        }
        res
    }

    pub fn ne(&mut self, a: E, b: E) -> E {
        let x = self.eq(a, b);
        self.not(x)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.hi < nb.lo {
            return self.t;
        }
        if na.lo >= nb.hi {
            return self.f;
        }
        let w = na.w;
        if w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        // strip common zero-extension
        if na.op == Op::Concat && self.cv(na.a).is_some() {
            let hc = self.cv(na.a).unwrap();
            let lw = self.w(na.b);
            if nb.op == Op::Concat && nb.a == na.a && self.w(nb.b) == lw {
                return self.ult(na.b, nb.b);
            }
            if let Some(y) = self.cv(b) {
                if y >> lw == hc {
                    let k = self.c(y, lw);
                    return self.ult(na.b, k);
                }
            }
        }
        if nb.op == Op::Concat {
            if let (Some(hc), Some(x)) = (self.cv(nb.a), self.cv(a)) {
                let lw = self.w(nb.b);
                if x >> lw == hc {
                    let k = self.c(x, lw);
                    return self.ult(k, nb.b);
                }
            }
        }
        // same high part
        if na.op == Op::Concat && nb.op == Op::Concat && na.a == nb.a && self.w(na.b) == self.w(nb.b) {
            return self.ult(na.b, nb.b);
        }
        if let Some(y) = self.cv(b) {
            if y == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            // low part all zero in y: only the high part matters
            if na.op == Op::Concat {
                let lw = self.w(na.b);
                if y & m(lw) == 0 {
                    let k = self.c(y >> lw, w - lw);
                    return self.ult(na.a, k);
                }
            }
            if na.op == Op::Ite {
                if self.cv(na.b).is_some() || self.cv(na.c).is_some() {
                    let p = self.ult(na.b, b);
                    let q = self.ult(na.c, b);
                    return self.ite(na.a, p, q);
                }
            }
        }
        if let Some(x) = self.cv(a) {
            if x == 0 {
                return self.ne(b, a);
            }
            if x == m(w) - 1 {
                let z = self.c(m(w), w);
                return self.eq(b, z);
            }
            if nb.op == Op::Concat {
                let lw = self.w(nb.b);
                if x & m(lw) == m(lw) {
                    let k = self.c(x >> lw, w - lw);
                    return self.ult(k, nb.a);
                }
            }
            if nb.op == Op::Ite {
                if self.cv(nb.b).is_some() || self.cv(nb.c).is_some() {
                    let p = self.ult(a, nb.b);
                    let q = self.ult(a, nb.c);
                    return self.ite(nb.a, p, q);
                }
            }
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f;
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.w;
        let top = 1u64 << (w - 1);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.b(sx(x, w) < sx(y, w));
        }
        let (az, ao) = (na.kz & top != 0, na.ko & top != 0);
        let (bz, bo) = (nb.kz & top != 0, nb.ko & top != 0);
        if (az && bz) || (ao && bo) {
            return self.ult(a, b);
        }
        if az && bo {
            return self.f;
        }
        if ao && bz {
            return self.t;
        }
        // sign tests
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cv(a) == Some(m(w)) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cv(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = *self.n(c);
        if nc.op == Op::Xor && self.cv(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // common parts of concatenations
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) && (na.a == nb.a || na.b == nb.b) {
            let h = self.ite(c, na.a, nb.a);
            let l = self.ite(c, na.b, nb.b);
            return self.concat(h, l);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    pub fn table(&mut self, key: (u64, u64, u32, u32), make: impl FnOnce() -> Vec<u64>) -> u32 {
        if let Some(t) = self.table_ids.get(&key) {
            return *t;
        }
        let t = self.tables.len() as u32;
        let v = make();
        let affine = v.len().is_power_of_two() && (0..v.len()).all(|i| {
            let mut x = v[0];
            let mut b = 1;
            while b < v.len() {
                if i & b != 0 {
                    x ^= v[b] ^ v[0];
                }
                b <<= 1;
            }
            x == v[i]
        });
        self.table_affine.push(affine);
        self.tables.push(Rc::new(v));
        self.table_ids.insert(key, t);
        self.table_hash.push(mix(mix(key.0, key.1), (key.2 as u64) << 32 | key.3 as u64));
        t
    }
    pub fn lookup(&mut self, table: u32, idx: E, w: u8) -> E {
        let t = self.tables[table as usize].clone();
        if let Some(i) = self.cv(idx) {
            return self.c(t[i as usize], w);
        }
        let n = self.n(idx);
        let first = t[n.lo as usize];
        if (n.lo..=n.hi.min(t.len() as u64 - 1)).all(|i| t[i as usize] == first) {
            return self.c(first, w);
        }
        self.mk(Op::Lookup, w, idx, 0, 0, table as u64)
    }

    pub fn fbin(&mut self, op: Op, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
            let r = match op {
                Op::FAdd => x + y,
                Op::FSub => x - y,
                Op::FMul => x * y,
                _ => x / y,
            };
            return self.c(r.to_bits(), 64);
        }
        self.mk(op, 64, a, b, 0, 0)
    }
    pub fn fcmp(&mut self, op: Op, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
            let r = match op {
                Op::FLt => x < y,
                Op::FLe => x <= y,
                _ => x == y,
            };
            return self.b(r);
        }
        let (al, ah) = self.frange(a, 12);
        let (bl, bh) = self.frange(b, 12);
        if al <= ah && bl <= bh {
            match op {
                Op::FLt => {
                    if ah < bl {
                        return self.t;
                    }
                    if al >= bh {
                        return self.f;
                    }
                }
                Op::FLe => {
                    if ah <= bl {
                        return self.t;
                    }
                    if al > bh {
                        return self.f;
                    }
                }
                _ => {
                    if ah < bl || bh < al {
                        return self.f;
                    }
                }
            }
        }
        self.mk(op, 1, a, b, 0, 0)
    }
    pub fn fun(&mut self, op: Op, a: E, w: u8) -> E {
        if let Some(x) = self.cv(a) {
            let aw = self.w(a);
            let r = self.fold_un(op, x, aw, w);
            return self.c(r, w);
        }
        self.mk(op, w, a, 0, 0, 0)
    }
    fn fold_un(&self, op: Op, x: u64, aw: u8, w: u8) -> u64 {
        match op {
            Op::FSqrt => f64::from_bits(x).sqrt().to_bits(),
            Op::FRound => f64::from_bits(x).round().to_bits(),
            Op::FTrunc => f64::from_bits(x).trunc().to_bits(),
            Op::FFloor => f64::from_bits(x).floor().to_bits(),
            Op::FCeil => f64::from_bits(x).ceil().to_bits(),
            Op::UIToFP => (x as f64).to_bits(),
            Op::SIToFP => (sx(x, aw) as f64).to_bits(),
            Op::FPToUISat => f64_to_u64_sat(f64::from_bits(x), w),
            Op::FPToSISat => f64_to_i64_sat(f64::from_bits(x), w),
            Op::Ctlz => {
                let z = if x == 0 { aw as u32 } else { x.leading_zeros() - (64 - aw as u32) };
                z as u64 & m(w)
            }
            Op::Ctpop => x.count_ones() as u64 & m(w),
            _ => unreachable!(),
        }
    }

    // ---------------------------------------------------------------- evaluation

    /// Value of the expression under an assignment of variables (missing ones are 0).
    pub fn eval(&mut self, e: E, model: &[u64]) -> u64 {
        self.begin_eval();
        self.eval_rec(e, model)
    }
    pub fn begin_eval(&mut self) {
        self.gen += 1;
        if self.stamp.len() < self.nodes.len() {
            let n = self.nodes.len() + self.nodes.len() / 4;
            self.stamp.resize(n, 0);
            self.vals.resize(n, 0);
        }
    }
    pub fn eval_rec(&mut self, e: E, model: &[u64]) -> u64 {
        let n = *self.n(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) & m(n.w),
            _ => {}
        }
        if self.stamp[e as usize] == self.gen {
            return self.vals[e as usize];
        }
        let w = n.w;
        let full = m(w);
        let v = match n.op {
            Op::Ite => {
                if self.eval_rec(n.a, model) == 1 {
                    self.eval_rec(n.b, model)
                } else {
                    self.eval_rec(n.c, model)
                }
            }
            _ => {
                let a = self.eval_rec(n.a, model);
                let b = if n.b != 0 { self.eval_rec(n.b, model) } else { 0 };
                let aw = self.w(n.a);
                match n.op {
                    Op::Add => a.wrapping_add(b) & full,
                    Op::Sub => a.wrapping_sub(b) & full,
                    Op::Mul => a.wrapping_mul(b) & full,
                    Op::UDiv => if b == 0 { full } else { a / b },
                    Op::URem => if b == 0 { a } else { a % b },
                    Op::SDiv => {
                        if b == 0 { if sx(a, w) < 0 { 1 } else { full } } else { sx(a, w).wrapping_div(sx(b, w)) as u64 & full }
                    }
                    Op::SRem => if b == 0 { a } else { sx(a, w).wrapping_rem(sx(b, w)) as u64 & full },
                    Op::Shl => if b >= w as u64 { 0 } else { a << b & full },
                    Op::LShr => if b >= w as u64 { 0 } else { a >> b },
                    Op::AShr => (sx(a, w) >> b.min(w as u64 - 1)) as u64 & full,
                    Op::And => a & b,
                    Op::Or => a | b,
                    Op::Xor => a ^ b,
                    Op::Concat => a << self.w(n.b) | b,
                    Op::Extract => a >> n.k & full,
                    Op::SExt => sx(a, aw) as u64 & full,
                    Op::Eq => (a == b) as u64,
                    Op::Ult => (a < b) as u64,
                    Op::Slt => (sx(a, aw) < sx(b, aw)) as u64,
                    Op::Lookup => self.tables[n.k as usize].get(a as usize).copied().unwrap_or(0),
                    Op::FAdd => (f64::from_bits(a) + f64::from_bits(b)).to_bits(),
                    Op::FSub => (f64::from_bits(a) - f64::from_bits(b)).to_bits(),
                    Op::FMul => (f64::from_bits(a) * f64::from_bits(b)).to_bits(),
                    Op::FDiv => (f64::from_bits(a) / f64::from_bits(b)).to_bits(),
                    Op::FLt => (f64::from_bits(a) < f64::from_bits(b)) as u64,
                    Op::FLe => (f64::from_bits(a) <= f64::from_bits(b)) as u64,
                    Op::FEq => (f64::from_bits(a) == f64::from_bits(b)) as u64,
                    op => self.fold_un(op, a, aw, w),
                }
            }
        };
        self.stamp[e as usize] = self.gen;
        self.vals[e as usize] = v;
        v
    }

    /// Sorted variable ordinals the expression depends on.
    pub fn support(&mut self, e: E) -> Rc<[u32]> {
        if self.supports.len() < self.nodes.len() {
            let n = self.nodes.len();
            self.supports.resize(n + n / 4, None);
        }
        self.support_rec(e)
    }
    fn support_rec(&mut self, e: E) -> Rc<[u32]> {
        if let Some(s) = &self.supports[e as usize] {
            return s.clone();
        }
        let n = *self.n(e);
        let r: Rc<[u32]> = match n.op {
            Op::Const => Rc::new([]),
            Op::Var => Rc::new([n.k as u32]),
            _ => {
                let mut best = self.support_rec(n.a);
                for x in [n.b, n.c] {
                    if x != 0 {
                        let s = self.support_rec(x);
                        best = merge_support(&best, &s);
                    }
                }
                best
            }
        };
        self.supports[e as usize] = Some(r.clone());
        r
    }

    pub fn has_fp(&self, e: E, seen: &mut FxMap<E, ()>) -> bool {
        if seen.insert(e, ()).is_some() {
            return false;
        }
        let n = self.n(e);
        if matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FRound | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FLt | Op::FLe | Op::FEq | Op::UIToFP | Op::SIToFP | Op::FPToUISat | Op::FPToSISat) {
            return true;
        }
        [n.a, n.b, n.c].iter().any(|x| *x != 0 && self.has_fp(*x, seen))
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}:{}", n.k, n.w),
            _ if depth == 0 => "…".to_string(),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.k, n.w),
            _ => {
                let mut s = format!("({:?}", n.op);
                for x in [n.a, n.b, n.c] {
                    if x != 0 {
                        s += " ";
                        s += &self.show(x, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}

pub fn merge_support(a: &Rc<[u32]>, b: &Rc<[u32]>) -> Rc<[u32]> {
    if a.len() >= b.len() && is_subset(b, a) {
        return a.clone();
    }
    if is_subset(a, b) {
        return b.clone();
    }
    let mut v = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i] < b[j]) {
            v.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j] < a[i] {
            v.push(b[j]);
            j += 1;
        } else {
            v.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    v.into()
}

fn is_subset(a: &[u32], b: &[u32]) -> bool {
    let mut j = 0;
    for x in a {
        while j < b.len() && b[j] < *x {
            j += 1;
        }
        if j >= b.len() || b[j] != *x {
            return false;
        }
    }
    true
}

/// Sorted atoms; 0 is the constant one.
type Lin = Rc<[u32]>;

fn lin_xor(a: &Lin, b: &Lin) -> Lin {
    if a.is_empty() {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] == b[j] {
            i += 1;
            j += 1;
        } else if a[i] < b[j] {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r.into()
}
