//! Hash-consed bit-vector expression DAG with constant folding, known-bits and
//! local simplification, plus an evaluator under a concrete model.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxMap<K, T> = HashMap<K, T, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Op {
    Const, Var, Not, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub lo: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub kz: u64, // bits known zero (w<=64)
    pub ko: u64, // bits known one (w<=64); const value
    pub vars: u64,
}

type Key = (Op, u8, u8, u32, u32, u32);

pub struct Pool {
    pub n: Vec<Node>,
    map: FxMap<Key, E>,
    cmap: FxMap<(u8, u64, u64), E>,
    emap: FxMap<(E, u32), E>,
    tmp_v: Vec<u128>,
    tmp_g: Vec<u32>,
    tmp_gen: u32,
    memo_v: Vec<u128>,
    memo_g: Vec<u32>,
    gen: u32,
    cur_model: u64,
}

pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn mask128(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sext(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
pub fn sext128(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn fold2(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask128(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; ((sext128(a, w) >> s) as u128) & m }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            n: vec![], map: Default::default(), cmap: Default::default(), emap: Default::default(), memo_v: vec![], memo_g: vec![], tmp_v: vec![], tmp_g: vec![], tmp_gen: 1,
            gen: 1, cur_model: u64::MAX,
        };
        p.cst(0, 1); // id 0 is never used as "symbolic"
        p
    }
    pub fn truncate(&mut self, len: usize) {
        for i in len..self.n.len() {
            let n = self.n[i];
            if n.op == Op::Const {
                let hi = (n.a as u64) | ((n.b as u64) << 32);
                self.cmap.remove(&(n.w, n.ko, hi));
            } else {
                self.map.remove(&(n.op, n.w, n.lo, n.a, n.b, n.c));
            }
        }
        self.emap.retain(|k, e| (k.0 as usize) < len && (*e as usize) < len);
        self.n.truncate(len);
        self.memo_v.truncate(len);
        self.memo_g.truncate(len);
        self.tmp_g.truncate(len);
        self.tmp_v.truncate(len);
        self.tmp_gen += 1;
        self.gen += 1;
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 { self.n[e as usize].w as u32 }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask128(w);
        let lo = v as u64;
        let hi = (v >> 64) as u64;
        if let Some(&e) = self.cmap.get(&(w as u8, lo, hi)) { return e; }
        let e = self.n.len() as E;
        self.n.push(Node { op: Op::Const, w: w as u8, lo: 0, a: hi as u32, b: (hi >> 32) as u32, c: 0, kz: !lo & mask(w), ko: lo, vars: 0 });
        self.cmap.insert((w as u8, lo, hi), e);
        e
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const { Some((n.ko as u128) | ((n.a as u128) << 64) | ((n.b as u128) << 96)) } else { None }
    }
    pub fn var(&mut self, idx: u32, w: u32) -> E {
        assert!(idx < 64);
        self.intern(Op::Var, w, 0, idx, 0, 0)
    }
    fn intern(&mut self, op: Op, w: u32, lo: u32, a: E, b: E, c: E) -> E {
        let key = (op, w as u8, lo as u8, a, b, c);
        if let Some(&e) = self.map.get(&key) { return e; }
        let (kz, ko) = if op == Op::Var { (0, 0) } else { self.known(op, w, lo, a, b, c) };
        if op != Op::Var && w <= 64 && (kz | ko) == mask(w) {
            return self.cst(ko as u128, w);
        }
        let vars = match op {
            Op::Var => 1u64 << a,
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => self.n[a as usize].vars,
            Op::Ite => self.n[a as usize].vars | self.n[b as usize].vars | self.n[c as usize].vars,
            _ => self.n[a as usize].vars | self.n[b as usize].vars,
        };
        let e = self.n.len() as E;
        self.n.push(Node { op, w: w as u8, lo: lo as u8, a, b, c, kz, ko, vars });
        self.map.insert(key, e);
        e
    }
    /// unsigned range from known bits
    fn range(&self, e: E) -> (u64, u64) {
        let n = &self.n[e as usize];
        (n.ko, !n.kz & mask(n.w as u32))
    }
    fn known(&self, op: Op, w: u32, lo: u32, a: E, b: E, c: E) -> (u64, u64) {
        if w > 64 { return (0, 0); }
        let m = mask(w);
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        let aw = na.w as u32;
        match op {
            Op::Not => (na.ko, na.kz),
            Op::And => (na.kz | nb.kz, na.ko & nb.ko),
            Op::Or => (na.kz & nb.kz, na.ko | nb.ko),
            Op::Xor => ((na.kz & nb.kz) | (na.ko & nb.ko), (na.kz & nb.ko) | (na.ko & nb.kz)),
            Op::Add => {
                // low known bits + leading zeros
                let maxa = !na.kz & m;
                let maxb = !nb.kz & m;
                let mut kz = 0;
                if let Some(s) = maxa.checked_add(maxb) { if s <= m { kz |= m & !fill(s); } }
                let ka = (na.kz | na.ko).trailing_ones().min(w);
                let kb = (nb.kz | nb.ko).trailing_ones().min(w);
                let k = ka.min(kb);
                let lm = mask(k) & m;
                let sum = na.ko.wrapping_add(nb.ko) & lm;
                let lm = if k == 0 { 0 } else { lm };
                (kz | (!sum & lm), sum & lm)
            }
            Op::Sub => {
                let ka = (na.kz | na.ko).trailing_ones().min(w);
                let kb = (nb.kz | nb.ko).trailing_ones().min(w);
                let k = ka.min(kb);
                let lm = if k == 0 { 0 } else { mask(k) & m };
                let s = na.ko.wrapping_sub(nb.ko) & lm;
                (!s & lm, s)
            }
            Op::Mul => {
                let maxa = !na.kz & m;
                let maxb = !nb.kz & m;
                let mut kz = 0;
                if let Some(s) = maxa.checked_mul(maxb) { if s <= m { kz |= m & !fill(s); } }
                let tz = (na.kz.trailing_ones().min(w) + nb.kz.trailing_ones().min(w)).min(w);
                kz |= if tz == 0 { 0 } else { mask(tz) };
                (kz & m, 0)
            }
            Op::UDiv => { (m & !fill(!na.kz & m), 0) }
            Op::URem => {
                let maxb = !nb.kz & m;
                let hi = (!na.kz & m).min(if nb.ko > 0 { maxb - 1 } else { m });
                (m & !fill(hi), 0)
            }
            Op::Shl => {
                if let Some(k) = self.as_const(b) {
                    if k >= w as u128 { return (m, 0); }
                    let k = k as u32;
                    (((na.kz << k) | if k == 0 { 0 } else { mask(k) }) & m, (na.ko << k) & m)
                } else {
                    let tz = na.kz.trailing_ones().min(w);
                    (if tz == 0 { 0 } else { mask(tz) & m }, 0)
                }
            }
            Op::LShr => {
                if let Some(k) = self.as_const(b) {
                    if k >= w as u128 { return (m, 0); }
                    let k = k as u32;
                    ((na.kz >> k) | (m & !(m >> k)), na.ko >> k)
                } else {
                    (m & !fill(!na.kz & m), 0)
                }
            }
            Op::ZExt => (na.kz | (m & !mask(aw)), na.ko),
            Op::SExt => {
                let hi = m & !mask(aw);
                let sb = 1u64 << (aw - 1);
                if na.kz & sb != 0 { (na.kz | hi, na.ko) } else if na.ko & sb != 0 { (na.kz, na.ko | hi) } else { (na.kz, na.ko) }
            }
            Op::Extract => if aw <= 64 { ((na.kz >> lo) & m, (na.ko >> lo) & m) } else { (0, 0) },
            Op::Concat => {
                let bw = nb.w as u32;
                ((na.kz << bw) | nb.kz, (na.ko << bw) | nb.ko)
            }
            Op::Ite => {
                let nc = self.n[c as usize];
                (nb.kz & nc.kz, nb.ko & nc.ko)
            }
            Op::Eq => if aw <= 64 && ((na.kz & nb.ko) | (na.ko & nb.kz)) != 0 { (1, 0) } else { (0, 0) },
            Op::Ult | Op::Ule if aw <= 64 => {
                let (al, ah) = self.range(a);
                let (bl, bh) = self.range(b);
                if op == Op::Ult {
                    if ah < bl { (0, 1) } else if al >= bh { (1, 0) } else { (0, 0) }
                } else if ah <= bl { (0, 1) } else if al > bh { (1, 0) } else { (0, 0) }
            }
            _ => (0, 0),
        }
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_const(a) { return self.cst(!k, w); }
        let n = self.n[a as usize];
        if n.op == Op::Not { return n.a; }
        if w == 1 {
            match n.op {
                Op::Ult => return self.bin(Op::Ule, n.b, n.a),
                Op::Ule => return self.bin(Op::Ult, n.b, n.a),
                Op::Slt => return self.bin(Op::Sle, n.b, n.a),
                Op::Sle => return self.bin(Op::Slt, n.b, n.a),
                _ => {}
            }
        }
        self.intern(Op::Not, w, 0, a, 0, 0)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, _ => w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(fold2(op, w, x, y), rw); }
        // canonical order for commutative ops: constant on the right
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        let (mut ca, mut cb) = (ca, cb);
        if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask128(w);
        let na = self.n[a as usize];
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb {
                    if na.op == Op::Add { if let Some(k2) = self.as_const(na.b) { let kk = self.cst(k.wrapping_add(k2), w); return self.bin(Op::Add, na.a, kk); } }
                    if na.op == Op::Ite {
                        if let (Some(x), Some(y)) = (self.as_const(na.b), self.as_const(na.c)) {
                            let x = self.cst(x.wrapping_add(k), w); let y = self.cst(y.wrapping_add(k), w);
                            return self.ite(na.a, x, y);
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if let Some(k) = cb { let kk = self.cst(k.wrapping_neg() & m, w); return self.bin(Op::Add, a, kk); }
                // (x + b) - b
                if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.cst(k.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, s); } }
            }
            Op::UDiv => {
                if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.cst(k.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, s); } }
            }
            Op::URem => {
                if let Some(k) = cb { if k.is_power_of_two() { let s = self.cst(k - 1, w); return self.bin(Op::And, a, s); } }
            }
            Op::And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if a == b { return a; }
                if w <= 64 {
                    if let Some(k) = cb {
                        let k = k as u64;
                        if (!na.kz & mask(w)) & !k == 0 { return a; }
                        if na.op == Op::And { if let Some(k2) = self.as_const(na.b) { let kk = self.cst(k2 & k as u128, w); return self.bin(Op::And, na.a, kk); } }
                        // low mask -> zext(extract)
                        if k != 0 && (k & (k + 1)) == 0 && w > 1 {
                            let bits = k.trailing_ones();
                            if bits < w { let x = self.extract(a, bits - 1, 0); return self.zext(x, w); }
                        }
                    }
                    // zext & zext of same inner width
                    let nb = self.n[b as usize];
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(Op::And, na.a, nb.a); return self.zext(x, w);
                    }
                }
                if w == 1 {
                    let nb = self.n[b as usize];
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.cst(0, 1); }
                }
            }
            Op::Or => {
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if a == b { return a; }
                if w <= 64 {
                    let nb = self.n[b as usize];
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(Op::Or, na.a, nb.a); return self.zext(x, w);
                    }
                    // or of disjoint (hi << k) | zext(lo) -> concat
                    for (x, y) in [(na, nb), (nb, na)] {
                        if x.op == Op::Shl && y.op == Op::ZExt {
                            if let Some(k) = self.as_const(x.b) {
                                let k = k as u32;
                                if k < w && self.w(y.a) == k {
                                    let hi = self.extract(x.a, w - k - 1, 0);
                                    return self.concat(hi, y.a);
                                }
                            }
                        }
                    }
                }
                if w == 1 {
                    let nb = self.n[b as usize];
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) { return self.cst(1, 1); }
                }
            }
            Op::Xor => {
                if cb == Some(0) { return a; }
                if cb == Some(m) { return self.not(a); }
                if a == b { return self.cst(0, w); }
                if w <= 64 && cb.is_none() {
                    let nb = self.n[b as usize];
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        let x = self.bin(Op::Xor, na.a, nb.a); return self.zext(x, w);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a; }
                if ca == Some(0) { return a; }
                if let Some(k) = cb {
                    if k < w as u128 {
                        let k = k as u32;
                        if op == Op::LShr {
                            let x = self.extract(a, w - 1, k);
                            return self.zext(x, w);
                        }
                        if na.op == op && op == Op::Shl {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.cst((k as u128 + k2).min(w as u128), w);
                                return self.bin(op, na.a, kk);
                            }
                        }
                    } else if op != Op::AShr { return self.cst(0, w); }
                }
            }
            Op::Eq => {
                if a == b { return self.cst(1, 1); }
                if w == 1 {
                    if cb == Some(1) { return a; }
                    if cb == Some(0) { return self.not(a); }
                }
                if let Some(k) = cb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask128(iw) { return self.cst(0, 1); }
                            let kk = self.cst(k, iw);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let kk = k & mask128(iw);
                            if (sext128(kk, iw) as u128) & m != k { return self.cst(0, 1); }
                            let kk = self.cst(kk, iw);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Add => if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(k.wrapping_sub(k2), w);
                            return self.bin(Op::Eq, na.a, kk);
                        },
                        Op::Xor => if let Some(k2) = self.as_const(na.b) {
                            let kk = self.cst(k ^ k2, w);
                            return self.bin(Op::Eq, na.a, kk);
                        },
                        Op::Not => { let kk = self.cst(!k, w); return self.bin(Op::Eq, na.a, kk); }
                        Op::Shl => if let Some(s) = self.as_const(na.b) {
                            // (x << s) == k, when no bits are lost
                            let s = s as u32;
                            if w <= 64 && s < w {
                                let nx = self.n[na.a as usize];
                                let hi = mask(w) & !(mask(w) >> s);
                                if nx.kz & hi == hi {
                                    if k & mask128(s) != 0 { return self.cst(0, 1); }
                                    let kk = self.cst(k >> s, w);
                                    return self.bin(Op::Eq, na.a, kk);
                                }
                            }
                        },
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kl = self.cst(k, lw);
                            let kh = self.cst(k >> lw, w - lw);
                            let x = self.bin(Op::Eq, na.a, kh);
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                            if x.is_some() || y.is_some() {
                                let ex = self.bin(Op::Eq, na.b, b);
                                let ey = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, ex, ey);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n[b as usize];
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (x, y) = (na.a, nb.a);
                        let (wx, wy) = (self.w(x), self.w(y));
                        let t = wx.max(wy);
                        if t < w {
                            let x = self.zext(x, t); let y = self.zext(y, t);
                            return self.bin(Op::Eq, x, y);
                        }
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a); }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.cst((op == Op::Ule) as u128, 1); }
                let nb = self.n[b as usize];
                let wa = if na.op == Op::ZExt { self.w(na.a) } else if let Some(k) = ca { 128 - k.leading_zeros() } else { w };
                let wb = if nb.op == Op::ZExt { self.w(nb.a) } else if let Some(k) = cb { 128 - k.leading_zeros() } else { w };
                let t = wa.max(wb).max(1);
                if t < w {
                    let x = if ca.is_some() { self.cst(ca.unwrap(), t) } else { self.zext(na.a, t) };
                    let y = if cb.is_some() { self.cst(cb.unwrap(), t) } else { self.zext(nb.a, t) };
                    return self.bin(op, x, y);
                }
                if op == Op::Ult {
                    if cb == Some(0) { return self.cst(0, 1); }
                    if cb == Some(1) { let z = self.cst(0, w); return self.bin(Op::Eq, a, z); }
                    if ca == Some(m) { return self.cst(0, 1); }
                } else {
                    if ca == Some(0) { return self.cst(1, 1); }
                    if cb == Some(m) { return self.cst(1, 1); }
                    if cb == Some(0) { return self.bin(Op::Eq, a, b); }
                }
                if w == 1 {
                    return if op == Op::Ult { let x = self.not(a); self.bin(Op::And, x, b) } else { let x = self.not(a); self.bin(Op::Or, x, b) };
                }
                // ite-of-constants against constant
                if cb.is_some() && na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                    let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b);
                    return self.ite(na.a, x, y);
                }
                if ca.is_some() && nb.op == Op::Ite && self.as_const(nb.b).is_some() && self.as_const(nb.c).is_some() {
                    let x = self.bin(op, a, nb.b); let y = self.bin(op, a, nb.c);
                    return self.ite(nb.a, x, y);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.cst((op == Op::Sle) as u128, 1); }
                if w <= 64 {
                    let nb = self.n[b as usize];
                    let sb = 1u64 << (w - 1);
                    if (na.kz & sb != 0 && nb.kz & sb != 0) || (na.ko & sb != 0 && nb.ko & sb != 0) {
                        return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                    }
                    if na.kz & sb != 0 && nb.ko & sb != 0 { return self.cst(0, 1); }
                    if na.ko & sb != 0 && nb.kz & sb != 0 { return self.cst(1, 1); }
                    if cb.is_some() && na.op == Op::Ite && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                        let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
            }
            _ => {}
        }
        self.intern(op, rw, 0, a, b, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(k) = self.as_const(c) { return if k != 0 { a } else { b }; }
        let w = self.w(a);
        let nc = self.n[c as usize];
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => { let x = self.not(c); return self.bin(Op::And, x, b); }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => { let x = self.not(c); return self.bin(Op::Or, x, a); }
                _ => {}
            }
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let x = self.ite(c, na.a, nb.a);
            return self.zext(x, w);
        }
        self.intern(Op::Ite, w, 0, c, a, b)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.as_const(a) { return self.cst(k, w); }
        let n = self.n[a as usize];
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        self.intern(Op::ZExt, w, 0, a, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(k) = self.as_const(a) { return self.cst(sext128(k, aw) as u128, w); }
        let n = self.n[a as usize];
        if aw <= 64 && n.kz >> (aw - 1) & 1 == 1 { return self.zext(a, w); }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        self.intern(Op::SExt, w, 0, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, hi: u32, lo: u32) -> E {
        let aw = self.w(a);
        let w = hi - lo + 1;
        if w == aw { return a; }
        if let Some(k) = self.as_const(a) { return self.cst(k >> lo, w); }
        // terms are shared: without this, pushing an extraction down takes exponential time
        let key = (a, (hi << 16) | lo);
        if let Some(&e) = self.emap.get(&key) { return e; }
        let e = self.extract_new(a, hi, lo, w);
        self.emap.insert(key, e);
        e
    }
    fn extract_new(&mut self, a: E, hi: u32, lo: u32, w: u32) -> E {
        let n = self.n[a as usize];
        match n.op {
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.cst(0, w); }
                if hi < iw { return self.extract(n.a, hi, lo); }
                let x = self.extract(n.a, iw - 1, lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw { return self.extract(n.a, hi, lo); }
            }
            Op::Extract => return self.extract(n.a, n.lo as u32 + hi, n.lo as u32 + lo),
            Op::Concat => {
                let bw = self.w(n.b);
                if hi < bw { return self.extract(n.b, hi, lo); }
                if lo >= bw { return self.extract(n.a, hi - bw, lo - bw); }
                let x = self.extract(n.a, hi - bw, 0);
                let y = self.extract(n.b, bw - 1, lo);
                return self.concat(x, y);
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, hi, lo);
                let y = self.extract(n.b, hi, lo);
                return self.bin(n.op, x, y);
            }
            Op::Not => { let x = self.extract(n.a, hi, lo); return self.not(x); }
            Op::Add | Op::Mul | Op::Sub if lo == 0 => {
                let x = self.extract(n.a, hi, 0);
                let y = self.extract(n.b, hi, 0);
                return self.bin(n.op, x, y);
            }
            Op::Shl => {
                if let Some(k) = self.as_const(n.b) {
                    let k = k as u32;
                    if lo >= k { return self.extract(n.a, hi - k, lo - k); }
                    if hi < k { return self.cst(0, w); }
                    let x = self.extract(n.a, hi - k, 0);
                    let z = self.cst(0, k - lo);
                    return self.concat(x, z);
                }
            }
            _ => {}
        }
        self.intern(Op::Extract, w, lo, a, 0, 0)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.cst((x << wb) | y, wa + wb); }
        if self.as_const(a) == Some(0) { return self.zext(b, wa + wb); }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        // adjacent extracts of the same value
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.lo as u32 == nb.lo as u32 + wb {
            return self.extract(na.a, na.lo as u32 + wa - 1, nb.lo as u32);
        }
        if na.op == Op::Extract && na.lo as u32 == wb && na.a == b && false { return b; }
        self.intern(Op::Concat, wa + wb, 0, a, b, 0)
    }
    pub fn set_model(&mut self, id: u64) {
        if self.cur_model != id { self.cur_model = id; self.gen += 1; }
    }
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.n[e as usize];
        if n.op == Op::Const { return self.as_const(e).unwrap(); }
        if self.memo_g.len() < self.n.len() {
            self.memo_g.resize(self.n.len(), 0);
            self.memo_v.resize(self.n.len(), 0);
        }
        if self.memo_g[e as usize] == self.gen { return self.memo_v[e as usize]; }
        let w = n.w as u32;
        let v = match n.op {
            Op::Const => unreachable!(),
            Op::Var => (model.get(n.a as usize).copied().unwrap_or(0) & mask(w)) as u128,
            Op::Not => !self.eval(n.a, model) & mask128(w),
            Op::Ite => if self.eval(n.a, model) != 0 { self.eval(n.b, model) } else { self.eval(n.c, model) },
            Op::Concat => { let bw = self.w(n.b); (self.eval(n.a, model) << bw) | self.eval(n.b, model) }
            Op::Extract => (self.eval(n.a, model) >> n.lo) & mask128(w),
            Op::ZExt => self.eval(n.a, model),
            Op::SExt => { let aw = self.w(n.a); (sext128(self.eval(n.a, model), aw) as u128) & mask128(w) }
            op => { let aw = self.w(n.a); let x = self.eval(n.a, model); let y = self.eval(n.b, model); fold2(op, aw, x, y) }
        };
        self.memo_v[e as usize] = v;
        self.memo_g[e as usize] = self.gen;
        v
    }
    /// evaluation with a memo of its own, for assignments other than the state's model
    pub fn new_tmp(&mut self) { self.tmp_gen += 1; }
    pub fn eval_tmp(&mut self, e: E, model: &[u64]) -> u128 { self.new_tmp(); self.eval_memo(e, model) }
    pub fn eval_memo(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.n[e as usize];
        if n.op == Op::Const { return self.as_const(e).unwrap(); }
        if self.tmp_g.len() < self.n.len() {
            self.tmp_g.resize(self.n.len(), 0);
            self.tmp_v.resize(self.n.len(), 0);
        }
        if self.tmp_g[e as usize] == self.tmp_gen { return self.tmp_v[e as usize]; }
        let w = n.w as u32;
        let v = match n.op {
            Op::Const => unreachable!(),
            Op::Var => (model.get(n.a as usize).copied().unwrap_or(0) & mask(w)) as u128,
            Op::Not => !self.eval_memo(n.a, model) & mask128(w),
            Op::Ite => if self.eval_memo(n.a, model) != 0 { self.eval_memo(n.b, model) } else { self.eval_memo(n.c, model) },
            Op::Concat => { let bw = self.w(n.b); (self.eval_memo(n.a, model) << bw) | self.eval_memo(n.b, model) }
            Op::Extract => (self.eval_memo(n.a, model) >> n.lo) & mask128(w),
            Op::ZExt => self.eval_memo(n.a, model),
            Op::SExt => { let aw = self.w(n.a); (sext128(self.eval_memo(n.a, model), aw) as u128) & mask128(w) }
            op => { let aw = self.w(n.a); let x = self.eval_memo(n.a, model); let y = self.eval_memo(n.b, model); fold2(op, aw, x, y) }
        };
        self.tmp_v[e as usize] = v;
        self.tmp_g[e as usize] = self.tmp_gen;
        v
    }
}
fn fill(x: u64) -> u64 { if x == 0 { 0 } else { !0u64 >> x.leading_zeros() } }
