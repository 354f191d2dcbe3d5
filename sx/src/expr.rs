//! Hash-consed bit-vector expressions (width 1..=128) with eager simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Sym,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Not,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

pub type Mask = [u64; 4];

pub struct Arena {
    pub nodes: Vec<Node>,
    pub masks: Vec<Mask>,
    map: FxMap<Node, Id>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    cur: u32,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

/// Concrete semantics of the binary operators. Division by zero yields 0 (never reached by
/// rustc output, which guards it).
pub fn fold(op: Op, w: u8, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            masks: vec![],
            map: Default::default(),
            stamp: vec![],
            memo: vec![],
            cur: 0,
        };
        a.cst(1, 0);
        a.cst(1, 1);
        a
    }
    pub const FALSE: Id = 0;
    pub const TRUE: Id = 1;

    fn mk(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let id = self.nodes.len() as Id;
        let mut m = [0u64; 4];
        match n.op {
            Op::Const => {}
            Op::Sym => {
                let s = (n.k as usize).min(255);
                m[s / 64] |= 1 << (s % 64);
            }
            _ => {
                let ar: &[Id] = match n.op {
                    Op::Not | Op::Extract | Op::ZExt | Op::SExt => &[n.a],
                    Op::Ite => &[n.a, n.b, n.c],
                    _ => &[n.a, n.b],
                };
                for x in ar {
                    for i in 0..4 {
                        m[i] |= self.masks[*x as usize][i];
                    }
                }
            }
        }
        self.nodes.push(n);
        self.masks.push(m);
        self.stamp.push(0);
        self.memo.push(0);
        self.map.insert(n, id);
        id
    }
    #[inline]
    pub fn w(&self, i: Id) -> u8 {
        self.nodes[i as usize].w
    }
    #[inline]
    pub fn n(&self, i: Id) -> Node {
        self.nodes[i as usize]
    }
    #[inline]
    pub fn konst(&self, i: Id) -> Option<u128> {
        let n = &self.nodes[i as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn cst(&mut self, w: u8, k: u128) -> Id {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn sym(&mut self, w: u8, id: u32) -> Id {
        self.mk(Node { op: Op::Sym, w, a: 0, b: 0, c: 0, k: id as u128 })
    }
    fn un(&mut self, op: Op, w: u8, a: Id, k: u128) -> Id {
        self.mk(Node { op, w, a, b: 0, c: 0, k })
    }
    fn bn(&mut self, op: Op, w: u8, a: Id, b: Id) -> Id {
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }

    pub fn not1(&mut self, a: Id) -> Id {
        let n = self.n(a);
        debug_assert!(n.w == 1);
        match n.op {
            Op::Const => (n.k == 0) as Id,
            Op::Not => n.a,
            Op::Ult => self.bn(Op::Ule, 1, n.b, n.a),
            Op::Ule => self.bn(Op::Ult, 1, n.b, n.a),
            Op::Slt => self.bn(Op::Sle, 1, n.b, n.a),
            Op::Sle => self.bn(Op::Slt, 1, n.b, n.a),
            _ => self.un(Op::Not, 1, a, 0),
        }
    }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let ka = self.konst(a);
        let kb = self.konst(b);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = fold(op, w, x, y);
            return self.cst(rw, v);
        }
        // canonicalise constants to the right for commutative ops
        let (a, b, ka, kb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ka.is_some() || (kb.is_none() && a > b) {
                    (b, a, kb, ka)
                } else {
                    (a, b, ka, kb)
                }
            }
            _ => (a, b, ka, kb),
        };
        let m = mask(w);
        let na = self.n(a);
        // push an operation with a constant through an ite with constant arms
        if let Some(y) = kb {
            if na.op == Op::Ite {
                if let (Some(p), Some(q)) = (self.konst(na.b), self.konst(na.c)) {
                    let p = fold(op, w, p, y);
                    let q = fold(op, w, q, y);
                    let p = self.cst(rw, p);
                    let q = self.cst(rw, q);
                    return self.ite(na.a, p, q);
                }
            }
        }
        if let Some(x) = ka {
            let nb = self.n(b);
            if nb.op == Op::Ite {
                if let (Some(p), Some(q)) = (self.konst(nb.b), self.konst(nb.c)) {
                    let p = fold(op, w, x, p);
                    let q = fold(op, w, x, q);
                    let p = self.cst(rw, p);
                    let q = self.cst(rw, q);
                    return self.ite(nb.a, p, q);
                }
            }
        }
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let (Some(y), Op::Add) = (kb, na.op) {
                    if let Some(x) = self.konst(na.b) {
                        let k = self.cst(w, x.wrapping_add(y));
                        return self.bin(Op::Add, na.a, k);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = kb {
                    let k = self.cst(w, 0u128.wrapping_sub(y) & m);
                    return self.bin(Op::Add, a, k);
                }
            }
            Op::Mul => match kb {
                Some(0) => return b,
                Some(1) => return a,
                _ => {}
            },
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    // and with low mask -> zext(extract)
                    if (y & (y + 1)) == 0 {
                        let k = (128 - y.leading_zeros()) as u8;
                        let e = self.extract(a, k - 1, 0);
                        return self.zext(e, w);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let k = self.cst(iw, y);
                        let r = self.bin(Op::And, na.a, k);
                        return self.zext(r, w);
                    }
                    if na.op == Op::And {
                        if let Some(x) = self.konst(na.b) {
                            let k = self.cst(w, x & y);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                }
                if w == 1 {
                    let nb = self.n(b);
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return Self::FALSE;
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
                if w == 1 {
                    let nb = self.n(b);
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return Self::TRUE;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not1(a);
                    }
                    if na.op == Op::Xor {
                        if let Some(x) = self.konst(na.b) {
                            let k = self.cst(w, x ^ y);
                            return self.bin(Op::Xor, na.a, k);
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if ka == Some(0) {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if op != Op::AShr && y >= w as u128 {
                        return self.cst(w, 0);
                    }
                    if op == Op::Shl {
                        // shl as concat(extract, 0)
                        let y = y as u8;
                        let e = self.extract(a, w - 1 - y, 0);
                        let z = self.cst(y, 0);
                        return self.concat(e, z);
                    }
                    if op == Op::LShr {
                        let y = y as u8;
                        let e = self.extract(a, w - 1, y);
                        return self.zext(e, w);
                    }
                }
            }
            Op::UDiv | Op::SDiv => {
                if kb == Some(1) {
                    return a;
                }
            }
            Op::URem => {
                if kb == Some(1) {
                    return self.cst(w, 0);
                }
            }
            Op::Eq => {
                if a == b {
                    return Self::TRUE;
                }
                if let Some(y) = kb {
                    if w == 1 {
                        return if y == 1 { a } else { self.not1(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if y > mask(iw) {
                                return Self::FALSE;
                            }
                            let k = self.cst(iw, y);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let lo = y & mask(iw);
                            if (sext(lo, iw) as u128) & m != y {
                                return Self::FALSE;
                            }
                            let k = self.cst(iw, lo);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let kh = self.cst(hw, y >> lw);
                            let kl = self.cst(lw, y);
                            let x = self.bin(Op::Eq, na.a, kh);
                            if x == Self::FALSE {
                                return x;
                            }
                            let z = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, z);
                        }
                        Op::Add => {
                            if let Some(x) = self.konst(na.b) {
                                let k = self.cst(w, y.wrapping_sub(x));
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(x) = self.konst(na.b) {
                                let k = self.cst(w, y ^ x);
                                return self.bin(Op::Eq, na.a, k);
                            }
                            if y == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Ite => {
                            // ite(c, k1, e) == y
                            if let Some(p) = self.konst(na.b) {
                                let r = self.bin(Op::Eq, na.c, b);
                                return if p == y {
                                    self.bin(Op::Or, na.a, r)
                                } else {
                                    let nc = self.not1(na.a);
                                    self.bin(Op::And, nc, r)
                                };
                            }
                            if let Some(q) = self.konst(na.c) {
                                let r = self.bin(Op::Eq, na.b, b);
                                return if q == y {
                                    let nc = self.not1(na.a);
                                    self.bin(Op::Or, nc, r)
                                } else {
                                    self.bin(Op::And, na.a, r)
                                };
                            }
                        }
                        _ => {}
                    }
                }
                let nb = self.n(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult => {
                if a == b {
                    return Self::FALSE;
                }
                if kb == Some(0) || ka == Some(m) {
                    return Self::FALSE;
                }
                if kb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if let Some(y) = kb {
                        if y > mask(iw) {
                            return Self::TRUE;
                        }
                        let k = self.cst(iw, y);
                        return self.bin(Op::Ult, na.a, k);
                    }
                    let nb = self.n(b);
                    if nb.op == Op::ZExt && self.w(nb.a) == iw {
                        return self.bin(Op::Ult, na.a, nb.a);
                    }
                }
                let nb = self.n(b);
                if let (Some(x), Op::ZExt) = (ka, nb.op) {
                    let iw = self.w(nb.a);
                    if x >= mask(iw) {
                        return Self::FALSE;
                    }
                    let k = self.cst(iw, x);
                    return self.bin(Op::Ult, k, nb.a);
                }
            }
            Op::Ule => {
                // a <= b  ==  !(b < a)
                let r = self.bin(Op::Ult, b, a);
                return self.not1(r);
            }
            Op::Slt => {
                if a == b {
                    return Self::FALSE;
                }
                // zext with room for the sign bit: unsigned comparison
                let nb = self.n(b);
                let apos = na.op == Op::ZExt && self.w(na.a) < w || ka.map_or(false, |x| x >> (w - 1) == 0);
                let bpos = nb.op == Op::ZExt && self.w(nb.a) < w || kb.map_or(false, |x| x >> (w - 1) == 0);
                if apos && bpos {
                    return self.bin(Op::Ult, a, b);
                }
                if apos && kb.map_or(false, |x| x >> (w - 1) == 1) {
                    return Self::FALSE;
                }
                if bpos && ka.map_or(false, |x| x >> (w - 1) == 1) {
                    return Self::TRUE;
                }
            }
            Op::Sle => {
                let r = self.bin(Op::Slt, b, a);
                return self.not1(r);
            }
            _ => {}
        }
        self.bn(op, rw, a, b)
    }

    pub fn ite(&mut self, c: Id, t: Id, f: Id) -> Id {
        if c == Self::TRUE || t == f {
            return t;
        }
        if c == Self::FALSE {
            return f;
        }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(f));
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, f, t);
        }
        if w == 1 {
            match (self.konst(t), self.konst(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), _) => return self.bin(Op::Or, c, f),
                (Some(0), _) => {
                    let n = self.not1(c);
                    return self.bin(Op::And, n, f);
                }
                (_, Some(0)) => return self.bin(Op::And, c, t),
                (_, Some(1)) => {
                    let n = self.not1(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        let nt = self.n(t);
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, f);
        }
        let nf = self.n(f);
        if nf.op == Op::Ite && nf.a == c {
            return self.ite(c, t, nf.c);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: f, k: 0 })
    }

    pub fn extract(&mut self, a: Id, hi: u8, lo: u8) -> Id {
        let n = self.n(a);
        let w = hi - lo + 1;
        if w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, hi + n.k as u8, lo + n.k as u8),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                let e = self.extract(n.a, iw - 1, lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            Op::Ite => {
                let kb = self.konst(n.b).is_some();
                let kc = self.konst(n.c).is_some();
                if kb || kc {
                    let x = self.extract(n.b, hi, lo);
                    let y = self.extract(n.c, hi, lo);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.konst(n.b).is_some() {
                    let x = self.extract(n.a, hi, lo);
                    let y = self.extract(n.b, hi, lo);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Mul => {
                if lo == 0 && self.konst(n.b).is_some() {
                    let x = self.extract(n.a, hi, 0);
                    let y = self.extract(n.b, hi, 0);
                    return self.bin(n.op, x, y);
                }
            }
            _ => {}
        }
        self.un(Op::Extract, w, a, lo as u128)
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if self.konst(n.b).is_some() && self.konst(n.c).is_some() {
                    let x = self.zext(n.b, w);
                    let y = self.zext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.un(Op::ZExt, w, a, 0)
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => return self.cst(w, sext(n.k, n.w) as u128),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if self.konst(n.b).is_some() && self.konst(n.c).is_some() {
                    let x = self.sext(n.b, w);
                    let y = self.sext(n.c, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        if n.w == 1 {
            let x = self.cst(w, u128::MAX);
            let y = self.cst(w, 0);
            return self.ite(a, x, y);
        }
        self.un(Op::SExt, w, a, 0)
    }
    /// a is the high part
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let na = self.n(a);
        let nb = self.n(b);
        let w = na.w + nb.w;
        if na.op == Op::Const {
            if nb.op == Op::Const {
                return self.cst(w, (na.k << nb.w) | nb.k);
            }
            if na.k == 0 {
                return self.zext(b, w);
            }
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return self.extract(na.a, (na.k as u8) + na.w - 1, nb.k as u8);
        }
        // extract(x, hi, k) ++ x_low where nb is a trunc of the same zext base
        if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.concat(na.b, nb.b);
            let y = self.concat(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        if na.op == Op::ZExt {
            // zext(h) ++ l = zext(h ++ l)
            let iw = self.w(na.a);
            if iw as u16 + nb.w as u16 <= 128 {
                let c = self.concat(na.a, b);
                return self.zext(c, w);
            }
        }
        // (h ++ m) ++ l with m,l adjacent extracts
        if na.op == Op::Concat {
            let nm = self.n(na.b);
            if nm.op == Op::Extract && nb.op == Op::Extract && nm.a == nb.a && nm.k == nb.k + nb.w as u128 {
                let l = self.extract(nm.a, (nm.k as u8) + nm.w - 1, nb.k as u8);
                return self.concat(na.a, l);
            }
        }
        self.bn(Op::Concat, w, a, b)
    }

    /// Evaluate under a model (symbol id -> value; missing = 0).
    pub fn eval(&mut self, root: Id, model: &[u64]) -> u128 {
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            for s in self.stamp.iter_mut() {
                *s = 0;
            }
            self.cur = 1;
        }
        self.ev(root, model)
    }
    fn ev(&mut self, i: Id, model: &[u64]) -> u128 {
        let n = self.nodes[i as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Sym => return model.get(n.k as usize).copied().unwrap_or(0) as u128 & mask(n.w),
            _ => {}
        }
        if self.stamp[i as usize] == self.cur {
            return self.memo[i as usize];
        }
        let v = match n.op {
            Op::Not => 1 ^ self.ev(n.a, model),
            Op::Ite => {
                if self.ev(n.a, model) == 1 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, model) << lw) | self.ev(n.b, model)
            }
            Op::Extract => (self.ev(n.a, model) >> n.k) & mask(n.w),
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => {
                let iw = self.w(n.a);
                (sext(self.ev(n.a, model), iw) as u128) & mask(n.w)
            }
            op => {
                let w = self.w(n.a);
                let x = self.ev(n.a, model);
                let y = self.ev(n.b, model);
                fold(op, w, x, y)
            }
        };
        self.stamp[i as usize] = self.cur;
        self.memo[i as usize] = v;
        v
    }
}
