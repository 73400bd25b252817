//! Hash-consed bit-vector expressions with a simplifier.
//!
//! Widths are 1..=128.  A width-1 expression doubles as a boolean.
//! Everything lives in one process-global arena (the engine is single threaded per process).

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    /// Const: value; Var: index; Extract: low bit
    pub k: u128,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

/// Support sets: which symbolic input bytes an expression depends on (at most 256).
pub type Sup = [u64; 4];

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<Sup>,
    map: FxMap<Node, E>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    cur: u32,
    /// truth tables of width-1 expressions over a single input byte
    tables: FxMap<E, [u64; 4]>,
    substs: FxMap<(E, Box<[u8]>), E>,
}

static mut ARENA: Option<Arena> = None;

#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_none() {
            ARENA = Some(Arena {
                nodes: vec![],
                sup: vec![],
                map: FxMap::default(),
                stamp: vec![],
                memo: vec![],
                cur: 0,
                tables: FxMap::default(),
                substs: FxMap::default(),
            });
            // node 0 is reserved (0 means "concrete" in object overlays)
            let a = ARENA.as_mut().unwrap();
            a.mk(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        }
        ARENA.as_mut().unwrap()
    }
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

impl Arena {
    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as E;
        let mut s: Sup = [0; 4];
        match n.op {
            Op::Const => {}
            Op::Var => s[(n.k >> 6) as usize] |= 1 << (n.k & 63),
            _ => {
                let kids: &[E] = match n.op {
                    Op::Ite => &[n.a, n.b, n.c],
                    Op::Extract | Op::ZExt | Op::SExt => &[n.a],
                    _ => &[n.a, n.b],
                };
                for k in kids {
                    for i in 0..4 {
                        s[i] |= self.sup[*k as usize][i];
                    }
                }
            }
        }
        self.nodes.push(n);
        self.sup.push(s);
        self.stamp.push(0);
        self.memo.push(0);
        self.map.insert(n, id);
        id
    }

    /// Evaluate under a concrete assignment of the input bytes (memoized per call).
    pub fn show(&self, e: E, d: u32) -> String {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{:#x}", n.k),
            Op::Var => format!("v{}", n.k),
            _ if d == 0 => "..".into(),
            Op::Extract => format!("x{}[{}]({})", n.w, n.k, self.show(n.a, d - 1)),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
    /// e with the bytes in `pin` replaced by their values in m.
    pub fn subst(&mut self, e: E, pin: &Sup, m: &[u8]) -> E {
        let mut key = Vec::new();
        let s = self.sup[e as usize];
        for v in 0..m.len() {
            if s[v >> 6] & pin[v >> 6] & (1 << (v & 63)) != 0 {
                key.push(v as u8);
                key.push(m[v]);
            }
        }
        let full = (e, key.into_boxed_slice());
        if let Some(r) = self.substs.get(&full) {
            return *r;
        }
        let mut memo = FxMap::default();
        let r = self.subst_rec(e, pin, m, &mut memo);
        self.substs.insert(full, r);
        r
    }
    fn subst_rec(&mut self, e: E, pin: &Sup, m: &[u8], memo: &mut FxMap<E, E>) -> E {
        let s = self.sup[e as usize];
        if (0..4).all(|i| s[i] & pin[i] == 0) {
            return e;
        }
        if (0..4).all(|i| s[i] & !pin[i] == 0) {
            let w = self.nodes[e as usize].w;
            return cst(self.eval(e, m), w);
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = self.nodes[e as usize];
        let r = match n.op {
            Op::Const | Op::Var => e,
            Op::Ite => {
                let c = self.subst_rec(n.a, pin, m, memo);
                match is_const(c) {
                    Some(0) => self.subst_rec(n.c, pin, m, memo),
                    Some(_) => self.subst_rec(n.b, pin, m, memo),
                    None => {
                        let t = self.subst_rec(n.b, pin, m, memo);
                        let f = self.subst_rec(n.c, pin, m, memo);
                        ite(c, t, f)
                    }
                }
            }
            Op::Extract => extract(self.subst_rec(n.a, pin, m, memo), n.k as u16, n.w),
            Op::ZExt => zext(self.subst_rec(n.a, pin, m, memo), n.w),
            Op::SExt => sextend(self.subst_rec(n.a, pin, m, memo), n.w),
            Op::Concat => {
                let a = self.subst_rec(n.a, pin, m, memo);
                let b = self.subst_rec(n.b, pin, m, memo);
                concat(a, b)
            }
            _ => {
                let a = self.subst_rec(n.a, pin, m, memo);
                let b = self.subst_rec(n.b, pin, m, memo);
                bin(n.op, a, b)
            }
        };
        memo.insert(e, r);
        r
    }
    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        self.cur += 1;
        if self.cur == 0 {
            self.stamp.iter_mut().for_each(|s| *s = 0);
            self.cur = 1;
        }
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m.get(n.k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.stamp[e as usize] == self.cur {
            return self.memo[e as usize];
        }
        let r = match n.op {
            Op::Ite => {
                if self.ev(n.a, m) != 0 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            Op::Extract => (self.ev(n.a, m) >> n.k) & mask(n.w),
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => {
                let aw = self.nodes[n.a as usize].w;
                (sext(self.ev(n.a, m), aw) as u128) & mask(n.w)
            }
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w;
                (self.ev(n.a, m) << lw) | self.ev(n.b, m)
            }
            _ => {
                let aw = self.nodes[n.a as usize].w;
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                fold(n.op, aw, a, b)
            }
        };
        self.stamp[e as usize] = self.cur;
        self.memo[e as usize] = r;
        r
    }

    /// 256-entry truth table of a width-1 expression whose support is exactly one byte.
    pub fn table(&mut self, e: E, var: usize) -> [u64; 4] {
        if let Some(t) = self.tables.get(&e) {
            return *t;
        }
        let mut t = [0u64; 4];
        let mut m = vec![0u8; var + 1];
        for v in 0..256usize {
            m[var] = v as u8;
            if self.eval(e, &m) != 0 {
                t[v >> 6] |= 1 << (v & 63);
            }
        }
        self.tables.insert(e, t);
        t
    }
}

pub fn fold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                if sext(a, w) >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (sext(a, w).wrapping_div(sext(b, w)) as u128) & m
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                (sext(a, w).wrapping_rem(sext(b, w)) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

#[inline]
pub fn node(e: E) -> Node {
    ar().nodes[e as usize]
}
#[inline]
pub fn width(e: E) -> u16 {
    ar().nodes[e as usize].w
}
pub fn cst(k: u128, w: u16) -> E {
    ar().mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
}
pub fn var(i: usize) -> E {
    assert!(i < 256, "too many symbolic bytes");
    ar().mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
}
#[inline]
pub fn is_const(e: E) -> Option<u128> {
    let n = node(e);
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}
fn raw(op: Op, w: u16, a: E, b: E, c: E, k: u128) -> E {
    ar().mk(Node { op, w, a, b, c, k })
}

pub fn not(e: E) -> E {
    // width-1 negation
    debug_assert_eq!(width(e), 1);
    bin(Op::Xor, e, cst(1, 1))
}

fn neg_cmp(n: &Node) -> Option<E> {
    // !(a<b) = b<=a
    match n.op {
        Op::Ult => Some(raw(Op::Ule, 1, n.b, n.a, 0, 0)),
        Op::Ule => Some(raw(Op::Ult, 1, n.b, n.a, 0, 0)),
        Op::Slt => Some(raw(Op::Sle, 1, n.b, n.a, 0, 0)),
        Op::Sle => Some(raw(Op::Slt, 1, n.b, n.a, 0, 0)),
        _ => None,
    }
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    assert_eq!(w, nb.w, "width mismatch in {:?}", op);
    let rw = match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
        _ => w,
    };
    if na.op == Op::Const && nb.op == Op::Const {
        return cst(fold(op, w, na.k, nb.k), rw);
    }
    let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
    // constants to the right
    if commut && na.op == Op::Const {
        return bin(op, b, a);
    }
    let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
    let ka = if na.op == Op::Const { Some(na.k) } else { None };
    let m = mask(w);
    match op {
        Op::Add => {
            if kb == Some(0) {
                return a;
            }
            if let Some(k) = kb {
                if na.op == Op::Add {
                    if let Some(k2) = is_const(na.b) {
                        return bin(Op::Add, na.a, cst(k.wrapping_add(k2), w));
                    }
                }
                if na.op == Op::Ite && is_const(na.b).is_some() && is_const(na.c).is_some() {
                    return ite(na.a, bin(op, na.b, b), bin(op, na.c, b));
                }
            }
        }
        Op::Sub => {
            if kb == Some(0) {
                return a;
            }
            if a == b {
                return cst(0, w);
            }
            if let Some(k) = kb {
                return bin(Op::Add, a, cst(k.wrapping_neg(), w));
            }
            // (x + k) - x
            if na.op == Op::Add && na.a == b {
                return na.b;
            }
            if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                return bin(Op::Sub, na.b, nb.b);
            }
        }
        Op::Mul => {
            if kb == Some(0) {
                return b;
            }
            if kb == Some(1) {
                return a;
            }
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Op::Shl, a, cst(k.trailing_zeros() as u128, w));
                }
            }
        }
        Op::UDiv => {
            if kb == Some(1) {
                return a;
            }
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Op::LShr, a, cst(k.trailing_zeros() as u128, w));
                }
            }
        }
        Op::URem => {
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(Op::And, a, cst(k - 1, w));
                }
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if let Some(k) = kb {
                if k == 0 {
                    return b;
                }
                if k == m {
                    return a;
                }
                if na.op == Op::And {
                    if let Some(k2) = is_const(na.b) {
                        return bin(Op::And, na.a, cst(k & k2, w));
                    }
                }
                if na.op == Op::ZExt && w > 1 {
                    let iw = width(na.a);
                    return zext(bin(Op::And, na.a, cst(k, iw)), w);
                }
                if na.op == Op::Ite && is_const(na.b).is_some() && is_const(na.c).is_some() {
                    return ite(na.a, bin(op, na.b, b), bin(op, na.c, b));
                }
                // low mask
                if (k & (k + 1)) == 0 {
                    let lw = k.trailing_ones() as u16;
                    return zext(extract(a, 0, lw), w);
                }
            }
            if w == 1 && is_not_of(a, b) {
                return cst(0, 1);
            }
            // x & (x & y)
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if k == m {
                    return b;
                }
                if na.op == Op::Ite && is_const(na.b).is_some() && is_const(na.c).is_some() {
                    return ite(na.a, bin(op, na.b, b), bin(op, na.c, b));
                }
            }
            if w == 1 && is_not_of(a, b) {
                return cst(1, 1);
            }
            // disjoint concat patterns: (zext x) | (y << k) with k >= width x
            if let Some(r) = or_concat(a, b).or_else(|| or_concat(b, a)) {
                return r;
            }
        }
        Op::Xor => {
            if a == b {
                return cst(0, w);
            }
            if kb == Some(0) {
                return a;
            }
            if w == 1 && kb == Some(1) {
                if na.op == Op::Xor && is_const(na.b) == Some(1) {
                    return na.a;
                }
                if let Some(r) = neg_cmp(&na) {
                    return r;
                }
            }
            if let Some(k) = kb {
                if na.op == Op::Xor {
                    if let Some(k2) = is_const(na.b) {
                        return bin(Op::Xor, na.a, cst(k ^ k2, w));
                    }
                }
                if na.op == Op::Ite && is_const(na.b).is_some() && is_const(na.c).is_some() {
                    return ite(na.a, bin(op, na.b, b), bin(op, na.c, b));
                }
            }
        }
        Op::Shl => {
            if kb == Some(0) {
                return a;
            }
            if let Some(k) = kb {
                if k >= w as u128 {
                    return cst(0, w);
                }
                let k = k as u16;
                return concat(extract(a, 0, w - k), cst(0, k));
            }
            if ka == Some(0) {
                return a;
            }
        }
        Op::LShr => {
            if kb == Some(0) {
                return a;
            }
            if let Some(k) = kb {
                if k >= w as u128 {
                    return cst(0, w);
                }
                let k = k as u16;
                return zext(extract(a, k, w - k), w);
            }
            if ka == Some(0) {
                return a;
            }
        }
        Op::AShr => {
            if kb == Some(0) {
                return a;
            }
            if let Some(k) = kb {
                let k = (k.min(w as u128 - 1)) as u16;
                return sextend(extract(a, k, w - k), w);
            }
        }
        Op::Eq => {
            if a == b {
                return cst(1, 1);
            }
            if w == 1 {
                if let Some(k) = kb {
                    return if k == 1 { a } else { not(a) };
                }
            }
            if let Some(k) = kb {
                match na.op {
                    Op::ZExt => {
                        let iw = width(na.a);
                        if k > mask(iw) {
                            return cst(0, 1);
                        }
                        return bin(Op::Eq, na.a, cst(k, iw));
                    }
                    Op::SExt => {
                        let iw = width(na.a);
                        let t = k & mask(iw);
                        if (sext(t, iw) as u128) & m != k {
                            return cst(0, 1);
                        }
                        return bin(Op::Eq, na.a, cst(t, iw));
                    }
                    Op::Concat => {
                        let lw = width(na.b);
                        let hw = width(na.a);
                        return bin(
                            Op::And,
                            bin(Op::Eq, na.a, cst(k >> lw, hw)),
                            bin(Op::Eq, na.b, cst(k, lw)),
                        );
                    }
                    Op::Add => {
                        if let Some(k2) = is_const(na.b) {
                            return bin(Op::Eq, na.a, cst(k.wrapping_sub(k2), w));
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = is_const(na.b) {
                            return bin(Op::Eq, na.a, cst(k ^ k2, w));
                        }
                        if k == 0 {
                            return bin(Op::Eq, na.a, na.b);
                        }
                    }
                    Op::Sub => {
                        if k == 0 {
                            return bin(Op::Eq, na.a, na.b);
                        }
                    }
                    Op::Ite => {
                        let (t, f) = (bin(Op::Eq, na.b, b), bin(Op::Eq, na.c, b));
                        if is_const(t).is_some() || is_const(f).is_some() {
                            return ite(na.a, t, f);
                        }
                    }
                    _ => {}
                }
            } else if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) {
                return bin(Op::Eq, na.a, nb.a);
            }
        }
        Op::Ult => {
            if a == b {
                return cst(0, 1);
            }
            if kb == Some(0) {
                return cst(0, 1);
            }
            if kb == Some(1) {
                return bin(Op::Eq, a, cst(0, w));
            }
            if ka == Some(m) {
                return cst(0, 1);
            }
            if ka == Some(0) {
                return not(bin(Op::Eq, b, cst(0, w)));
            }
            if let Some(r) = cmp_narrow(op, a, b, &na, &nb) {
                return r;
            }
        }
        Op::Ule => {
            if a == b {
                return cst(1, 1);
            }
            if ka == Some(0) || kb == Some(m) {
                return cst(1, 1);
            }
            if kb == Some(0) {
                return bin(Op::Eq, a, b);
            }
            if let Some(r) = cmp_narrow(op, a, b, &na, &nb) {
                return r;
            }
        }
        Op::Slt | Op::Sle => {
            if a == b {
                return cst((op == Op::Sle) as u128, 1);
            }
            let uop = if op == Op::Slt { Op::Ult } else { Op::Ule };
            // both non-negative: unsigned compare
            if nonneg(&na, w) && nonneg(&nb, w) {
                return bin(uop, a, b);
            }
            if nonneg(&na, w) && kb.map_or(false, |k| sext(k, w) < 0) {
                return cst(0, 1);
            }
            if nonneg(&nb, w) && ka.map_or(false, |k| sext(k, w) < 0) {
                return cst(1, 1);
            }
            if na.op == Op::Ite && kb.is_some() && is_const(na.b).is_some() && is_const(na.c).is_some() {
                return ite(na.a, bin(op, na.b, b), bin(op, na.c, b));
            }
            if nb.op == Op::Ite && ka.is_some() && is_const(nb.b).is_some() && is_const(nb.c).is_some() {
                return ite(nb.a, bin(op, a, nb.b), bin(op, a, nb.c));
            }
            if na.op == Op::Ite && kb.is_some() {
                let (t, f) = (bin(op, na.b, b), bin(op, na.c, b));
                if is_const(t).is_some() || is_const(f).is_some() {
                    return ite(na.a, t, f);
                }
            }
            if na.op == Op::SExt {
                let iw = width(na.a);
                if let Some(k) = kb {
                    let t = k & mask(iw);
                    if (sext(t, iw) as u128) & m == k {
                        return bin(op, na.a, cst(t, iw));
                    }
                }
                if nb.op == Op::SExt && width(nb.a) == iw {
                    return bin(op, na.a, nb.a);
                }
            }
        }
        _ => {}
    }
    if commut && kb.is_none() && a > b {
        return raw(op, rw, b, a, 0, 0);
    }
    raw(op, rw, a, b, 0, 0)
}

fn nonneg(n: &Node, w: u16) -> bool {
    match n.op {
        Op::Const => sext(n.k, w) >= 0,
        Op::ZExt => true,
        Op::Concat => is_const(n.a) == Some(0),
        _ => false,
    }
}

fn is_not_of(a: E, b: E) -> bool {
    let n = node(a);
    if n.op == Op::Xor && n.a == b && is_const(n.b) == Some(1) {
        return true;
    }
    let n = node(b);
    n.op == Op::Xor && n.a == a && is_const(n.b) == Some(1)
}

fn cmp_narrow(op: Op, a: E, b: E, na: &Node, nb: &Node) -> Option<E> {
    let w = na.w;
    let one = |big: &Node, k: u128| -> Option<(E, u16, bool)> {
        if big.op == Op::ZExt {
            let iw = width(big.a);
            Some((big.a, iw, k > mask(iw)))
        } else {
            None
        }
    };
    if nb.op == Op::Const {
        if let Some((x, iw, over)) = one(na, nb.k) {
            if over {
                return Some(cst(1, 1)); // x < k, always
            }
            return Some(bin(op, x, cst(nb.k, iw)));
        }
        if na.op == Op::Ite {
            let (t, f) = (bin(op, na.b, b), bin(op, na.c, b));
            if is_const(t).is_some() || is_const(f).is_some() {
                return Some(ite(na.a, t, f));
            }
        }
    }
    if na.op == Op::Const {
        if let Some((x, iw, over)) = one(nb, na.k) {
            if over {
                return Some(cst(0, 1)); // k < x never
            }
            return Some(bin(op, cst(na.k, iw), x));
        }
        if nb.op == Op::Ite {
            let (t, f) = (bin(op, a, nb.b), bin(op, a, nb.c));
            if is_const(t).is_some() || is_const(f).is_some() {
                return Some(ite(nb.a, t, f));
            }
        }
    }
    if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) {
        return Some(bin(op, na.a, nb.a));
    }
    let _ = w;
    None
}

fn or_concat(lo: E, hi: E) -> Option<E> {
    // lo has zero top bits, hi has zero low bits
    let (nl, nh) = (node(lo), node(hi));
    let w = nl.w;
    if nh.op != Op::Concat || is_const(nh.b) != Some(0) {
        return None;
    }
    let z = width(nh.b);
    match nl.op {
        Op::ZExt if width(nl.a) <= z => Some(concat(nh.a, zext(nl.a, z))),
        Op::Const if nl.k <= mask(z) => Some(concat(nh.a, cst(nl.k, z))),
        Op::Concat if width(nl.b) <= z && is_const(nl.a) == Some(0) => {
            let l = extract(lo, 0, z);
            let _ = w;
            Some(concat(nh.a, l))
        }
        _ => None,
    }
}

pub fn concat(hi: E, lo: E) -> E {
    let (nh, nl) = (node(hi), node(lo));
    let w = nh.w + nl.w;
    assert!(w <= 128, "concat too wide");
    if nh.op == Op::Const && nl.op == Op::Const {
        return cst((nh.k << nl.w) | nl.k, w);
    }
    if nh.op == Op::Const && nh.k == 0 {
        return zext(lo, w);
    }
    if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
        return extract(nh.a, nl.k as u16, w);
    }
    // x ++ extract where the low part is itself a plain value and the high part extracts above it
    if nh.op == Op::Extract && nh.k == nl.w as u128 {
        // hi = extract(y, k..), lo = extract-simplified low bits of y (e.g. concat/zext low)
        let l = extract(nh.a, 0, nl.w);
        if l == lo {
            return extract(nh.a, 0, w);
        }
    }
    if nl.op == Op::Concat {
        let m = node(nl.a);
        if nh.op == Op::Extract && m.op == Op::Extract && nh.a == m.a && nh.k == m.k + m.w as u128 {
            let j = extract(nh.a, m.k as u16, nh.w + m.w);
            return concat(j, nl.b);
        }
        if nh.op == Op::Const && m.op == Op::Const {
            let j = cst((nh.k << m.w) | m.k, nh.w + m.w);
            return concat(j, nl.b);
        }
    }
    if nh.op == Op::ZExt {
        return zext(concat(nh.a, lo), w);
    }
    raw(Op::Concat, w, hi, lo, 0, 0)
}

pub fn extract(e: E, lo: u16, w: u16) -> E {
    let n = node(e);
    debug_assert!(lo + w <= n.w);
    if lo == 0 && w == n.w {
        return e;
    }
    match n.op {
        Op::Const => cst(n.k >> lo, w),
        Op::Extract => extract(n.a, lo + n.k as u16, w),
        Op::Concat => {
            let lw = width(n.b);
            if lo >= lw {
                extract(n.a, lo - lw, w)
            } else if lo + w <= lw {
                extract(n.b, lo, w)
            } else {
                let l = extract(n.b, lo, lw - lo);
                let h = extract(n.a, 0, w - (lw - lo));
                concat(h, l)
            }
        }
        Op::ZExt => {
            let iw = width(n.a);
            if lo >= iw {
                cst(0, w)
            } else if lo + w <= iw {
                extract(n.a, lo, w)
            } else {
                zext(extract(n.a, lo, iw - lo), w)
            }
        }
        Op::SExt => {
            let iw = width(n.a);
            if lo + w <= iw {
                extract(n.a, lo, w)
            } else if lo == 0 {
                sextend(n.a, w)
            } else {
                raw(Op::Extract, w, e, 0, 0, lo as u128)
            }
        }
        Op::Ite => {
            let (t, f) = (extract(n.b, lo, w), extract(n.c, lo, w));
            ite(n.a, t, f)
        }
        Op::And | Op::Or | Op::Xor => bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w)),
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            bin(n.op, extract(n.a, 0, w), extract(n.b, 0, w))
        }
        _ => raw(Op::Extract, w, e, 0, 0, lo as u128),
    }
}

pub fn zext(e: E, w: u16) -> E {
    let n = node(e);
    if w == n.w {
        return e;
    }
    assert!(w > n.w);
    match n.op {
        Op::Const => cst(n.k, w),
        Op::ZExt => zext(n.a, w),
        Op::Ite if is_const(n.b).is_some() && is_const(n.c).is_some() && n.w > 1 => {
            ite(n.a, zext(n.b, w), zext(n.c, w))
        }
        _ => raw(Op::ZExt, w, e, 0, 0, 0),
    }
}
pub fn sextend(e: E, w: u16) -> E {
    let n = node(e);
    if w == n.w {
        return e;
    }
    assert!(w > n.w);
    match n.op {
        Op::Const => cst(sext(n.k, n.w) as u128, w),
        Op::SExt => sextend(n.a, w),
        Op::ZExt => zext(n.a, w),
        _ if n.w == 1 => ite(e, cst(u128::MAX, w), cst(0, w)),
        Op::Ite if is_const(n.b).is_some() && is_const(n.c).is_some() => {
            ite(n.a, sextend(n.b, w), sextend(n.c, w))
        }
        _ => raw(Op::SExt, w, e, 0, 0, 0),
    }
}

pub fn ite(c: E, t: E, f: E) -> E {
    let nc = node(c);
    debug_assert_eq!(nc.w, 1);
    if nc.op == Op::Const {
        return if nc.k != 0 { t } else { f };
    }
    if t == f {
        return t;
    }
    let (nt, nf) = (node(t), node(f));
    let w = nt.w;
    assert_eq!(w, nf.w);
    // normalise negated conditions
    if nc.op == Op::Xor && is_const(nc.b) == Some(1) {
        return ite(nc.a, f, t);
    }
    if w == 1 {
        match (is_const(t), is_const(f)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, f),
            (Some(0), None) => return bin(Op::And, not(c), f),
            (None, Some(1)) => return bin(Op::Or, not(c), t),
            (None, Some(0)) => return bin(Op::And, c, t),
            _ => {}
        }
    }
    if nt.op == Op::Ite && nt.a == c {
        return ite(c, nt.b, f);
    }
    if nf.op == Op::Ite && nf.a == c {
        return ite(c, t, nf.c);
    }
    if nf.op == Op::Ite && nf.b == t {
        return ite(bin(Op::Or, c, nf.a), t, nf.c);
    }
    if nt.op == Op::Ite && nt.c == f {
        return ite(bin(Op::And, c, nt.a), nt.b, f);
    }
    raw(Op::Ite, w, c, t, f, 0)
}

/// The single byte variable an expression depends on, if it is exactly one.
pub fn single_var(e: E) -> Option<usize> {
    let s = ar().sup[e as usize];
    let n: u32 = s.iter().map(|x| x.count_ones()).sum();
    if n != 1 {
        return None;
    }
    for i in 0..4 {
        if s[i] != 0 {
            return Some(i * 64 + s[i].trailing_zeros() as usize);
        }
    }
    None
}
