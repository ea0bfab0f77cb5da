//! Hash-consed bit-vector expressions with construction-time simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, bytes: &[u8]) { for &b in bytes { self.write_u64(b as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Op {
    Var, Const, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub var1: u16, // the only variable (index), or MULTI / NOVAR
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64, // constant value / extract low bit / var index
    pub sup: u64,
    pub shape: E, // for single-var nodes: same expression over the canonical variable of that width
    pub umin: u64,
    pub umax: u64,
}
pub const MULTI: u16 = 0xffff;
pub const NOVAR: u16 = 0xfffe;
const NOSHAPE: E = u32::MAX;

pub fn mask(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
pub fn sext64(v: u64, w: u16) -> i64 { if w >= 64 { v as i64 } else { let s = 64 - w; ((v << s) as i64) >> s } }

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key(Op, u16, E, E, E, u64);

pub struct Ctx {
    pub n: Vec<Node>,
    map: FxMap<Key, E>,
    pub vars: Vec<E>,       // var index -> node
    canon: FxMap<u16, E>,   // width -> canonical variable
    memo: Vec<(u32, u64)>,  // evaluation cache: (model id, value)
    pub canon_base: u64,
}

pub const CANON_VAR: u64 = 1 << 40;

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { n: Vec::new(), map: Default::default(), vars: vec![], canon: Default::default(), memo: vec![], canon_base: CANON_VAR }
    }
    #[inline] pub fn w(&self, e: E) -> u16 { self.n[e as usize].w }
    #[inline] pub fn node(&self, e: E) -> &Node { &self.n[e as usize] }
    #[inline] pub fn is_const(&self, e: E) -> Option<u64> { let n = &self.n[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }

    pub fn konst(&mut self, v: u64, w: u16) -> E {
        debug_assert!(w <= 64);
        let v = v & mask(w);
        let key = Key(Op::Const, w, 0, 0, 0, v);
        if let Some(&e) = self.map.get(&key) { return e; }
        let e = self.n.len() as E;
        self.n.push(Node { op: Op::Const, w, var1: NOVAR, a: 0, b: 0, c: 0, k: v, sup: 0, shape: e, umin: v, umax: v });
        self.map.insert(key, e);
        e
    }
    fn canon_var(&mut self, w: u16) -> E {
        if let Some(&e) = self.canon.get(&w) { return e; }
        let e = self.n.len() as E;
        self.n.push(Node { op: Op::Var, w, var1: NOVAR, a: 0, b: 0, c: 0, k: CANON_VAR + w as u64, sup: 0, shape: e, umin: 0, umax: mask(w) });
        self.canon.insert(w, e);
        e
    }
    /// Variable number `idx` with width `w` (created on first use).
    pub fn var(&mut self, idx: usize, w: u16) -> E {
        let key = Key(Op::Var, w, 0, 0, 0, idx as u64);
        if let Some(&e) = self.map.get(&key) { return e; }
        let shape = self.canon_var(w);
        let e = self.n.len() as E;
        self.n.push(Node { op: Op::Var, w, var1: idx as u16, a: 0, b: 0, c: 0, k: idx as u64, sup: 1u64 << (idx % 64), shape, umin: 0, umax: mask(w) });
        self.map.insert(key, e);
        e
    }

    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u64) -> E {
        let key = Key(op, w, a, b, c, k);
        if let Some(&e) = self.map.get(&key) { return e; }
        let nargs = match op { Op::Ite => 3, Op::Extract | Op::ZExt | Op::SExt => 1, _ => 2 };
        let (mut sup, mut v1) = (0u64, NOVAR);
        let args = [a, b, c];
        for &x in &args[..nargs] {
            let n = &self.n[x as usize];
            sup |= n.sup;
            v1 = match (v1, n.var1) { (x, NOVAR) => x, (NOVAR, y) => y, (x, y) if x == y => x, _ => MULTI };
        }
        let shape = if v1 == MULTI { NOSHAPE } else if v1 == NOVAR { NOSHAPE } else {
            let s: Vec<E> = args[..nargs].iter().map(|&x| self.n[x as usize].shape).collect();
            // build without simplification so that equal shapes mean equal expressions up to renaming
            self.mk_raw(op, w, s[0], *s.get(1).unwrap_or(&0), *s.get(2).unwrap_or(&0), k)
        };
        let (umin, umax) = self.range(op, w, a, b, c, k);
        let e = self.n.len() as E;
        self.n.push(Node { op, w, var1: v1, a, b, c, k, sup, shape: if shape == NOSHAPE { e } else { shape }, umin, umax });
        self.map.insert(key, e);
        e
    }
    fn mk_raw(&mut self, op: Op, w: u16, a: E, b: E, c: E, k: u64) -> E {
        let key = Key(op, w, a, b, c, k);
        if let Some(&e) = self.map.get(&key) { return e; }
        let (umin, umax) = self.range(op, w, a, b, c, k);
        let e = self.n.len() as E;
        self.n.push(Node { op, w, var1: NOVAR, a, b, c, k, sup: 0, shape: e, umin, umax });
        self.map.insert(key, e);
        e
    }

    fn range(&self, op: Op, w: u16, a: E, b: E, c: E, k: u64) -> (u64, u64) {
        if w > 64 { return (0, u64::MAX); }
        let na = &self.n[a as usize];
        let nb = &self.n[b as usize];
        if op == Op::Ite { let nc = &self.n[c as usize]; return (nb.umin.min(nc.umin), nb.umax.max(nc.umax)); }
        let two = !matches!(op, Op::Extract | Op::ZExt | Op::SExt);
        if na.w > 64 || (two && nb.w > 64) { return (0, mask(w)); }
        range_op(op, w, na.w, nb.w, (na.umin, na.umax), (nb.umin, nb.umax), k)
    }

    // ---- constructors ----
    pub fn not(&mut self, a: E) -> E {
        // boolean negation of a 1-bit expression
        let n = self.n[a as usize];
        match n.op {
            Op::Const => return self.konst(n.k ^ 1, 1),
            Op::Xor if n.w == 1 => { if let Some(1) = self.is_const(n.b) { return n.a; } }
            Op::Ult => return self.cmp(Op::Ule, n.b, n.a),
            Op::Ule => return self.cmp(Op::Ult, n.b, n.a),
            Op::Slt => return self.cmp(Op::Sle, n.b, n.a),
            Op::Sle => return self.cmp(Op::Slt, n.b, n.a),
            _ => {}
        }
        let one = self.konst(1, 1);
        self.mk(Op::Xor, 1, a, one, 0, 0)
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if w > 64 { return self.mk(op, w, a, b, 0, 0); }
        let m = mask(w);
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = fold(op, w, x, y) { return self.konst(v, w); }
        }
        // canonical: constant on the right for commutative ops
        if ca.is_some() && cb.is_none() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) { return self.bin(op, b, a); }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if na.op == Op::Add { if let Some(x) = self.is_const(na.b) { let k = self.konst(x.wrapping_add(y), w); return self.bin(Op::Add, na.a, k); } }
                    if na.op == Op::Sub { if let Some(x) = self.is_const(na.a) { let k = self.konst(x.wrapping_add(y), w); return self.bin(Op::Sub, k, na.b); } }
                    if na.op == Op::Ite { return self.ite_map(op, na, b, w); }
                }
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
                if na.op == Op::Sub && na.b == b { return na.a; }
                if cb.is_none() && a > b { return self.mk(op, w, b, a, 0, 0); }
            }
            Op::Sub => {
                if a == b { return self.konst(0, w); }
                if cb == Some(0) { return a; }
                if let Some(y) = cb { let k = self.konst(0u64.wrapping_sub(y), w); return self.bin(Op::Add, a, k); }
                if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
            }
            Op::Mul => {
                match cb { Some(0) => return b, Some(1) => return a, _ => {} }
                if let Some(y) = cb {
                    if na.op == Op::Mul { if let Some(x) = self.is_const(na.b) { let k = self.konst(x.wrapping_mul(y), w); return self.bin(Op::Mul, na.a, k); } }
                }
                if w == 1 { return self.bin(Op::And, a, b); }
            }
            Op::And => {
                if a == b { return a; }
                if cb == Some(0) { return b; }
                if let Some(y) = cb {
                    if y == m { return a; }
                    // all bits a may have lie within y when y+1 is a power of two above umax
                    if y & y.wrapping_add(1) == 0 && na.umax <= y { return a; }
                    // low mask -> zext(extract)
                    if y & (y + 1) == 0 && y != 0 && w > 1 {
                        let k = y.count_ones() as u16;
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    if na.op == Op::And { if let Some(x) = self.is_const(na.b) { let k = self.konst(x & y, w); return self.bin(Op::And, na.a, k); } }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let k = self.konst(y, iw);
                        let r = self.bin(Op::And, na.a, k);
                        return self.zext(r, w);
                    }
                    if na.op == Op::Ite { let (ni, nc) = (self.is_const(na.b), self.is_const(na.c)); if ni.is_some() && nc.is_some() { return self.ite_map(op, na, b, w); } }
                }
                if cb.is_none() && a > b { return self.mk(op, w, b, a, 0, 0); }
            }
            Op::Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if w > 1 {
                    // or of disjoint pieces: concat
                    if let Some(r) = self.or_concat(a, b, w) { return r; }
                    if let Some(r) = self.or_concat(b, a, w) { return r; }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(Op::Or, na.a, nb.a);
                    return self.zext(r, w);
                }
                if cb.is_none() && a > b { return self.mk(op, w, b, a, 0, 0); }
            }
            Op::Xor => {
                if a == b { return self.konst(0, w); }
                if cb == Some(0) { return a; }
                if w == 1 && cb == Some(1) { return self.not(a); }
                if let Some(y) = cb {
                    if na.op == Op::Xor { if let Some(x) = self.is_const(na.b) { let k = self.konst(x ^ y, w); return self.bin(Op::Xor, na.a, k); } }
                    if na.op == Op::ZExt && y <= mask(self.w(na.a)) { let iw = self.w(na.a); let k = self.konst(y, iw); let r = self.bin(Op::Xor, na.a, k); return self.zext(r, w); }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    let r = self.bin(Op::Xor, na.a, nb.a);
                    return self.zext(r, w);
                }
                if cb.is_none() && a > b { return self.mk(op, w, b, a, 0, 0); }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    if y >= w as u64 { return self.konst(0, w); }
                    let hi = self.extract(a, 0, w - y as u16);
                    let z = self.konst(0, y as u16);
                    return self.concat(hi, z);
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    if y >= w as u64 { return self.konst(0, w); }
                    let x = self.extract(a, y as u16, w - y as u16);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 { return a; }
                    let y = y.min(w as u64 - 1);
                    let x = self.extract(a, y as u16, w - y as u16);
                    return self.sext(x, w);
                }
            }
            Op::UDiv | Op::URem => {
                if let Some(y) = cb {
                    if y == 1 { return if op == Op::UDiv { a } else { self.konst(0, w) }; }
                    if y != 0 {
                        if na.umax < y { return if op == Op::UDiv { self.konst(0, w) } else { a }; }
                        if y.is_power_of_two() {
                            let s = y.trailing_zeros() as u64;
                            let k = if op == Op::UDiv { self.konst(s, w) } else { self.konst(y - 1, w) };
                            return self.bin(if op == Op::UDiv { Op::LShr } else { Op::And }, a, k);
                        }
                        if let Some(r) = self.lin_div(op, a, y, w) { return r; }
                        // narrow the division
                        let need = (64 - na.umax.max(y).leading_zeros()) as u16;
                        if need < w {
                            let x = self.extract(a, 0, need);
                            let k = self.konst(y, need);
                            let r = self.mk(op, need, x, k, 0, 0);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            Op::SDiv | Op::SRem => {
                if na.umax <= m >> 1 && nb.umax <= m >> 1 && nb.umin > 0 {
                    return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
            }
            _ => {}
        }
        self.mk(op, w, a, b, 0, 0)
    }

    fn ite_map(&mut self, op: Op, n: Node, b: E, w: u16) -> E {
        let x = self.bin(op, n.b, b);
        let y = self.bin(op, n.c, b);
        let _ = w;
        self.ite(n.a, x, y)
    }

    // a = ...zeros in the low bits (concat(hi, 0)), b fits in the low bits
    fn or_concat(&mut self, a: E, b: E, w: u16) -> Option<E> {
        let na = self.n[a as usize];
        if na.op == Op::Concat {
            if let Some(0) = self.is_const(na.b) {
                let lw = self.w(na.b);
                if self.n[b as usize].umax <= mask(lw) {
                    let lo = self.extract(b, 0, lw);
                    return Some(self.concat(na.a, lo));
                }
            }
            // a = zext-like concat(0, concat(hi, 0)) is normalised to zext; handled below
        }
        if na.op == Op::ZExt {
            let ia = na.a;
            let ni = self.n[ia as usize];
            if ni.op == Op::Concat {
                if let Some(0) = self.is_const(ni.b) {
                    let lw = self.w(ni.b);
                    if self.n[b as usize].umax <= mask(lw) {
                        let lo = self.extract(b, 0, lw);
                        let r = self.concat(ni.a, lo);
                        return Some(self.zext(r, w));
                    }
                }
            }
        }
        None
    }

    // Linear view of `e` without wrap-around: sum of coef*term + k with every partial maximum within the width.
    fn linear(&self, e: E, coef: u64, out: &mut Vec<(u64, E)>, k: &mut u64, depth: u32) -> bool {
        let n = self.n[e as usize];
        if depth > 40 || out.len() > 64 { return false; }
        match n.op {
            Op::Const => { match n.k.checked_mul(coef).and_then(|v| k.checked_add(v)) { Some(v) => { *k = v; true } None => false } }
            Op::Add if self.n[n.a as usize].umax.checked_add(self.n[n.b as usize].umax).map_or(false, |s| s <= mask(n.w)) =>
                self.linear(n.a, coef, out, k, depth + 1) && self.linear(n.b, coef, out, k, depth + 1),
            Op::Mul => {
                if let Some(c) = self.is_const(n.b) {
                    if self.n[n.a as usize].umax.checked_mul(c).map_or(false, |s| s <= mask(n.w)) {
                        if let Some(c2) = coef.checked_mul(c) { return self.linear(n.a, c2, out, k, depth + 1); }
                    }
                }
                out.push((coef, e)); true
            }
            Op::ZExt => { let i = n.a; if self.n[i as usize].w <= 64 { self.linear(i, coef, out, k, depth + 1) } else { out.push((coef, e)); true } }
            Op::Extract if n.k == 0 && self.n[n.a as usize].w <= 64 && self.n[n.a as usize].umax <= mask(n.w) =>
                self.linear(n.a, coef, out, k, depth + 1),
            Op::Concat => {
                if let Some(0) = self.is_const(n.b) {
                    let lw = self.w(n.b);
                    if let Some(c2) = coef.checked_mul(1u64.checked_shl(lw as u32).unwrap_or(0)) { if c2 != 0 { return self.linear(n.a, c2, out, k, depth + 1); } }
                }
                out.push((coef, e)); true
            }
            _ => { out.push((coef, e)); true }
        }
    }
    fn lin_div(&mut self, op: Op, a: E, y: u64, w: u16) -> Option<E> {
        let mut t = vec![];
        let mut k = 0u64;
        if !self.linear(a, 1, &mut t, &mut k, 0) { return None; }
        if t.len() < 2 && k == 0 && t.iter().all(|x| x.0 % y != 0) { return None; }
        // merge
        t.sort_by_key(|x| x.1);
        let mut m: Vec<(u64, E)> = vec![];
        for (c, e) in t { if let Some(l) = m.last_mut() { if l.1 == e { l.0 = l.0.checked_add(c)?; continue; } } m.push((c, e)); }
        // remainder part must be < y
        let mut rmax = k % y;
        let mut total = k;
        for &(c, e) in &m {
            let um = self.n[e as usize].umax;
            total = total.checked_add(c.checked_mul(um)?)?;
            rmax = rmax.checked_add((c % y).checked_mul(um)?)?;
        }
        if rmax >= y || total > mask(w) { return None; }
        if m.iter().all(|x| x.0 < y) && k < y { return None; }
        let mut r = self.konst(if op == Op::UDiv { k / y } else { k % y }, w);
        for (c, e) in m {
            let c2 = if op == Op::UDiv { c / y } else { c % y };
            if c2 == 0 { continue; }
            let ew = self.w(e);
            let x = if ew < w { self.zext(e, w) } else if ew > w { self.extract(e, 0, w) } else { e };
            let kc = self.konst(c2, w);
            let p = self.bin(Op::Mul, x, kc);
            r = self.bin(Op::Add, p, r);
        }
        Some(r)
    }

    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b { return self.konst(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u64, 1); }
        if w > 64 { return self.mk(op, 1, a, b, 0, 0); }
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = match op {
                Op::Eq => x == y, Op::Ult => x < y, Op::Ule => x <= y,
                Op::Slt => sext64(x, w) < sext64(y, w), Op::Sle => sext64(x, w) <= sext64(y, w), _ => unreachable!(),
            };
            return self.konst(r as u64, 1);
        }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        match op {
            Op::Eq => {
                if ca.is_some() { return self.cmp(Op::Eq, b, a); }
                if na.umax < nb.umin || nb.umax < na.umin { return self.konst(0, 1); }
                if w == 1 {
                    if let Some(y) = cb { return if y == 1 { a } else { self.not(a) }; }
                }
                if let Some(y) = cb {
                    match na.op {
                        Op::ZExt => { let iw = self.w(na.a); if iw <= 64 { let k = self.konst(y, iw); return self.cmp(Op::Eq, na.a, k); } }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if sext64(y & mask(iw), iw) as u64 & mask(w) == y { let k = self.konst(y, iw); return self.cmp(Op::Eq, na.a, k); }
                            return self.konst(0, 1);
                        }
                        Op::Add => if let Some(x) = self.is_const(na.b) { let k = self.konst(y.wrapping_sub(x), w); return self.cmp(Op::Eq, na.a, k); },
                        Op::Sub => if let Some(x) = self.is_const(na.a) { let k = self.konst(x.wrapping_sub(y), w); return self.cmp(Op::Eq, na.b, k); } else if y == 0 { return self.cmp(Op::Eq, na.a, na.b); },
                        Op::Xor => if let Some(x) = self.is_const(na.b) { let k = self.konst(y ^ x, w); return self.cmp(Op::Eq, na.a, k); } else if y == 0 { return self.cmp(Op::Eq, na.a, na.b); },
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = w - lw;
                            let kl = self.konst(y, lw);
                            let kh = self.konst(y >> lw, hw);
                            let x = self.cmp(Op::Eq, na.b, kl);
                            if self.is_const(x) == Some(0) { return x; }
                            let z = self.cmp(Op::Eq, na.a, kh);
                            return self.bin(Op::And, x, z);
                        }
                        Op::Ite => {
                            let (p, q) = (self.is_const(na.b), self.is_const(na.c));
                            if p.is_some() || q.is_some() {
                                let x = self.cmp(Op::Eq, na.b, b);
                                let z = self.cmp(Op::Eq, na.c, b);
                                return self.ite(na.a, x, z);
                            }
                        }
                        Op::Or if y == 0 => {
                            let x = self.cmp(Op::Eq, na.a, b);
                            let z = self.cmp(Op::Eq, na.b, b);
                            return self.bin(Op::And, x, z);
                        }
                        Op::Mul => if let Some(x) = self.is_const(na.b) {
                            if self.n[na.a as usize].umax.checked_mul(x).map_or(false, |p| p <= mask(w)) && x != 0 {
                                if y % x != 0 { return self.konst(0, 1); }
                                let k = self.konst(y / x, w);
                                return self.cmp(Op::Eq, na.a, k);
                            }
                        },
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.cmp(Op::Eq, na.a, nb.a); }
                    if na.op == Op::Add && nb.op == Op::Add {
                        if na.b == nb.b { return self.cmp(Op::Eq, na.a, nb.a); }
                        if na.a == nb.a { return self.cmp(Op::Eq, na.b, nb.b); }
                        if na.a == nb.b { return self.cmp(Op::Eq, na.b, nb.a); }
                        if na.b == nb.a { return self.cmp(Op::Eq, na.a, nb.b); }
                    }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.cmp(Op::Eq, na.b, nb.b);
                        let z = self.cmp(Op::Eq, na.a, nb.a);
                        return self.bin(Op::And, x, z);
                    }
                    if a > b { return self.mk(op, 1, b, a, 0, 0); }
                }
            }
            Op::Ult => {
                if na.umax < nb.umin { return self.konst(1, 1); }
                if na.umin >= nb.umax { return self.konst(0, 1); }
                if cb == Some(1) { let z = self.konst(0, w); return self.cmp(Op::Eq, a, z); }
                if let Some(r) = self.cmp_narrow(op, a, b) { return r; }
            }
            Op::Ule => {
                if na.umax <= nb.umin { return self.konst(1, 1); }
                if na.umin > nb.umax { return self.konst(0, 1); }
                if let Some(y) = cb { if y < mask(w) { let k = self.konst(y + 1, w); return self.cmp(Op::Ult, a, k); } }
                if let Some(x) = ca { if x > 0 { let k = self.konst(x - 1, w); return self.cmp(Op::Ult, k, b); } }
                if let Some(r) = self.cmp_narrow(op, a, b) { return r; }
            }
            Op::Slt | Op::Sle => {
                let h = mask(w) >> 1;
                let (ap, bp) = (na.umax <= h, nb.umax <= h);
                let (an, bn) = (na.umin > h, nb.umin > h);
                if ap && bp { return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                if an && bp { return self.konst(1, 1); }
                if ap && bn { return self.konst(0, 1); }
            }
            _ => {}
        }
        // push comparison into ite with constants
        if na.op == Op::Ite && cb.is_some() && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
            let x = self.cmp(op, na.b, b);
            let z = self.cmp(op, na.c, b);
            return self.ite(na.a, x, z);
        }
        if nb.op == Op::Ite && ca.is_some() && self.is_const(nb.b).is_some() && self.is_const(nb.c).is_some() {
            let x = self.cmp(op, a, nb.b);
            let z = self.cmp(op, a, nb.c);
            return self.ite(nb.a, x, z);
        }
        self.mk(op, 1, a, b, 0, 0)
    }
    fn cmp_narrow(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return Some(self.cmp(op, na.a, nb.a)); }
        if na.op == Op::ZExt { let iw = self.w(na.a); if iw <= 64 { if let Some(y) = self.is_const(b) { if y <= mask(iw) { let k = self.konst(y, iw); return Some(self.cmp(op, na.a, k)); } } } }
        if nb.op == Op::ZExt { let iw = self.w(nb.a); if iw <= 64 { if let Some(x) = self.is_const(a) { if x <= mask(iw) { let k = self.konst(x, iw); return Some(self.cmp(op, k, nb.a)); } } } }
        None
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.is_const(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let nc = self.n[c as usize];
        if nc.op == Op::Xor && self.is_const(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        let na = self.n[a as usize];
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        let nb = self.n[b as usize];
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        self.mk(Op::Ite, w, c, a, b, 0)
    }

    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n[a as usize];
        if lo == 0 && w == n.w { return a; }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.wide0(w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
            }
            Op::Ite => {
                if (self.is_const(n.b).is_some() || self.is_const(n.c).is_some()) && w <= 64 {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.is_const(n.b).is_some() || lo == 0 {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w <= 64 && (w == 8 || n.w > 64) => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        if n.w <= 64 && lo < 64 && (n.umax >> lo) == 0 { return self.konst(0, w); }
        self.mk(Op::Extract, w, a, 0, 0, lo as u64)
    }
    fn wide0(&mut self, w: u16) -> E {
        if w <= 64 { return self.konst(0, w); }
        let z = self.konst(0, 64);
        self.zext(z, w)
    }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n[hi as usize], self.n[lo as usize]);
        let w = nh.w + nl.w;
        if let (Some(x), Some(y)) = (self.is_const(hi), self.is_const(lo)) { if w <= 64 { return self.konst((x << nl.w) | y, w); } }
        if self.is_const(hi) == Some(0) { return self.zext(lo, w); }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u64 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // extract of x above x itself truncated at 0: nl may have been simplified to something else
        if nh.op == Op::Concat {
            // right-assoc normal form: concat(concat(a,b),c) -> concat(a, concat(b,c))
            let l = self.concat(nh.b, lo);
            return self.concat(nh.a, l);
        }
        if nl.op == Op::Concat && nh.op == Op::Extract {
            let na = self.n[nl.a as usize];
            if na.op == Op::Extract && na.a == nh.a && nh.k == na.k + na.w as u64 {
                let h = self.extract(nh.a, na.k as u16, nh.w + na.w);
                return self.concat(h, nl.b);
            }
        }
        if nh.op == Op::ZExt {
            let iw = self.w(nh.a);
            let i = self.concat(nh.a, lo);
            let _ = iw;
            return self.zext(i, w);
        }
        self.mk(Op::Concat, w, hi, lo, 0, 0)
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n[a as usize];
        if n.w == w { return a; }
        if w <= 64 { if let Some(k) = self.is_const(a) { return self.konst(k, w); } }
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        if n.op == Op::Ite && w <= 64 && self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        // zext(extract(x, 0, k)) where x fits in k bits
        if n.op == Op::Extract && n.k == 0 {
            let i = self.n[n.a as usize];
            if i.w <= 64 && i.umax <= mask(n.w) {
                if i.w == w { return n.a; }
                if i.w < w { return self.zext(n.a, w); }
                return self.extract(n.a, 0, w);
            }
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n[a as usize];
        if n.w == w { return a; }
        if w <= 64 { if let Some(k) = self.is_const(a) { return self.konst(sext64(k, n.w) as u64, w); } }
        if n.w <= 64 && n.umax <= mask(n.w) >> 1 { return self.zext(a, w); }
        if n.w == 1 && w <= 64 { let o = self.konst(u64::MAX, w); let z = self.konst(0, w); return self.ite(a, o, z); }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }

    // ---- evaluation under a model ----
    pub fn eval(&mut self, e: E, model_id: u32, model: &[u64]) -> u128 {
        let n = self.n[e as usize];
        if n.op == Op::Const { return n.k as u128; }
        if n.w <= 64 {
            if self.memo.len() <= e as usize { self.memo.resize(self.n.len().max(e as usize + 1), (u32::MAX, 0)); }
            let (id, v) = self.memo[e as usize];
            if id == model_id { return v as u128; }
        }
        let m128 = |w: u16| if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        let sx = |v: u128, w: u16| -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s };
        let v: u128 = match n.op {
            Op::Var => *model.get(n.k as usize).unwrap_or(&0) as u128 & m128(n.w),
            Op::Const => n.k as u128,
            Op::Ite => if self.eval(n.a, model_id, model) == 1 { self.eval(n.b, model_id, model) } else { self.eval(n.c, model_id, model) },
            Op::Extract => (self.eval(n.a, model_id, model) >> n.k) & m128(n.w),
            Op::ZExt => self.eval(n.a, model_id, model),
            Op::SExt => { let w = self.w(n.a); sx(self.eval(n.a, model_id, model), w) as u128 & m128(n.w) }
            Op::Concat => { let lw = self.w(n.b); (self.eval(n.a, model_id, model) << lw) | self.eval(n.b, model_id, model) }
            _ => {
                let w = self.w(n.a);
                let a = self.eval(n.a, model_id, model);
                let b = self.eval(n.b, model_id, model);
                let m = m128(w);
                match n.op {
                    Op::Add => a.wrapping_add(b) & m,
                    Op::Sub => a.wrapping_sub(b) & m,
                    Op::Mul => a.wrapping_mul(b) & m,
                    Op::UDiv => if b == 0 { m } else { a / b },
                    Op::URem => if b == 0 { a } else { a % b },
                    Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); (if y == 0 { if x < 0 { 1 } else { -1 } } else { x.wrapping_div(y) }) as u128 & m }
                    Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); (if y == 0 { x } else { x.wrapping_rem(y) }) as u128 & m }
                    Op::And => a & b,
                    Op::Or => a | b,
                    Op::Xor => a ^ b,
                    Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
                    Op::LShr => if b >= w as u128 { 0 } else { a >> b },
                    Op::AShr => (sx(a, w) >> b.min(127).min(w as u128 - 1)) as u128 & m,
                    Op::Eq => (a == b) as u128,
                    Op::Ult => (a < b) as u128,
                    Op::Ule => (a <= b) as u128,
                    Op::Slt => (sx(a, w) < sx(b, w)) as u128,
                    Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
                    _ => unreachable!(),
                }
            }
        };
        if n.w <= 64 {
            if self.memo.len() <= e as usize { self.memo.resize(self.n.len(), (u32::MAX, 0)); }
            self.memo[e as usize] = (model_id, v as u64);
        }
        v
    }
}

/// interval transfer function of an operation whose operands (of width at most 64) lie in the given ranges
pub fn range_op(op: Op, w: u16, wa: u16, wb: u16, (al, ah): (u64, u64), (bl, bh): (u64, u64), k: u64) -> (u64, u64) {
    let m = mask(w);
    let full = (0, m);
    let ones = |x: u64| if x == 0 { 0 } else { u64::MAX >> x.leading_zeros() };
    if al == ah && bl == bh && !matches!(op, Op::Extract | Op::ZExt | Op::SExt) { if let Some(v) = fold(op, w, al, bl) { return (v, v); } }
    match op {
        Op::Add => { let (l, h) = (al as u128 + bl as u128, ah as u128 + bh as u128); let n = m as u128 + 1; if l / n == h / n { ((l % n) as u64, (h % n) as u64) } else { full } }
        Op::Sub => if al >= bh { (al - bh, ah - bl) } else if ah < bl { (al.wrapping_sub(bh) & m, ah.wrapping_sub(bl) & m) } else { full },
        Op::Mul => match ah.checked_mul(bh) { Some(h) if h <= m => (al * bl, h), _ => full },
        Op::UDiv => if bl > 0 { (al / bh, ah / bl) } else { full },
        Op::URem => if bl > 0 { if ah < bl { (al, ah) } else if bl == bh && al / bl == ah / bl { (al % bl, ah % bl) } else { (0, ah.min(bh - 1)) } } else { full },
        Op::And => (if w == 1 { al & bl } else { 0 }, ah.min(bh)),
        Op::Or => (al.max(bl), ones(ah | bh).min(m).min(ah.saturating_add(bh))),
        Op::Xor => (0, ones(ah | bh).min(m).min(ah.saturating_add(bh))),
        Op::LShr => if bl < 64 { (if bh < 64 { al >> bh } else { 0 }, ah >> bl) } else { full },
        Op::Shl => if bl == bh && bl < w as u64 && ah <= (m >> bl) { (al << bl, ah << bl) } else { full },
        Op::ZExt => (al, ah),
        Op::SExt => if ah <= mask(wa) >> 1 { (al, ah) } else { full },
        Op::Extract => { let (l, h) = (al >> k, ah >> k); if w >= 64 || l >> w == h >> w { (l & m, h & m) } else { full } }
        Op::Concat => if wb < 64 && w <= 64 { ((al << wb) | bl, (ah << wb) | bh) } else { full },
        Op::Eq => if al == ah && bl == bh && al == bl { (1, 1) } else if ah < bl || bh < al { (0, 0) } else { (0, 1) },
        Op::Ult => if ah < bl { (1, 1) } else if al >= bh { (0, 0) } else { (0, 1) },
        Op::Ule => if ah <= bl { (1, 1) } else if al > bh { (0, 0) } else { (0, 1) },
        Op::Slt | Op::Sle => {
            let s = 1u64 << (wa - 1);
            // order-preserving map to unsigned when neither range crosses the sign boundary
            if (al ^ ah) & s != 0 || (bl ^ bh) & s != 0 { return (0, 1); }
            range_op(if op == Op::Slt { Op::Ult } else { Op::Ule }, 1, wa, wb, (al ^ s, ah ^ s), (bl ^ s, bh ^ s), 0)
        }
        _ => full,
    }
}

pub fn fold(op: Op, w: u16, x: u64, y: u64) -> Option<u64> {
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { return None } else { x / y },
        Op::URem => if y == 0 { return None } else { x % y },
        Op::SDiv => if y == 0 { return None } else { (sext64(x, w) as i128 / sext64(y, w) as i128) as u64 & m },
        Op::SRem => if y == 0 { return None } else { (sext64(x, w) as i128 % sext64(y, w) as i128) as u64 & m },
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u64 { 0 } else { x >> y },
        Op::AShr => (sext64(x, w) >> y.min(w as u64 - 1)) as u64 & m,
        _ => return None,
    })
}
