//! Hash-consed bit-vector expressions with light simplification.
//! Width-1 expressions double as booleans.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct E(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, ZExt, SExt, Extract, Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u32, pub a: E, pub b: E, pub c: E, pub k: u64 }

const NIL: E = E(u32::MAX);

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    vars: Vec<Option<Rc<Vec<u32>>>>,
}

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;

thread_local! {
    static AR: RefCell<Arena> = RefCell::new(Arena { nodes: vec![], map: Default::default(), vars: vec![] });
}

pub fn mask(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
pub fn sext64(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

fn intern(n: Node) -> E {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(e) = a.map.get(&n) { return *e; }
        let e = E(a.nodes.len() as u32);
        a.nodes.push(n);
        a.vars.push(None);
        a.map.insert(n, e);
        e
    })
}
pub fn node(e: E) -> Node { AR.with(|a| a.borrow().nodes[e.0 as usize]) }
pub fn count() -> usize { AR.with(|a| a.borrow().nodes.len()) }
pub fn width(e: E) -> u32 { node(e).w }

pub fn konst(k: u64, w: u32) -> E { debug_assert!(w <= 64); intern(Node { op: Op::Const, w, a: NIL, b: NIL, c: NIL, k: k & mask(w) }) }
pub fn var(i: u32, w: u32) -> E { intern(Node { op: Op::Var, w, a: NIL, b: NIL, c: NIL, k: i as u64 }) }
pub fn as_const(e: E) -> Option<u64> { let n = node(e); if n.op == Op::Const { Some(n.k) } else { None } }

/// Sorted list of variables occurring in e.
pub fn vars(e: E) -> Rc<Vec<u32>> {
    if let Some(v) = AR.with(|a| a.borrow().vars[e.0 as usize].clone()) { return v; }
    let n = node(e);
    let mut out: Vec<u32> = vec![];
    if n.op == Op::Var { out.push(n.k as u32) }
    for x in [n.a, n.b, n.c] {
        if x != NIL { out.extend(vars(x).iter()) }
    }
    out.sort_unstable();
    out.dedup();
    let r = Rc::new(out);
    AR.with(|a| a.borrow_mut().vars[e.0 as usize] = Some(r.clone()));
    r
}

pub fn fold(op: Op, w: u32, x: u64, y: u64) -> Option<u64> {
    let m = mask(w);
    let (sx, sy) = (sext64(x, w), sext64(y, w));
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { return None } else { x / y },
        Op::URem => if y == 0 { return None } else { x % y },
        Op::SDiv => if y == 0 { return None } else { sx.wrapping_div(sy) as u64 & m },
        Op::SRem => if y == 0 { return None } else { sx.wrapping_rem(sy) as u64 & m },
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u64 { 0 } else { x >> y },
        Op::AShr => (if y >= w as u64 { sx >> 63 } else { sx >> y }) as u64 & m,
        Op::Eq => (x == y) as u64,
        Op::Ult => (x < y) as u64,
        Op::Ule => (x <= y) as u64,
        Op::Slt => (sx < sy) as u64,
        Op::Sle => (sx <= sy) as u64,
        _ => return None,
    })
}

fn is_cmp(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }

pub fn not(e: E) -> E {
    // boolean negation (width 1)
    bin(Op::Xor, e, konst(1, 1))
}
pub fn tru() -> E { konst(1, 1) }
pub fn fals() -> E { konst(0, 1) }

/// Byte decomposition: little-endian list of byte expressions (None = zero byte).
fn bytes_of(e: E, depth: u32) -> Option<Vec<Option<E>>> {
    let n = node(e);
    if n.w % 8 != 0 || n.w > 64 { return None; }
    let nb = (n.w / 8) as usize;
    if let Op::Const = n.op {
        return Some((0..nb).map(|i| { let b = (n.k >> (8 * i)) & 0xff; if b == 0 { None } else { Some(konst(b, 8)) } }).collect());
    }
    if n.w == 8 { return Some(vec![Some(e)]); }
    if depth == 0 { return None; }
    match n.op {
        Op::Concat => {
            let mut lo = bytes_of_or_split(n.b, depth - 1)?;
            lo.extend(bytes_of_or_split(n.a, depth - 1)?);
            Some(lo)
        }
        Op::ZExt => {
            let mut lo = bytes_of_or_split(n.a, depth - 1)?;
            while lo.len() < nb { lo.push(None) }
            Some(lo)
        }
        Op::Shl => {
            let k = as_const(n.b)?;
            if k % 8 != 0 || k >= n.w as u64 { return None; }
            let inner = bytes_of_or_split(n.a, depth - 1)?;
            let sh = (k / 8) as usize;
            let mut out: Vec<Option<E>> = vec![None; sh];
            out.extend(inner.into_iter().take(nb - sh));
            Some(out)
        }
        Op::LShr => {
            let k = as_const(n.b)?;
            if k % 8 != 0 || k >= n.w as u64 { return None; }
            let inner = bytes_of_or_split(n.a, depth - 1)?;
            let sh = (k / 8) as usize;
            let mut out: Vec<Option<E>> = inner.into_iter().skip(sh).collect();
            while out.len() < nb { out.push(None) }
            Some(out)
        }
        _ => None,
    }
}
fn bytes_of_or_split(e: E, depth: u32) -> Option<Vec<Option<E>>> {
    if let Some(v) = bytes_of(e, depth) { return Some(v); }
    let w = width(e);
    if w % 8 != 0 || w > 64 { return None; }
    // opaque: split with extracts
    Some((0..w / 8).map(|i| Some(intern_extract(e, i * 8, 8))).collect())
}
fn intern_extract(e: E, lo: u32, w: u32) -> E {
    extract(e, lo, w)
}
fn from_bytes(b: &[Option<E>]) -> E {
    let mut acc: Option<E> = None;
    for x in b.iter() {
        let x = x.unwrap_or_else(|| konst(0, 8));
        acc = Some(match acc { None => x, Some(lo) => concat(x, lo) });
    }
    acc.unwrap()
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let (na, nb) = (node(a), node(b));
    debug_assert!(na.w == nb.w, "width mismatch {:?} {} {}", op, na.w, nb.w);
    let w = na.w;
    let rw = if is_cmp(op) { 1 } else { w };
    if na.op == Op::Const && nb.op == Op::Const {
        if let Some(v) = fold(op, w, na.k, nb.k) { return konst(v, rw); }
    }
    // canonical order: constant on the right for commutative ops
    let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
    let (a, b, na, nb) = if comm && (na.op == Op::Const || (nb.op != Op::Const && a > b)) { (b, a, nb, na) } else { (a, b, na, nb) };
    let m = mask(w);
    if nb.op == Op::Const {
        let k = nb.k;
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a,
            Op::Or if w <= 64 && k == m => return b,
            Op::And if k == 0 => return b,
            Op::And if k == m && w <= 64 => return a,
            Op::Mul if k == 0 => return b,
            Op::Mul if k == 1 => return a,
            Op::UDiv | Op::SDiv if k == 1 => return a,
            Op::Ult if k == 0 => return fals(),
            Op::Ule if k == m => return tru(),
            Op::Ult if k == 1 => return bin(Op::Eq, a, konst(0, w)),
            Op::Shl | Op::LShr if k >= w as u64 => return konst(0, w),
            _ => {}
        }
        // add chains
        if op == Op::Sub { return bin(Op::Add, a, konst(k.wrapping_neg(), w)); }
        if op == Op::Add && na.op == Op::Add { if let Some(k2) = as_const(na.b) { return bin(Op::Add, na.a, konst(k.wrapping_add(k2), w)); } }
        if op == Op::Xor && na.op == Op::Xor { if let Some(k2) = as_const(na.b) { return bin(Op::Xor, na.a, konst(k ^ k2, w)); } }
        if op == Op::And && na.op == Op::And { if let Some(k2) = as_const(na.b) { return bin(Op::And, na.a, konst(k & k2, w)); } }
        if op == Op::Eq {
            if w == 1 { return if k == 1 { a } else { not(a) }; }
            match na.op {
                Op::ZExt => {
                    let iw = width(na.a);
                    if k >> iw != 0 { return fals(); }
                    return bin(Op::Eq, na.a, konst(k, iw));
                }
                Op::SExt => {
                    let iw = width(na.a);
                    if (sext64(k, iw) as u64 & m) != k { return fals(); }
                    return bin(Op::Eq, na.a, konst(k, iw));
                }
                Op::Add => if let Some(k2) = as_const(na.b) { return bin(Op::Eq, na.a, konst(k.wrapping_sub(k2), w)); }
                Op::Xor => if let Some(k2) = as_const(na.b) { return bin(Op::Eq, na.a, konst(k ^ k2, w)); }
                Op::Concat => {
                    let lw = width(na.b);
                    let hi = bin(Op::Eq, na.a, konst(k >> lw, w - lw));
                    let lo = bin(Op::Eq, na.b, konst(k, lw));
                    return bin(Op::And, hi, lo);
                }
                Op::Ite => {
                    if let (Some(x), Some(y)) = (as_const(na.b), as_const(na.c)) {
                        return match (x == k, y == k) { (true, true) => tru(), (true, false) => na.a, (false, true) => not(na.a), _ => fals() };
                    }
                    if let Some(x) = as_const(na.b) { if x != k { return bin(Op::And, not(na.a), bin(Op::Eq, na.c, b)); } else { return bin(Op::Or, na.a, bin(Op::Eq, na.c, b)); } }
                    if let Some(y) = as_const(na.c) { if y != k { return bin(Op::And, na.a, bin(Op::Eq, na.b, b)); } else { return bin(Op::Or, not(na.a), bin(Op::Eq, na.b, b)); } }
                }
                _ => {}
            }
        }
        if (op == Op::Ult || op == Op::Ule) && na.op == Op::ZExt {
            let iw = width(na.a);
            if k > mask(iw) { return tru(); }
            return bin(op, na.a, konst(k, iw));
        }
        if op == Op::Slt && na.op == Op::ZExt {
            // zext value is non-negative
            let sk = sext64(k, w);
            if sk <= 0 { return fals(); }
            let iw = width(na.a);
            if (sk as u64) > mask(iw) { return tru(); }
            return bin(Op::Ult, na.a, konst(k, iw));
        }
        if op == Op::And && w <= 64 {
            // low mask => zext(extract); contiguous
            if k != 0 && (k & (k + 1)) == 0 {
                let lw = 64 - k.leading_zeros();
                return zext(extract(a, 0, lw), w);
            }
            if na.op == Op::ZExt {
                let iw = width(na.a);
                return zext(bin(Op::And, na.a, konst(k, iw)), w);
            }
        }
        if op == Op::LShr && k > 0 && k < w as u64 {
            return zext(extract(a, k as u32, w - k as u32), w);
        }
        if op == Op::Shl && k > 0 && k < w as u64 {
            return concat(extract(a, 0, w - k as u32), konst_wide(0, k as u32));
        }
    }
    if na.op == Op::Const && (op == Op::Ult || op == Op::Ule) && nb.op == Op::ZExt {
        let iw = width(nb.a);
        if op == Op::Ult { if na.k >= mask(iw) { return fals(); } } else if na.k > mask(iw) { return fals(); }
        return bin(op, konst(na.k, iw), nb.a);
    }
    if na.op == Op::Const && na.k == 0 && op == Op::Ule { return tru(); }
    if na.op == Op::Const && na.k == 0 && op == Op::Ult { return not(bin(Op::Eq, b, a)); }
    if a == b {
        match op {
            Op::Eq | Op::Ule | Op::Sle => return tru(),
            Op::Ult | Op::Slt => return fals(),
            Op::Xor | Op::Sub => return konst_wide(0, w),
            Op::And | Op::Or => return a,
            _ => {}
        }
    }
    if op == Op::Eq && na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) { return bin(Op::Eq, na.a, nb.a); }
    if op == Op::Eq && na.op == Op::Concat && nb.op == Op::Concat && width(na.b) == width(nb.b) {
        return bin(Op::And, bin(Op::Eq, na.a, nb.a), bin(Op::Eq, na.b, nb.b));
    }
    if w == 1 && (op == Op::And || op == Op::Or) {
        // a & !a
        if na.op == Op::Xor && as_const(na.b) == Some(1) && na.a == b || nb.op == Op::Xor && as_const(nb.b) == Some(1) && nb.a == a {
            return if op == Op::And { fals() } else { tru() };
        }
    }
    if (op == Op::Or || op == Op::Add || op == Op::Xor) && w > 8 && w <= 64 && w % 8 == 0 {
        if let (Some(x), Some(y)) = (bytes_of(a, 8), bytes_of(b, 8)) {
            if x.iter().zip(y.iter()).all(|(p, q)| p.is_none() || q.is_none()) {
                let v: Vec<Option<E>> = x.into_iter().zip(y).map(|(p, q)| p.or(q)).collect();
                return from_bytes(&v);
            }
        }
    }
    intern(Node { op, w: rw, a, b, c: NIL, k: 0 })
}

fn konst_wide(k: u64, w: u32) -> E {
    if w <= 64 { konst(k, w) } else { concat(konst(0, w - 64), konst(k, 64)) }
}

pub fn ite(c: E, t: E, f: E) -> E {
    if let Some(k) = as_const(c) { return if k != 0 { t } else { f }; }
    if t == f { return t; }
    let nc = node(c);
    if nc.op == Op::Xor && as_const(nc.b) == Some(1) { return ite(nc.a, f, t); }
    if width(t) == 1 {
        match (as_const(t), as_const(f)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return bin(Op::Or, c, f),
            (Some(0), _) => return bin(Op::And, not(c), f),
            (_, Some(0)) => return bin(Op::And, c, t),
            (_, Some(1)) => return bin(Op::Or, not(c), t),
            _ => {}
        }
    }
    intern(Node { op: Op::Ite, w: width(t), a: c, b: t, c: f, k: 0 })
}

pub fn zext(e: E, w: u32) -> E {
    let n = node(e);
    if n.w == w { return e; }
    debug_assert!(n.w < w);
    if n.op == Op::Const && w <= 64 { return konst(n.k, w); }
    if n.op == Op::ZExt { return zext(n.a, w); }
    intern(Node { op: Op::ZExt, w, a: e, b: NIL, c: NIL, k: 0 })
}
pub fn sext(e: E, w: u32) -> E {
    let n = node(e);
    if n.w == w { return e; }
    if n.op == Op::Const && w <= 64 { return konst(sext64(n.k, n.w) as u64, w); }
    if n.op == Op::SExt { return sext(n.a, w); }
    if n.op == Op::ZExt { return zext(n.a, w); }
    intern(Node { op: Op::SExt, w, a: e, b: NIL, c: NIL, k: 0 })
}
pub fn extract(e: E, lo: u32, w: u32) -> E {
    let n = node(e);
    if lo == 0 && w == n.w { return e; }
    debug_assert!(lo + w <= n.w);
    match n.op {
        Op::Const => return konst(n.k >> lo, w),
        Op::Extract => return extract(n.a, n.k as u32 + lo, w),
        Op::Concat => {
            let lw = width(n.b);
            if lo + w <= lw { return extract(n.b, lo, w); }
            if lo >= lw { return extract(n.a, lo - lw, w); }
            return concat(extract(n.a, 0, lo + w - lw), extract(n.b, lo, lw - lo));
        }
        Op::ZExt => {
            let iw = width(n.a);
            if lo >= iw { return konst_wide(0, w); }
            if lo + w <= iw { return extract(n.a, lo, w); }
            return zext(extract(n.a, lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = width(n.a);
            if lo + w <= iw { return extract(n.a, lo, w); }
            if lo == 0 { return sext(n.a, w); }
        }
        Op::Ite => {
            if as_const(n.b).is_some() || as_const(n.c).is_some() {
                return ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w));
            }
        }
        Op::And | Op::Or | Op::Xor => {
            if as_const(n.b).is_some() || lo == 0 { return bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w)); }
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => return bin(n.op, extract(n.a, 0, w), extract(n.b, 0, w)),
        _ => {}
    }
    intern(Node { op: Op::Extract, w, a: e, b: NIL, c: NIL, k: lo as u64 })
}
pub fn concat(hi: E, lo: E) -> E {
    let (nh, nl) = (node(hi), node(lo));
    let w = nh.w + nl.w;
    if nh.op == Op::Const && nl.op == Op::Const && w <= 64 { return konst((nh.k << nl.w) | nl.k, w); }
    if nh.op == Op::Const && nh.k == 0 { return zext(lo, w); }
    if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u64 { return extract(nh.a, nl.k as u32, w); }
    // (x : extract) with lo a concat whose high part is adjacent
    if nl.op == Op::Concat {
        let nlh = node(nl.a);
        if nh.op == Op::Extract && nlh.op == Op::Extract && nh.a == nlh.a && nh.k == nlh.k + nlh.w as u64 {
            return concat(extract(nh.a, nlh.k as u32, nh.w + nlh.w), nl.b);
        }
        if nh.op == Op::Const && nlh.op == Op::Const && nh.w + nlh.w <= 64 {
            return concat(konst((nh.k << nlh.w) | nlh.k, nh.w + nlh.w), nl.b);
        }
    }
    // canonical form: right-nested  a : (b : (c : d))
    if nh.op == Op::Concat { return concat(nh.a, concat(nh.b, lo)); }
    intern(Node { op: Op::Concat, w, a: hi, b: lo, c: NIL, k: 0 })
}

/// Evaluate under a model (variable index -> value). Only for widths <= 64.
pub fn eval(e: E, model: &dyn Fn(u32) -> u64, memo: &mut FxMap<u32, u128>) -> u128 {
    if let Some(v) = memo.get(&e.0) { return *v; }
    let n = node(e);
    let mk = |w: u32| if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    let r: u128 = match n.op {
        Op::Const => n.k as u128,
        Op::Var => model(n.k as u32) as u128,
        Op::Ite => if eval(n.a, model, memo) != 0 { eval(n.b, model, memo) } else { eval(n.c, model, memo) },
        Op::ZExt => eval(n.a, model, memo),
        Op::SExt => { let iw = width(n.a); let v = eval(n.a, model, memo); (((v << (128 - iw)) as i128) >> (128 - iw)) as u128 & mk(n.w) }
        Op::Extract => (eval(n.a, model, memo) >> n.k) & mk(n.w),
        Op::Concat => (eval(n.a, model, memo) << width(n.b)) | eval(n.b, model, memo),
        op => {
            let x = eval(n.a, model, memo);
            let y = eval(n.b, model, memo);
            let w = width(n.a);
            if w <= 64 {
                match fold(op, w, x as u64, y as u64) {
                    Some(v) => v as u128,
                    None => match op { Op::UDiv => mk(w), Op::URem => x, Op::SDiv => if sext64(x as u64, w) < 0 { 1 } else { mk(w) }, _ => x },
                }
            } else {
                match op {
                    Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                    Op::Add => x.wrapping_add(y) & mk(w), Op::Sub => x.wrapping_sub(y) & mk(w), Op::Mul => x.wrapping_mul(y) & mk(w),
                    Op::Eq => (x == y) as u128, Op::Ult => (x < y) as u128, Op::Ule => (x <= y) as u128,
                    Op::Shl => if y >= w as u128 { 0 } else { (x << y) & mk(w) },
                    Op::LShr => if y >= w as u128 { 0 } else { x >> y },
                    _ => panic!("eval: wide {:?}", op),
                }
            }
        }
    };
    memo.insert(e.0, r);
    r
}
