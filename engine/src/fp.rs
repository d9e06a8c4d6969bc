//! Floating point over bit patterns, written out in bit-vector terms (round to nearest even; NaN results follow x86: quieted, payload kept).
//! Covers comparison, sign operations and all conversions; arithmetic is evaluated for known operands only.
use crate::expr::*;

fn k(v: u64, w: u32) -> E { konst(v, w) }
fn and(a: E, b: E) -> E { bin(Op::And, a, b) }
fn or(a: E, b: E) -> E { bin(Op::Or, a, b) }
/// exponent bits, mantissa bits
fn fmt(w: u32) -> (u32, u32) { match w { 32 => (8, 23), 64 => (11, 52), 16 => (5, 10), _ => panic!("float width {}", w) } }
fn sign(x: E) -> E { let w = width(x); extract(x, w - 1, 1) }
fn magn(x: E) -> E { let w = width(x); and(x, k(mask(w - 1), w)) }
fn inf(w: u32) -> u64 { let (e, m) = fmt(w); mask(e) << m }
pub fn is_nan(x: E) -> E { let w = width(x); bin(Op::Ult, k(inf(w), w), magn(x)) }
pub fn neg(x: E) -> E { let w = width(x); bin(Op::Xor, x, k(1 << (w - 1), w)) }
pub fn abs(x: E) -> E { magn(x) }
pub fn copysign(x: E, y: E) -> E { let w = width(x); or(magn(x), and(y, k(1 << (w - 1), w))) }

/// LLVM's predicate numbering: bit 0 equal, bit 1 greater, bit 2 less, bit 3 unordered
pub fn cmp(pred: u32, x: E, y: E) -> E {
    let w = width(x);
    let un = or(is_nan(x), is_nan(y));
    let zero = bin(Op::Eq, or(magn(x), magn(y)), k(0, w));
    let eq = or(bin(Op::Eq, x, y), zero);
    let lt = |a: E, b: E| { // total order on non-NaN values apart from the zeros
        let (sa, sb) = (sign(a), sign(b));
        ite(sa, ite(sb, bin(Op::Ult, magn(b), magn(a)), tru()), ite(sb, fals(), bin(Op::Ult, magn(a), magn(b))))
    };
    let mut r = fals();
    if pred & 1 != 0 { r = or(r, eq) }
    if pred & 2 != 0 { r = or(r, and(lt(y, x), not(zero))) }
    if pred & 4 != 0 { r = or(r, and(lt(x, y), not(zero))) }
    if pred & 8 != 0 { or(r, un) } else { and(r, not(un)) }
}

/// round a 64-bit significand with its top bit at 63 and value norm * 2^(exp - 63), exp as a 64-bit signed term within the normal range
fn pack(s: E, exp: E, norm: E, to: u32) -> E {
    let (eb, mb) = fmt(to);
    let bias = (1u64 << (eb - 1)) - 1;
    let drop = 63 - mb;
    let q = bin(Op::LShr, norm, k(drop as u64, 64));
    let rem = and(norm, k(mask(drop), 64));
    let half = k(1 << (drop - 1), 64);
    let up = or(bin(Op::Ult, half, rem), and(bin(Op::Eq, rem, half), extract(q, 0, 1)));
    // the hidden bit adds one to the exponent field
    let f = bin(Op::Add, bin(Op::Shl, bin(Op::Add, exp, k(bias - 1, 64)), k(mb as u64, 64)), q);
    let f = bin(Op::Add, f, zext(up, 64));
    let f = extract(f, 0, to);
    or(f, bin(Op::Shl, zext(s, to), k(to as u64 - 1, to)))
}
fn clz64(x: E) -> E {
    let mut r = k(64, 64);
    for i in 0..64 { r = ite(extract(x, i, 1), k(63 - i as u64, 64), r); }
    r
}
pub fn from_int(x: E, signed: bool, to: u32) -> E {
    let w = width(x);
    assert!(w <= 64);
    let e = if signed { sext(x, 64) } else { zext(x, 64) };
    let s = if signed { extract(e, 63, 1) } else { fals() };
    let m = ite(s, bin(Op::Sub, k(0, 64), e), e);
    let lz = clz64(m);
    let norm = bin(Op::Shl, m, lz);
    let exp = bin(Op::Sub, k(63, 64), lz);
    ite(bin(Op::Eq, e, k(0, 64)), k(0, to), pack(s, exp, norm, to))
}
/// truncation to an integer; out of range saturates and NaN gives zero
pub fn to_int(x: E, signed: bool, to: u32) -> E {
    let w = width(x);
    let (eb, mb) = fmt(w);
    let bias = (1u64 << (eb - 1)) - 1;
    let m = zext(magn(x), 64);
    let e = bin(Op::LShr, m, k(mb as u64, 64));
    let frac = or(and(m, k(mask(mb), 64)), k(1 << mb, 64));
    let s = sign(x);
    let small = bin(Op::Ult, e, k(bias, 64)); // magnitude below one (subnormals included)
    let lim = if signed { to as u64 - 1 } else { to as u64 };
    let big = not(bin(Op::Ult, e, k(bias + lim, 64)));
    let sh = bin(Op::Sub, e, k(bias, 64)); // 0..lim
    let at = k(mb as u64, 64);
    let v = ite(bin(Op::Ult, sh, at), bin(Op::LShr, frac, bin(Op::Sub, at, sh)), bin(Op::Shl, frac, bin(Op::Sub, sh, at)));
    let v = extract(v, 0, to);
    let (max, min) = if signed { (mask(to - 1), 1u64 << (to - 1)) } else { (mask(to), 0) };
    let inrange = if signed { ite(s, bin(Op::Sub, k(0, to), v), v) } else { ite(s, k(0, to), v) };
    let r = ite(big, ite(s, k(min, to), k(max, to)), inrange);
    ite(or(is_nan(x), small), k(0, to), r)
}
pub fn ext(x: E) -> E {
    // 32 to 64 bits
    let m = zext(magn(x), 64);
    let s = sign(x);
    let sg = bin(Op::Shl, zext(s, 64), k(63, 64));
    let exp = bin(Op::LShr, m, k(23, 64));
    let frac = and(m, k(mask(23), 64));
    let special = or(k(0x7ff << 52, 64), bin(Op::Shl, frac, k(29, 64)));
    let special = ite(bin(Op::Eq, frac, k(0, 64)), special, or(special, k(1 << 51, 64)));
    let normal = bin(Op::Add, bin(Op::Shl, m, k(29, 64)), k((1023 - 127) << 52, 64));
    let lz = clz64(frac); // >= 41
    let sub = pack(fals(), bin(Op::Sub, k((63i64 - 149) as u64, 64), lz), bin(Op::Shl, frac, lz), 64);
    let r = ite(bin(Op::Eq, exp, k(255, 64)), special, ite(bin(Op::Eq, exp, k(0, 64)), ite(bin(Op::Eq, frac, k(0, 64)), k(0, 64), sub), normal));
    or(r, sg)
}
pub fn trunc(x: E) -> E {
    // 64 to 32 bits
    let m = magn(x);
    let s = bin(Op::Shl, zext(sign(x), 32), k(31, 32));
    let exp = bin(Op::LShr, m, k(52, 64));
    let frac = and(m, k(mask(52), 64));
    let nan = or(k(0x7fc0_0000, 32), extract(frac, 29, 23));
    let full = or(frac, k(1 << 52, 64));
    // result exponent exp - 896; below 1 the significand is shifted further
    let normal = bin(Op::Ult, k(896, 64), exp);
    let sh = ite(normal, k(29, 64), bin(Op::Sub, k(29 + 897, 64), exp));
    let tiny = bin(Op::Ult, k(54, 64), sh);
    let q = bin(Op::LShr, full, sh);
    let rem = and(full, bin(Op::Sub, bin(Op::Shl, k(1, 64), sh), k(1, 64)));
    let half = bin(Op::LShr, bin(Op::Shl, k(1, 64), sh), k(1, 64));
    let up = zext(or(bin(Op::Ult, half, rem), and(bin(Op::Eq, rem, half), extract(q, 0, 1))), 64);
    let base = ite(normal, bin(Op::Shl, bin(Op::Sub, exp, k(897, 64)), k(23, 64)), k(0, 64));
    let f = bin(Op::Add, bin(Op::Add, base, q), up);
    let over = not(bin(Op::Ult, f, k(0x7f80_0000, 64)));
    let r = ite(over, k(0x7f80_0000, 32), ite(tiny, k(0, 32), extract(f, 0, 32)));
    or(ite(is_nan(x), nan, r), s)
}
/// 9 add, 11 sub, 13 mul, 16 div, 19 rem
pub fn arith(op: i32, w: u32, x: u64, y: u64) -> Option<u64> {
    if w == 64 {
        let (a, b) = (f64::from_bits(x), f64::from_bits(y));
        Some(match op { 9 => a + b, 11 => a - b, 13 => a * b, 16 => a / b, _ => a % b }.to_bits())
    } else if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        Some(match op { 9 => a + b, 11 => a - b, 13 => a * b, 16 => a / b, _ => a % b }.to_bits() as u64)
    } else { None }
}
pub fn class(x: E, test: u64) -> E {
    let w = width(x);
    let (_, mb) = fmt(w);
    let m = magn(x);
    let s = sign(x);
    let e = bin(Op::LShr, m, k(mb as u64, w));
    let emax = k(inf(w) >> mb, w);
    let quiet = extract(x, mb - 1, 1);
    let nan = is_nan(x);
    let infi = bin(Op::Eq, m, k(inf(w), w));
    let zero = bin(Op::Eq, m, k(0, w));
    let sub = and(bin(Op::Eq, e, k(0, w)), not(zero));
    let norm = and(not(bin(Op::Eq, e, k(0, w))), bin(Op::Ult, e, emax));
    let ns = not(s);
    let all = [and(nan, not(quiet)), and(nan, quiet), and(infi, s), and(norm, s), and(sub, s), and(zero, s), and(zero, ns), and(sub, ns), and(norm, ns), and(infi, ns)];
    let mut r = fals();
    for (i, c) in all.iter().enumerate() { if test >> i & 1 != 0 { r = or(r, *c) } }
    r
}

#[cfg(test)]
mod test {
    use super::*;
    fn run(f: &dyn Fn(E) -> E, w: u32, x: u64) -> u64 {
        // over a variable, so that the terms are those the solver sees, and over a constant
        let v = var(0, w);
        let mut m = FxMap::default();
        let a = eval(f(v), &|_| x, &mut m) as u64;
        assert_eq!(as_const(f(konst(x, w))), Some(a));
        a
    }
    fn values() -> Vec<u64> {
        let mut r = vec![];
        let mut s = 0x1234_5678_9abc_def1u64;
        for i in 0..20000u64 {
            s ^= s << 13; s ^= s >> 7; s ^= s << 17;
            r.push(match i % 6 {
                0 => s,
                1 => (s & !(0x7ff << 52)) | ((1023 - 160 + (s >> 20) % 320) << 52),
                2 => ((s & 0x3) << 62) | (0x7ff << 52) | (s & ((1 << (i % 53)) - 1)),
                3 => s >> (i % 64),
                4 => (f32::from_bits(s as u32) as f64).to_bits() ^ ((s >> 60) << 28),
                _ => (s as i32 as f64 + 0.5).to_bits(),
            });
        }
        r.extend([0, 1 << 63, 0x7ff << 52, 0xfff << 52, 1, 0x7ff0_0000_0000_0001, 0x36a0_0000_0000_0000, 0x3690_0000_0000_0000, 0x3690_0000_0000_0001, 0x47ef_ffff_f000_0000, 0x47ef_ffff_efff_ffff]);
        r
    }
    #[test]
    fn conversions() {
        for x in values() {
            let d = f64::from_bits(x);
            let f = f32::from_bits(x as u32);
            assert_eq!(run(&trunc, 64, x), std::hint::black_box(d as f32).to_bits() as u64, "trunc {:x}", x);
            assert_eq!(run(&ext, 32, x & 0xffff_ffff), std::hint::black_box(f as f64).to_bits(), "ext {:x}", x);
            assert_eq!(run(&|e| from_int(e, true, 64), 64, x), (x as i64 as f64).to_bits());
            assert_eq!(run(&|e| from_int(e, false, 64), 64, x), (x as f64).to_bits());
            assert_eq!(run(&|e| from_int(e, true, 32), 64, x), (x as i64 as f32).to_bits() as u64);
            assert_eq!(run(&|e| from_int(e, false, 32), 32, x & 0xffff_ffff), (x as u32 as f32).to_bits() as u64);
            assert_eq!(run(&|e| to_int(e, true, 64), 64, x), d as i64 as u64, "{:x}", x);
            assert_eq!(run(&|e| to_int(e, false, 64), 64, x), d as u64);
            assert_eq!(run(&|e| to_int(e, true, 32), 64, x), d as i32 as u32 as u64);
            assert_eq!(run(&|e| to_int(e, false, 8), 64, x), d as u8 as u64);
            assert_eq!(run(&|e| to_int(e, true, 16), 32, x & 0xffff_ffff), f as i16 as u16 as u64);
            assert_eq!(run(&neg, 64, x), (-d).to_bits());
        }
    }
    #[test]
    fn comparisons() {
        let v = values();
        let a = [0u64, 1 << 63, 0x7ff << 52, 0xfff << 52, 1, (1 << 63) | 1, 0x7ff8 << 48, 0x3ff0 << 48, 0xbff0 << 48];
        for i in 0..4000 {
            let x = if i < 1000 { a[i % 9] } else { v[i] };
            let y = if i % 7 == 0 { x } else if i < 2000 { a[(i / 9) % 9] } else { v[i * 3 + 1] };
            let (p, q) = (f64::from_bits(x), f64::from_bits(y));
            let c = |k: u32| as_const(cmp(k, konst(x, 64), konst(y, 64))).unwrap() != 0;
            assert_eq!(c(1), p == q); assert_eq!(c(14), p != q); assert_eq!(c(2), p > q); assert_eq!(c(3), p >= q); assert_eq!(c(4), p < q); assert_eq!(c(5), p <= q);
            assert_eq!(c(8), p.is_nan() || q.is_nan()); assert_eq!(c(7), !(p.is_nan() || q.is_nan())); assert_eq!(c(6), p < q || p > q); assert!(c(15)); assert!(!c(0));
            assert_eq!(as_const(class(konst(x, 64), 3)).unwrap() != 0, p.is_nan());
            assert_eq!(as_const(class(konst(x, 64), 0x108)).unwrap() != 0, p.is_normal());
        }
    }
}
