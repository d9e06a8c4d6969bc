//! C31: what was parsed, pushed or printed before, and what failed, has no influence.
use crate::file::*;
use crate::refm::*;
use crate::sym::*;
use jbcrs::basic::*;

/// n concrete bytes of attribute content that is neither all zero nor regular
fn noise(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); let mut i = 0; while i < n { v.push([0, 1, 0, 2, b'I', 0, 7, 0, 0][i % 9]); i += 1; } v }
/// something parsed earlier: another class with other names at the same indices, or one that fails inside a part
fn before(w: u64) -> Vec<u8> {
    let mut p = B(Vec::with_capacity(256));
    match w {
        0 => { // complete: other names, a code attribute with a nested attribute
            p.utf(b"Signature").utf(b"X").utf(b"Code").utf(b"Synthetic");
            let mut a = B::new();
            a.u2(3).u2(3).u4(13 + 8).u2(7).u2(7).u4(1).u1(0xb1).u2(0).u2(1).u2(1).u4(2).u2(5).u2(4).u4(0).u2(2).u4(3).raw(b"abc");
            wrap(Level::Method, 5, &p.0, 3, &a.0).0
        }
        1 => { // fails inside a string
            let mut f = B::new();
            f.head().u2(5).utf(b"Deprecated").utf(b"Code").u1(1).u2(6).raw(&[b'a', b'b', 0xc3, 0xa9, 0xed, 0xa0]);
            f.0
        }
        2 => { // fails inside a nested annotation
            p.utf(b"X").utf(b"Code").utf(b"Deprecated").utf(b"AnnotationDefault");
            let mut a = B::new();
            a.u2(1).u2(4).u4(40);
            for _ in 0..4 { a.u1(b'[').u2(2); }
            a.raw(b"@").u2(1).u2(2).u2(3).u1(b'I').u2(4).u2(5).u1(b'?').sym(0);
            a.raw(&noise(20));
            wrap(Level::Method, 5, &p.0, 2, &a.0).0
        }
        3 => { // fails inside a code attribute, in a switch
            p.utf(b"X").utf(b"Code").utf(b"Deprecated").utf(b"StackMapTable");
            let mut a = B::new();
            a.u2(1).u2(2).u4(30).u2(1).u2(1).u4(18).u1(0xab).raw(&[0, 0, 0]).u4(4).u4(2).u4(1).raw(&[0; 12]);
            wrap(Level::Method, 5, &p.0, 2, &a.0).0
        }
        _ => { // fails for being nested too deep
            p.utf(b"X").utf(b"Code").utf(b"Deprecated").utf(b"AnnotationDefault");
            let mut a = B(Vec::with_capacity(400));
            a.u2(1).u2(4).u4(303);
            for _ in 0..100 { a.u1(b'[').u2(1); }
            a.raw(b"I\0\x01");
            wrap(Level::Method, 5, &p.0, 2, &a.0).0
        }
    }
}
/// case = before * 100000 + kind * 1000 + level * 100 + n: an attribute of n symbolic bytes, after another parse whose result is kept or dropped
pub fn c31_attr(case: u64) {
    let (w, k, l, n) = (case / 100000, (case / 1000 % 100) as usize, level(case / 100 % 10), (case % 100) as usize);
    let name = if k < 26 { NAMES[k].0 } else { "Unknown" };
    let b = bytes(n);
    let earlier = parse(&before(w));
    if n % 2 == 0 { drop(earlier); run_attr(l, name.as_ref(), &b); }
    else { run_attr(l, name.as_ref(), &b); drop(earlier); }
}
/// the earlier parse is of the same file cut at each place, then of the file: the outcome is that of the reference reader
pub fn c31_cut(case: u64) {
    let (k, l, n) = ((case / 1000 % 100) as usize, level(case / 100 % 10), (case % 100) as usize);
    let name = if k < 26 { NAMES[k].0 } else { "Unknown" };
    let b = bytes(n);
    let (p, cp) = std_pool(name.as_bytes());
    let mut a = B(Vec::with_capacity(b.len() + 64));
    a.u2(2).u2(4).u4(b.len() as u32).raw(&b).u2(3).u4(0);
    let (f, at) = wrap(l, 5, &p, 2, &a.0);
    let cut = any_u16() as usize;
    assume(cut < f.len());
    let cut = conc(cut);
    let _ = parse(&f[..cut]);
    run_attrs(l, &f, at, &cp);
}
/// the same file, symbolic, parsed twice: both results alike; with an empty pool if case >= 100
pub fn c31_twice(case: u64) {
    let mut b = B::new();
    b.head();
    if case >= 100 { b.u2(1); }
    b.sym(case as usize % 100);
    let x = parse(&b.0);
    let _ = parse(&before(0));
    let y = parse(&b.0);
    match (x, y) {
        (Ok((p, c)), Ok((q, d))) => { check(crate::eq::class(&c, &d) && crate::eq::pool(&p, &q), "two parses of the same bytes differ"); reach("parsed twice"); }
        (Err(d), Err(e)) => { check(same_error(&d, &e), "two parses of the same bytes fail differently"); reach("failed twice"); }
        _ => check(false, "only one of two parses of the same bytes fails"),
    }
}
fn same_error(a: &jbcrs::Error, b: &jbcrs::Error) -> bool {
    use jbcrs::Error::*;
    match (a, b) {
        (&InvalidUTF8, &InvalidUTF8) | (&LimitExceeded, &LimitExceeded) | (&NotAClass, &NotAClass) | (&CPTooLarge, &CPTooLarge) | (&InvalidTargetType, &InvalidTargetType) | (&InvalidTypePath, &InvalidTypePath) => true,
        (&InvalidCPItem(x), &InvalidCPItem(y)) => x == y,
        (&ReservedStackMapFrame(x), &ReservedStackMapFrame(y)) | (&InvalidVerificationType(x), &InvalidVerificationType(y)) | (&InvalidElementValue(x), &InvalidElementValue(y)) => x == y,
        (&InvalidInstruction { op_code: x, at: y }, &InvalidInstruction { op_code: z, at: w }) => x == z && y == w,
        _ => false,
    }
}
/// a string constant of n symbolic bytes after a parse of "ab" and e more symbolic bytes: case = e * 100 + n
pub fn c31_string(case: u64) {
    let e = (case / 100) as usize;
    let mut f = B::new();
    f.head().u2(2).u1(1).u2(2 + e as u16).raw(b"ab").sym(e);
    f.raw(&[0; 14]);
    let _ = parse(&f.0);
    crate::props::c10_const(case % 100);
}
/// code of n symbolic bytes after a parse of code of w nops and m symbolic bytes: case = w * 100 + m * 10 + n
pub fn c31_code(case: u64) {
    let (p, cp) = std_pool(b"LineNumberTable");
    let (w, m, n) = ((case / 100) as usize, (case / 10 % 10) as usize, (case % 10) as usize);
    let mut a = B::new();
    a.u2(1).u2(2).u4((12 + w + m) as u32).u2(1).u2(1).u4((w + m) as u32).raw(&[0; 8][..w]).sym(m).u2(0).u2(0);
    let _ = parse(&wrap(Level::Method, 5, &p, 2, &a.0).0);
    let mut a = B::new();
    a.u2(1).u2(2).u4(12 + n as u32 + 1).u2(1).u2(1).u4(n as u32 + 1).sym(n).u1(0xb1).u2(0).u2(0);
    let (f, at) = wrap(Level::Method, 5, &p, 2, &a.0);
    run_attrs(Level::Method, &f, at, &cp);
}
/// two pools filled in turns, each as the symbolic choice says; a third parsed in between
pub fn c31_pools(case: u64) {
    let mut p = crate::pools::mk_pool(case / 10 % 10);
    let mut q = crate::pools::mk_pool(case / 100 % 10);
    let (mut m, mut n) = (crate::pools::Model::new(), crate::pools::Model::new());
    let mut i = 0;
    while i < case % 10 {
        let it = crate::pools::any_item([7, 5, 0][pick(3)], 1);
        if pick(2) == 0 { m.push(&mut p, it); } else { n.push(&mut q, it); }
        if i == 1 { let _ = parse(&before(0)); }
        m.all_there(&p);
        n.all_there(&q);
        i += 1;
    }
    reach("pools filled");
}
/// a type or method descriptor after other ones, some malformed: case = method? * 1000 + before * 100 + n
pub fn c31_desc(case: u64) {
    let early = ["[[Ljava/lang/String;", "(I[JLa/B;", "[[[[[Q", "(ILa;)Lb/c", "([[[)V"];
    let s = early[(case / 100 % 10) as usize];
    let a: std::result::Result<jbcrs::TypeDescriptor, jbcrs::Error> = s.parse();
    let b: std::result::Result<jbcrs::MethodDescriptor, jbcrs::Error> = s.parse();
    if case >= 1000 { crate::desc::c27_method(case % 100) } else { crate::desc::c26_type(case % 100) }
    drop((a, b));
}
