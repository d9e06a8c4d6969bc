//! The properties as assertions over symbolic inputs. `case` selects bounds and shape.
use crate::file::*;
use crate::refm::*;
use crate::refpool::*;
use crate::sym::*;
use jbcrs::basic::*;
use jbcrs::Error;

// ------------------------------------------------------------------------------------ C01, C02
/// live heap allowed while parsing n bytes (C02)
fn allowance(n: usize) -> usize { 512 * n + 8192 }
fn total(f: &[u8], mem: bool) {
    if mem { budget(allowance(f.len())) } else { step_limit(2_000_000 + 20_000 * f.len()) }
    match parse(f) { Ok(_) => reach("parsed"), Err(_) => reach("rejected") }
    budget(0);
}
/// raw: n bytes; with `magic`, the first eight are those of a class file
fn raw(case: u64, mem: bool) {
    let n = (case % 100) as usize;
    let mut b = B::new();
    if case >= 100 { b.head(); }
    b.sym(n);
    total(&b.0, mem)
}
/// case = kind * 1000 + level * 100 + n: an attribute of a known kind with symbolic length and n symbolic bytes
fn known_attr(case: u64) -> Vec<u8> {
    let (k, l, n) = ((case / 1000) as usize, level(case / 100 % 10), (case % 100) as usize);
    let name = if k < 26 { NAMES[k].0 } else { "Unknown" };
    let (p, _) = std_pool(name.as_bytes());
    let mut a = B::new();
    a.u2(1).u2(4).sym(4 + n);
    wrap(l, 5, &p, 2, &a.0).0
}
/// a class with one method with a code attribute of symbolic code length and n symbolic bytes
fn code_file(n: usize, prefix: &[u8], exact: bool) -> Vec<u8> {
    let (p, _) = std_pool(b"LineNumberTable");
    let mut a = B::new();
    let len = prefix.len() + n;
    a.u2(1).u2(2).u4(12 + len as u32).u2(1).u2(1);
    if exact { a.u4(len as u32); } else { a.sym(4); }
    a.raw(prefix).sym(n);
    a.u2(0).u2(0);
    wrap(Level::Method, 5, &p, 2, &a.0).0
}
/// switch in code at offset `al`: padding, default and bounds symbolic, then `rows` 32-bit words that are concrete, then `n` symbolic bytes;
/// what the switch does not take up is further code. case = lookup? * 10000 + rows * 100 + al * 10 + n
fn switch_file(case: u64) -> Vec<u8> {
    let (lookup, rows, al, n) = (case / 10000 == 1, (case / 100 % 100) as usize, (case / 10 % 10) as usize, (case % 10) as usize);
    let head = 3 - (al & 3) + if lookup { 8 } else { 12 };
    let (p, _) = std_pool(b"LineNumberTable");
    let mut a = B::new();
    let len = al + 1 + head + 4 * rows + n;
    a.u2(1).u2(2).u4(12 + len as u32).u2(1).u2(1).u4(len as u32);
    a.raw(&[0u8; 10][..al]).u1(if lookup { 0xab } else { 0xaa }).sym(head);
    for i in 0..rows { a.u4(i as u32); }
    a.sym(n).u2(0).u2(0);
    wrap(Level::Method, 5, &p, 2, &a.0).0
}
pub fn c01_raw(case: u64) { raw(case, false) }
pub fn c01_attr(case: u64) { let f = known_attr(case); total(&f, false) }
pub fn c01_code(case: u64) { let f = code_file(case as usize % 100, &[], case >= 100); total(&f, false) }
pub fn c01_switch(case: u64) { let f = switch_file(case); total(&f, false) }
pub fn c02_raw(case: u64) { raw(case, true) }
pub fn c02_attr(case: u64) { let f = known_attr(case); total(&f, true) }
pub fn c02_code(case: u64) { let f = code_file(case as usize % 100, &[], case >= 100); total(&f, true) }
pub fn c02_switch(case: u64) { let f = switch_file(case); total(&f, true) }
/// many repetitions of a part: memory must follow the input
pub fn c02_many(case: u64) { let f = many(case); total(&f, true) }
pub fn c01_many(case: u64) { let f = many(case); total(&f, false) }
/// case = shape * 10000 + repetitions; what is repeated is concrete, what follows symbolic
fn many(case: u64) -> Vec<u8> {
    hash_mode(1);
    let n = (case % 10000) as usize;
    let mut body = B(Vec::with_capacity(n * 12 + 64));
    let (name, l): (&str, Level) = match case / 10000 {
        0 => { body.u2(1).u2(1).u4(0); body.0.clear(); body.u2(1).u2(1).u4(1 + n as u32); for _ in 0..n { body.u1(0); } body.sym(1).u2(0).u2(0); ("Code", Level::Method) }
        1 => { body.u2(n as u16 + 1); for _ in 0..n { body.u2(1).u2(0); } body.sym(4); ("BootstrapMethods", Level::Class) }
        2 => { body.u2(n as u16 + 1); for _ in 0..n { body.u2(1).u2(0); } body.sym(4); ("RuntimeVisibleAnnotations", Level::Class) }
        3 => { body.u1(n as u8).raw(&vec![0u8; 2 * n - 2]); body.sym(2); ("RuntimeVisibleParameterAnnotations", Level::Method) }
        4 => { body.u1(b'[').u2(n as u16 + 1); for _ in 0..n { body.u1(b'[').u2(0); } body.sym(3); ("AnnotationDefault", Level::Method) }
        5 => { body.u2(n as u16 + 1); for _ in 0..n { body.u1(252).u2(0).u1(1); } body.sym(1); ("StackMapTable", Level::Code) }
        6 => { body.u2(n as u16 + 1); for _ in 0..n { body.u1(0x40).u2(0).u1(0).u2(0).u2(0); } body.sym(8); ("RuntimeVisibleTypeAnnotations", Level::Class) }
        _ => { body.u2(1).u2(0).u2(1).u2(0).u2(n as u16 + 1); for _ in 0..n { body.u2(1).u2(0).u2(0); } body.sym(6).u2(0).u2(0).u2(0); ("Module", Level::Class) }
    };
    let (p, _) = std_pool(name.as_bytes());
    let mut a = B::new();
    a.u2(1).u2(4).u4(body.0.len() as u32).raw(&body.0);
    wrap(l, 5, &p, 2, &a.0).0
}
/// list counts in the envelope claim up to 65535 elements, n bytes follow
fn envelope_counts(case: u64) -> Vec<u8> {
    let mut b = B::new();
    b.head().u2(1).u2(0x21).u2(0).u2(0);
    match case / 100 {
        0 => {}
        1 => { b.u2(0); }
        2 => { b.u2(0).u2(0); }
        3 => { b.u2(0).u2(0).u2(0); }
        4 => { b.u2(0).u2(1).u2(0).u2(0).u2(0); }
        _ => { b.u2(0).u2(0).u2(1).u2(0).u2(0).u2(0); }
    }
    b.sym((case % 100) as usize);
    b.0
}
pub fn c02_counts(case: u64) { let f = envelope_counts(case); total(&f, true) }
pub fn c01_counts(case: u64) { let f = envelope_counts(case); total(&f, false) }

// ------------------------------------------------------------------------------------ C03
/// case = shape * 100000 + levels. What is at the innermost level is symbolic.
fn nested(shape: u64, levels: usize) -> Vec<u8> {
    let mut body = B(Vec::with_capacity(levels * 12 + 64));
    let name: &str;
    if shape < 4 {
        let mut i = 0;
        while i < levels {
            // outermost level is the annotation or array itself
            let ann = match shape { 0 => false, 1 => true, 2 => i % 2 == 0, _ => i % 3 == 0 };
            if ann { body.u1(b'@').u2(1).u2(1).u2(1); } else { body.u1(b'[').u2(1); }
            i += 1;
        }
        body.sym(3);
        name = "AnnotationDefault";
    } else {
        name = "Code";
        // code attributes inside code attributes
        let mut i = levels;
        while i > 0 {
            i -= 1;
            let left = i as u32;
            // own header 8 + 1 byte code + 2 + 2, then one nested attribute (6 bytes of header)
            body.u2(1).u2(1).u4(1).u1(0xb1).u2(0);
            if i == 0 { body.u2(0); } else { body.u2(1).u2(4).u4(13 * left + 6 * (left - 1)); }
        }
    }
    let (p, _) = std_pool(name.as_bytes());
    let mut a = B(Vec::with_capacity(body.0.len() + 64));
    match shape {
        5 => { // as the element value of a type annotation
            a.u2(1).u2(4);
        }
        _ => { a.u2(1).u2(4); }
    }
    a.u4(body.0.len() as u32).raw(&body.0);
    wrap(Level::Method, 5, &p, 2, &a.0).0
}
/// nested inside the annotations of the other annotation attributes
fn nested_in(shape: u64, levels: usize) -> Vec<u8> {
    let mut v = B(Vec::with_capacity(levels * 3 + 64));
    let mut i = 0;
    while i < levels { v.u1(b'[').u2(1); i += 1; }
    v.sym(3);
    let mut body = B(Vec::with_capacity(v.0.len() + 64));
    let name = match shape {
        10 => { body.u2(1).u2(1).u2(1).u2(1); "RuntimeVisibleAnnotations" }
        11 => { body.u2(1).u2(1).u2(1).u2(1); "RuntimeInvisibleAnnotations" }
        12 => { body.u1(1).u2(1).u2(1).u2(1).u2(1); "RuntimeVisibleParameterAnnotations" }
        13 => { body.u1(1).u2(1).u2(1).u2(1).u2(1); "RuntimeInvisibleParameterAnnotations" }
        14 => { body.u2(1).u1(0x13).u1(0).u2(1).u2(1).u2(1); "RuntimeVisibleTypeAnnotations" }
        _ => { body.u2(1).u1(0x13).u1(0).u2(1).u2(1).u2(1); "RuntimeInvisibleTypeAnnotations" }
    };
    body.raw(&v.0);
    let (p, _) = std_pool(name.as_bytes());
    let mut a = B(Vec::with_capacity(body.0.len() + 64));
    a.u2(1).u2(4).u4(body.0.len() as u32).raw(&body.0);
    wrap(Level::Class, 5, &p, 2, &a.0).0
}
pub fn c03_nest(case: u64) {
    let (shape, levels) = (case / 100000, (case % 100000) as usize);
    let f = if shape < 10 { nested(shape, levels) } else { nested_in(shape, levels) };
    let r = parse(&f);
    if levels <= 32 {
        match r {
            Ok(_) => reach("nested input parsed"),
            Err(_) => {
                let w = walk_class(&mut R::new(&f), None);
                check(w.is_err(), "well-formed input nested at most 32 levels deep rejected");
            }
        }
    } else {
        check(r.is_err(), "input nested beyond any fixed depth accepted");
        reach("deep input rejected");
    }
}
/// Each of the outermost and innermost levels is an array or an annotation, symbolically.
pub fn c03_mix(case: u64) {
    let levels = (case % 100000) as usize;
    let mut body = B(Vec::with_capacity(levels * 8));
    let mut i = 0;
    while i < levels {
        let free = i < 3 || i + 3 >= levels;
        let ann = if free { pick(2) == 1 } else { i % 2 == (case / 100000) as usize };
        if ann { body.u1(b'@').sym(2).u2(1).sym(2); } else { body.u1(b'[').u2(1); }
        i += 1;
    }
    body.sym(3);
    let (p, _) = std_pool(b"AnnotationDefault");
    let mut a = B(Vec::with_capacity(body.0.len() + 64));
    a.u2(1).u2(4).u4(body.0.len() as u32).raw(&body.0);
    let f = wrap(Level::Method, 5, &p, 2, &a.0).0;
    let r = parse(&f);
    if levels <= 32 {
        if r.is_err() { check(walk_class(&mut R::new(&f), None).is_err(), "well-formed input nested at most 32 levels deep rejected"); } else { reach("nested input parsed") }
    } else {
        check(r.is_err(), "input nested beyond any fixed depth accepted");
        reach("deep input rejected");
    }
}

// ------------------------------------------------------------------------------------ C04
/// Files to cut and extend: every attribute kind last, with n symbolic bytes of content.
fn complete(case: u64) -> Vec<u8> {
    let (k, l, n) = ((case / 1000) as usize, level(case / 100 % 10), (case % 100) as usize);
    if k == 30 { // envelope only
        let mut b = B::new();
        b.head().u2(3).u1(1).u2(2).sym(2).u1(4).sym(4);
        assume(b.0[13] < 0x80 && b.0[13] > 0 && b.0[14] < 0x80 && b.0[14] > 0);
        b.sym(6).u2(1).sym(2).u2(1).sym(6).u2(0).u2(1).sym(6).u2(0).u2(0);
        return b.0;
    }
    let name = if k < 26 { NAMES[k].0 } else { "Unknown" };
    let (p, _) = std_pool(name.as_bytes());
    let mut a = B::new();
    if k == 27 { // code: n symbolic bytes and a return, an exception handler, a further attribute
        a.u2(1).u2(2).u4((12 + n + 1 + 8 + 7) as u32).sym(4).u4(n as u32 + 1).sym(n).u1(0xb1).u2(1).sym(8).u2(1).u2(4).u4(1).sym(1);
        return wrap(Level::Method, 5, &p, 2, &a.0).0;
    }
    a.u2(1).u2(4).u4(n as u32).sym(n);
    wrap(l, 5, &p, 2, &a.0).0
}
pub fn c04_cut(case: u64) {
    let f = complete(case);
    let r = parse(&f);
    if r.is_err() { return; }
    reach("complete file parsed");
    let k = any_u16() as usize;
    assume(k < f.len());
    let k = conc(k);
    check(parse(&f[..k]).is_err(), "file cut before its end accepted");
}
pub fn c04_append(case: u64) {
    let f = complete(case);
    let n = f.len();
    let r = parse(&f);
    let (p, c) = match r { Ok(x) => x, Err(_) => return };
    let mut g = B(f);
    g.sym(9);
    let m = pick(9) + 1;
    match parse(&g.0[..n + m]) {
        Err(_) => check(false, "file followed by surplus bytes rejected"),
        Ok((q, d)) => {
            check(crate::eq::class(&c, &d), "surplus bytes changed a parsed value");
            check(crate::eq::pool(&p, &q), "surplus bytes changed the pool");
            reach("file with surplus bytes parsed");
        }
    }
}
/// a class file as javac writes it, cut within 32 positions from part * 32: case = file * 1000 + part; part 999: whole, with surplus bytes
pub fn c04_real(case: u64) {
    let f = crate::around::REAL[(case / 1000) as usize];
    if case % 1000 < 999 {
        let k = (case % 1000) as usize * 32 + pick(32);
        if k >= f.len() { return; }
        check(parse(&f[..k]).is_err(), "class file cut before its end accepted");
        reach("class file cut");
        return;
    }
    let (p, c) = match parse(f) { Ok(x) => x, Err(_) => { check(false, "class file rejected"); return } };
    let mut g = B(f.to_vec());
    g.sym(9);
    let m = pick(9) + 1;
    match parse(&g.0[..f.len() + m]) {
        Err(_) => check(false, "class file followed by surplus bytes rejected"),
        Ok((q, d)) => {
            check(crate::eq::class(&c, &d), "surplus bytes changed a parsed value of a class file");
            check(crate::eq::pool(&p, &q), "surplus bytes changed the pool of a class file");
        }
    }
}

// ------------------------------------------------------------------------------------ C05, C06
fn envelope(f: &[u8], at: usize, cp: &Cp) {
    let res = parse(f);
    judge(Judge::Values, &res, &mut |v| {
        if let Some(v) = v {
            check(v.1.minor_version == (f[4] as u16) << 8 | f[5] as u16, "minor version");
            check(v.1.major_version == (f[6] as u16) << 8 | f[7] as u16, "major version");
        }
        walk_rest(&mut R::at(f, at, f.len()), cp, v.map(|v| &v.1))
    });
}
/// n symbolic bytes after an empty constant pool
pub fn c05_envelope(case: u64) {
    let mut b = B::new();
    b.u4(0xcafebabe).sym(4).u2(1).sym(case as usize);
    envelope(&b.0, 10, &Cp { utf: vec![None] });
}
/// fields and methods with attributes: case = fields * 100 + methods * 10 + attributes each
pub fn c05_members(case: u64) {
    let (nf, nm, na) = (case / 100 % 10, case / 10 % 10, case % 10);
    let mut b = B::new();
    b.u4(0xcafebabe).sym(4).u2(3).utf(b"Deprecated").utf(b"Custom");
    let at = b.0.len();
    b.sym(6).u2(2).sym(4);
    let mut member = |b: &mut B, odd: u64| {
        b.sym(6).u2(na as u16);
        for i in 0..na { if (i + odd) % 2 == 0 { b.u2(1).u4(0); } else { b.u2(2).u4(2).sym(2); } }
    };
    b.u2(nf as u16);
    for i in 0..nf { member(&mut b, i); }
    b.u2(nm as u16);
    for i in 0..nm { member(&mut b, i + 1); }
    b.u2(2).u2(2).u4(1).sym(1).u2(1).u4(0);
    envelope(&b.0, at, &Cp { utf: vec![None, Some(b"Deprecated".to_vec()), Some(b"Custom".to_vec())] });
}
/// long lists: case = what * 100000 + count
pub fn c05_long(case: u64) {
    let n = (case % 100000) as usize;
    let mut b = B(Vec::with_capacity(n * 8 + 100));
    b.u4(0xcafebabe).sym(4).u2(2).utf(b"Deprecated");
    let at = b.0.len();
    b.sym(6);
    match case / 100000 {
        0 => { b.u2(n as u16).sym(n * 2).u2(0).u2(0).u2(0); }
        1 => { b.u2(1).sym(2).u2(n as u16); for _ in 0..n { b.sym(6).u2(0); } b.u2(0).u2(0); }
        2 => { b.u2(0).u2(0).u2(n as u16); for _ in 0..n { b.sym(6).u2(0); } b.u2(0); }
        3 => { b.u2(0).u2(0).u2(0).u2(n as u16); for _ in 0..n { b.u2(1).u4(0); } }
        4 => { b.u2(0).u2(1).sym(6).u2(n as u16); for _ in 0..n { b.u2(1).u4(0); } b.u2(1).sym(6).u2(0).u2(0); }
        // as before, with concrete contents apart from the last element
        5 => { b.u2(n as u16); for i in 1..n { b.u2(i as u16); } b.sym(2).u2(0).u2(0).u2(0); }
        6 => { b.u2(0).u2(n as u16); for i in 1..n { b.u2(1).u2(i as u16).u2(2).u2(0); } b.sym(6).u2(0).u2(0).u2(0); }
        _ => { b.u2(0).u2(0).u2(n as u16); for i in 1..n { b.u2(1).u2(i as u16).u2(2).u2(0); } b.sym(6).u2(0).u2(0); }
    }
    envelope(&b.0, at, &Cp { utf: vec![None, Some(b"Deprecated".to_vec())] });
}
/// n bytes that do not start with the magic number
pub fn c05_magic(case: u64) {
    let b = bytes(case as usize);
    match parse(&b) {
        Ok(_) => check(b[0] == 0xca && b[1] == 0xfe && b[2] == 0xba && b[3] == 0xbe, "accepted without the magic number"),
        Err(e) => if b.len() >= 4 {
            let m = (b[0] == 0xca) & (b[1] == 0xfe) & (b[2] == 0xba) & (b[3] == 0xbe);
            let n = matches!(e, Error::NotAClass);
            check(m != n, "not being a class is reported exactly when the magic number is wrong");
            if n { reach("not a class") } else { reach("a class") }
        }
    }
}

const MASKS: [(AccessFlags, u16); 21] = [
    (AccessFlags::PUBLIC, 0x0001), (AccessFlags::PRIVATE, 0x0002), (AccessFlags::PROTECTED, 0x0004), (AccessFlags::STATIC, 0x0008),
    (AccessFlags::FINAL, 0x0010), (AccessFlags::SUPER, 0x0020), (AccessFlags::SYNCHRONIZED, 0x0020), (AccessFlags::VOLATILE, 0x0040),
    (AccessFlags::BRIDGE, 0x0040), (AccessFlags::STATIC_PHASE, 0x0040), (AccessFlags::TRANSIENT, 0x0080), (AccessFlags::VARARGS, 0x0080),
    (AccessFlags::NATIVE, 0x0100), (AccessFlags::INTERFACE, 0x0200), (AccessFlags::ABSTRACT, 0x0400), (AccessFlags::STRICT, 0x0800),
    (AccessFlags::SYNTHETIC, 0x1000), (AccessFlags::ANNOTATION, 0x2000), (AccessFlags::ENUM, 0x4000), (AccessFlags::MODULE, 0x8000),
    (AccessFlags::MANDATED, 0x8000),
];
fn flags_ok(f: AccessFlags, bits: u16, m: &'static str) {
    check(f.bits() == bits, m);
    let mut i = 0;
    while i < 21 { check(f.contains(MASKS[i].0) == (bits & MASKS[i].1 == MASKS[i].1), "a named flag answers for its mask"); i += 1; }
}
/// case: where the flags are
pub fn c06_flags(case: u64) {
    let x = any_u16();
    let y = any_u16();
    let member = |name: &str, l: Level, body: &[u8]| -> Vec<u8> {
        let (p, _) = std_pool(name.as_bytes());
        let mut a = B::new();
        a.u2(1).u2(4).u4(body.len() as u32).raw(body);
        wrap(l, 5, &p, 2, &a.0).0
    };
    let mut b = B::new();
    let f = match case {
        0 => { b.head().u2(1).u2(x).u2(0).u2(0).u2(0).u2(0).u2(0).u2(0); b.0 }
        1 => { b.head().u2(1).u2(0).u2(0).u2(0).u2(0).u2(2).u2(x).u2(0).u2(0).u2(0).u2(y).u2(0).u2(0).u2(0).u2(0).u2(0); b.0 }
        2 => { b.head().u2(1).u2(0).u2(0).u2(0).u2(0).u2(0).u2(2).u2(x).u2(0).u2(0).u2(0).u2(y).u2(0).u2(0).u2(0).u2(0); b.0 }
        3 => { b.u2(2).u2(1).u2(1).u2(1).u2(x).u2(1).u2(1).u2(1).u2(y); member("InnerClasses", Level::Class, &b.0) }
        // MethodParameters: C24 decides the width of the count; here it follows the JVM specification
        4 => { b.u1(2).u2(1).u2(x).u2(1).u2(y); member("MethodParameters", Level::Method, &b.0) }
        5 => { b.u2(1).u2(x).u2(1).u2(1).u2(1).u2(y).u2(1).u2(0).u2(0).u2(0).u2(0); member("Module", Level::Class, &b.0) }
        _ => { b.u2(1).u2(0).u2(1).u2(0).u2(1).u2(1).u2(x).u2(0).u2(1).u2(1).u2(y).u2(0).u2(0).u2(0); member("Module", Level::Class, &b.0) }
    };
    let c = match parse(&f) { Ok((_, c)) => c, Err(_) => { check(false, "well-formed class rejected"); return } };
    let (p, q) = match case {
        0 => (c.access_flags, None),
        1 => (c.fields[0].access_flags, Some(c.fields[1].access_flags)),
        2 => (c.methods[0].access_flags, Some(c.methods[1].access_flags)),
        3 => match c.attributes[0] { Attribute::InnerClasses(ref t) => (t[0].inner_class_access_flags, Some(t[1].inner_class_access_flags)), _ => { check(false, "InnerClasses"); return } },
        4 => match c.methods[0].attributes[0] { Attribute::MethodParameters(ref t) => (t[0].access_flags, Some(t[1].access_flags)), _ => { check(false, "MethodParameters"); return } },
        5 => match c.attributes[0] { Attribute::Module { flags, ref requires, .. } => (flags, Some(requires[0].flags)), _ => { check(false, "Module"); return } },
        _ => match c.attributes[0] { Attribute::Module { ref exports, ref opens, .. } => (exports[0].flags, Some(opens[0].flags)), _ => { check(false, "Module"); return } },
    };
    flags_ok(p, x, "flags carry the 16 bits stored");
    if let Some(q) = q { flags_ok(q, y, "flags carry the 16 bits stored"); }
    reach("flags read");
}
/// the masks by themselves
pub fn c06_masks(_: u64) {
    let mut i = 0;
    while i < 21 { check(MASKS[i].0.bits() == MASKS[i].1, "mask of a named flag"); i += 1; }
    reach("masks");
}

// ------------------------------------------------------------------------------------ C38
pub const FLAG_NAMES: [&str; 21] = ["PUBLIC", "PRIVATE", "PROTECTED", "STATIC", "FINAL", "SUPER", "SYNCHRONIZED", "VOLATILE", "BRIDGE", "STATIC_PHASE", "TRANSIENT", "VARARGS", "NATIVE", "INTERFACE",
    "ABSTRACT", "STRICT", "SYNTHETIC", "ANNOTATION", "ENUM", "MODULE", "MANDATED"];
const FLAG_MASKS: [u16; 21] = [1, 2, 4, 8, 0x10, 0x20, 0x20, 0x40, 0x40, 0x40, 0x80, 0x80, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x8000];
/// the printed flags of a class (member if case >= 16) whose upper four flags are those of case
pub fn c38_flags(case: u64) {
    let x = any_u16();
    assume((x >> 12) as u64 == case % 16);
    let mut b = B::new();
    let m = case >= 16;
    if m { b.head().u2(1).u2(0).u2(0).u2(0).u2(0).u2(0).u2(1).u2(x).u2(0).u2(0).u2(0).u2(0); } else { b.head().u2(1).u2(x).u2(0).u2(0).u2(0).u2(0).u2(0).u2(0); }
    let c = match parse(&b.0) { Ok((_, c)) => c, Err(_) => { check(false, "well-formed class rejected"); return } };
    let f = if m { c.methods[0].access_flags } else { c.access_flags };
    let s = format!("{:?}", f);
    let t = s.as_bytes();
    let x = conc(x as usize) as u16;
    // names are what letters and underscores make up
    let mut seen = [0u8; 21];
    let mut i = 0;
    let name = |b: u8| b == b'_' || (b >= b'A' && b <= b'Z');
    while i < t.len() {
        if !name(t[i]) { i += 1; continue; }
        let a = i;
        while i < t.len() && name(t[i]) { i += 1; }
        let mut k = 0;
        while k < 21 { if FLAG_NAMES[k].as_bytes() == &t[a..i] { seen[k] += 1; break; } k += 1; }
        check(k < 21, "only flags are named");
    }
    let mut k = 0;
    while k < 21 {
        check(seen[k] <= 1, "a flag is named once");
        check((seen[k] == 1) == (x & FLAG_MASKS[k] == FLAG_MASKS[k]), "a flag is named exactly when it is set");
        k += 1;
    }
    if x == 0 { reach("no flags") } else { reach("flags printed") }
}

// ------------------------------------------------------------------------------------ C07
/// an attribute of each kind, declared length symbolic, n symbolic bytes in the file from its content on
pub fn c07_attr(case: u64) { let f = known_attr(case); run_extent(&f) }
/// an attribute whose declared length is one of those near its content, followed by m more bytes
pub fn c07_near(case: u64) { let f = near(case); run_extent(&f) }
fn near(case: u64) -> Vec<u8> {
    let (k, l, n) = ((case / 1000) as usize, level(case / 100 % 10), (case % 100) as usize);
    let name = if k < 26 { NAMES[k].0 } else { "Unknown" };
    let (p, _) = std_pool(name.as_bytes());
    let d = pick(5);
    let mut a = B::new();
    if k == 27 { // code: n symbolic bytes and a return, an exception handler
        let (p, _) = std_pool(b"Unknown");
        a.u2(2).u2(2).u4((21 + n + d - 2) as u32).sym(4).u4(n as u32 + 1).sym(n).u1(0xb1).u2(1).sym(8).u2(0).u2(3).u4(0);
        return wrap(Level::Method, 5, &p, 2, &a.0).0;
    }
    assume(n + d >= 2);
    a.u2(2).u2(4).u4((n + d - 2) as u32).sym(n).u2(3).u4(0);
    wrap(l, 5, &p, 2, &a.0).0
}
/// code array: declared code length symbolic, n bytes
pub fn c07_code(case: u64) { let f = code_file(case as usize, &[], false); run_extent(&f) }
/// a nested attribute (in code) with symbolic length, n bytes to the end of the code attribute and three after it
pub fn c07_nested(case: u64) { let f = nested_attr(case); run_extent(&f) }
fn nested_attr(case: u64) -> Vec<u8> {
    let (k, n) = ((case / 100) as usize, (case % 100) as usize);
    let (p, _) = std_pool(if k < 26 { NAMES[k].0.as_bytes() } else { b"Unknown" });
    let mut a = B::new();
    a.u2(1).u2(2).u4((13 + 6 + n) as u32).u2(1).u2(1).u4(1).u1(0xb1).u2(0);
    a.u2(1).u2(4).sym(4 + n).sym(3);
    wrap(Level::Class, 5, &p, 2, &a.0).0
}

// ------------------------------------------------------------------------------------ C08, C09
const TAGS: [u8; 16] = [1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19, 20];
fn entry(b: &mut B, tag: u8, strlen: usize) {
    b.u1(tag);
    match tag {
        1 => { let p = b.0.len() + 2; b.u2(strlen as u16).sym(strlen); for i in 0..strlen { let x = b.0[p + i]; assume(x > 0 && x < 0x80); } }
        3 | 4 => { b.sym(4); }
        5 | 6 => { b.sym(8); }
        7 | 8 | 16 | 19 | 20 => { b.sym(2); }
        15 => { let k = any_u8(); assume(k >= 1 && k <= 9); b.u1(k).sym(2); }
        _ => { b.sym(4); }
    }
}
fn slots(tag: u8) -> u16 { if tag == 5 || tag == 6 { 2 } else { 1 } }
fn finish_class(b: &mut B) { b.u2(0x21).u2(0).u2(0).u2(0).u2(0).u2(0).u2(0); }
fn numbering(f: &[u8]) {
    let res = parse(f);
    let w = walk_pool(&mut R::at(f, 8, f.len()));
    match (res, w) {
        (Ok((p, _)), Ok(w)) => {
            check(p.len() == w.count, "pool length is the declared count");
            let mut i = 0u16;
            while i < w.count {
                match (p.get(i), w.ents[i as usize]) {
                    (Ok(x), Some(ref e)) => check(item_is(x, e, f), "lookup yields the entry the file numbers so"),
                    (Err(_), None) => {}
                    (Ok(_), None) => check(false, "lookup of an index that numbers no entry succeeds"),
                    (Err(_), Some(_)) => check(false, "lookup of an entry fails"),
                }
                i += 1;
            }
            reach("pool numbered");
        }
        (Ok(_), Err(_)) => check(false, "pool that exceeds its declared count accepted"),
        (Err(_), Ok(_)) => check(false, "well-formed pool rejected"),
        (Err(_), Err(_)) => reach("pool rejected"),
    }
}
/// case = entries: every combination of kinds, contents symbolic, declared count exact or one less
pub fn c08_kinds(case: u64) {
    let n = (case % 10) as usize;
    let first = case / 10;
    let mut b = B::new();
    b.head().u2(0);
    let mut count = 1;
    for i in 0..n {
        let t = TAGS[if i == 0 && first > 0 { first as usize - 1 } else { pick(16) }];
        entry(&mut b, t, if n < 3 { pick(2) } else { 1 });
        count += slots(t);
    }
    let d = pick(2) as u16;
    b.0[9] = (count - d) as u8;
    finish_class(&mut b);
    // a count one less leaves the last entry in the class body, unless that entry takes two indices
    if d == 1 { let res = parse(&b.0); if walk_pool(&mut R::at(&b.0, 8, b.0.len())).is_err() { check(res.is_err(), "pool that exceeds its declared count accepted"); reach("pool rejected") } return; }
    numbering(&b.0);
}
/// entries repeated, case = sequence of kinds in base 4 (0 UTF8, 1 Integer, 2 Long, 3 Class)
pub fn c08_repeat(case: u64) {
    let n = (case % 10) as usize;
    let mut s = case / 10;
    let mut b = B::new();
    b.head().u2(0);
    let mut count = 1;
    for _ in 0..n {
        let t = [1u8, 3, 5, 7][(s % 4) as usize];
        s /= 4;
        entry(&mut b, t, 1);
        count += slots(t);
    }
    b.0[9] = count as u8;
    finish_class(&mut b);
    numbering(&b.0);
}
/// case = shape * 100000 + count: long pools, concrete with a few symbolic entries
pub fn c08_long(case: u64) {
    let (shape, n) = (case / 100000, (case % 100000) as usize);
    hash_mode(1);
    let mut b = B(Vec::with_capacity(n * 9 + 100));
    b.head();
    match shape {
        0 => { b.u2(n as u16 + 1); for i in 0..n { b.u1(3).u4(i as u32 / 2); } }
        1 => { b.u2((2 * n + 1) as u16); for i in 0..n { b.u1(5).u4(i as u32 % 7).u4(i as u32); } }
        2 => { b.u2((2 * n + 1) as u16); for i in 0..n { b.u1(6).u4(5).u4(i as u32 % 100); } }
        3 => { b.u2((3 * n + 1) as u16); for i in 0..n { b.u1(7).u2(i as u16 % 50).u1(5).u4(0).u4(i as u32 % 9); } }
        _ => { b.u2(n as u16 + 1); for i in 0..n { b.u1(1).u2(2).u1(1 + (i % 100) as u8).u1(1 + (i / 100 % 100) as u8); } }
    }
    finish_class(&mut b);
    let f = b.0;
    let res = parse(&f);
    let (p, _) = match res { Ok(x) => x, Err(_) => { check(false, "well-formed pool rejected"); return } };
    let w = match walk_pool(&mut R::at(&f, 8, f.len())) { Ok(w) => w, Err(_) => { check(false, "reference"); return } };
    check(p.len() == w.count, "pool length is the declared count");
    let mut i = 0u16;
    while i < w.count {
        match (p.get(i), w.ents[i as usize]) {
            (Ok(x), Some(ref e)) => check(item_is(x, e, &f), "lookup yields the entry the file numbers so"),
            (Err(_), None) => {}
            _ => check(false, "lookup of a numbered entry"),
        }
        i += 1;
    }
    reach("pool numbered");
}
/// one entry of each kind at index 1, 2, 3 or 301, all operands symbolic, tag symbolic
pub fn c09_entry(case: u64) {
    let mut b = B::new();
    b.head();
    let before = case % 10;
    let mut idx = 1u16;
    let cat = b.0.len();
    b.u2(0);
    match before {
        0 => {}
        1 => { b.u1(3).u4(7); idx = 2; }
        2 => { b.u1(5).u4(7).u4(8); idx = 3; }
        3 => { b.u1(6).u4(7).u4(8).u1(1).u2(1).u1(b'a'); idx = 4; }
        _ => { for i in 0..300u16 { b.u1(7).u2(i); } idx = 301; }
    }
    let at = b.0.len();
    let t = any_u8();
    b.u1(t);
    match t {
        1 => { b.u2(2).sym(2); let x = (b.0[at + 3], b.0[at + 4]); assume(x.0 > 0 && x.0 < 0x80 && x.1 > 0 && x.1 < 0x80); }
        3 | 4 => { b.sym(4); }
        5 | 6 => { b.sym(8); }
        7 | 8 | 16 | 19 | 20 => { b.sym(2); }
        9 | 10 | 11 | 12 | 18 => { b.sym(4); }
        15 => { b.sym(3); }
        _ => { b.sym(2); }
    }
    let count = idx + slots(t);
    b.0[cat] = (count >> 8) as u8;
    b.0[cat + 1] = count as u8;
    finish_class(&mut b);
    let f = b.0;
    let w = walk_entry(&mut R::at(&f, at, f.len()), idx);
    match (parse(&f), w) {
        (Ok((p, _)), Ok(e)) => {
            match p.get(idx) {
                Ok(x) => { check(item_parts(x).0 == e.tag, "constant kind"); check(item_is(x, &e, &f), "constant value"); }
                Err(_) => check(false, "constant cannot be looked up"),
            }
            reach("constant decoded");
        }
        (Ok(_), Err(_)) => check(false, "undefined constant accepted"),
        (Err(_), Ok(_)) => check(false, "well-formed constant rejected"),
        (Err(e), Err(b)) => { check(error_matches(&e, b), "invalid-constant error carries the entry's index"); reach("constant rejected"); }
    }
}

// ------------------------------------------------------------------------------------ C10
fn text_is(s: &str, b: &[u8]) -> W<bool> { let t = decode_mutf8(b)?; Ok(t[..] == *s.as_bytes()) }
/// a string constant of n symbolic bytes between `pre` and `post` concrete ones, followed by an Integer:
/// case = thousands of pre * 100000000 + post * 100000 + rest of pre * 100 + n
pub fn c10_const(case: u64) {
    let (n, pre, post) = ((case % 100) as usize, (case / 100 % 1000 + case / 100000000 * 1000) as usize, (case / 100000 % 1000) as usize);
    let mut b = B::new();
    b.head().u2(3).u1(1).u2((pre + n + post) as u16);
    let s = b.0.len();
    for i in 0..pre { b.u1(b'a' + (i % 26) as u8); }
    b.sym(n);
    for i in 0..post { b.u1(b'A' + (i % 26) as u8); }
    let e = b.0.len();
    b.u1(3).sym(4);
    finish_class(&mut b);
    let f = b.0;
    if unspecified(&f[s..e]) { return; }
    match parse(&f) {
        Ok((p, _)) => {
            match p.get_utf8(1) {
                Ok(t) => match text_is(&t, &f[s..e]) {
                    Ok(same) => { check(same, "string decodes to the characters it encodes"); reach("string decoded"); }
                    Err(_) => check(false, "malformed string accepted"),
                },
                Err(_) => check(false, "string constant cannot be looked up"),
            }
            let k = (f[e + 1] as u32) << 24 | (f[e + 2] as u32) << 16 | (f[e + 3] as u32) << 8 | f[e + 4] as u32;
            check(match p.get(2) { Ok(&Item::Integer(x)) => x as u32 == k, _ => false }, "the entry after a string is unaffected by it");
        }
        Err(_) => { check(decode_mutf8(&f[s..e]).is_err(), "well-formed string rejected"); reach("string rejected"); }
    }
}
/// the same in a SourceDebugExtension attribute, followed by another attribute
pub fn c10_sde(case: u64) {
    let (n, pre) = ((case % 100) as usize, (case / 100) as usize);
    let (p, _) = std_pool(b"SourceDebugExtension");
    let mut a = B::new();
    a.u2(2).u2(4).u4((pre + n) as u32);
    for i in 0..pre { a.u1(b'a' + (i % 26) as u8); }
    let s = a.0.len();
    a.sym(n).u2(3).u4(0);
    let t: Vec<u8> = a.0[8..s + n].to_vec();
    let f = wrap(Level::Class, 5, &p, 2, &a.0).0;
    if unspecified(&t) { return; }
    match parse(&f) {
        Ok((_, c)) => {
            match c.attributes.first() {
                Some(&Attribute::SourceDebugExtension(ref x)) => match text_is(x, &t) {
                    Ok(same) => { check(same, "text decodes to the characters it encodes"); reach("string decoded"); }
                    Err(_) => check(false, "malformed text accepted"),
                },
                _ => check(false, "SourceDebugExtension is not reported"),
            }
            check(c.attributes.len() == 2 && matches!(c.attributes[1], Attribute::Deprecated), "the attribute after a text is unaffected by it");
        }
        Err(_) => { check(decode_mutf8(&t).is_err(), "well-formed text rejected"); reach("string rejected"); }
    }
}

// ------------------------------------------------------------------------------------ C29
fn named(f: &[u8]) {
    match parse(f) {
        Ok(_) => reach("accepted"),
        Err(ref e) => {
            check(!matches!(*e, Error::IO(_) | Error::InvalidDescriptor { .. } | Error::CPTooLarge), "a parse fails with an error that has nothing to do with it");
            if f.len() < 4 { return; }
            let mut w = walk_class(&mut R::new(f), None);
            if w != Err(Bad::Magic) && f.len() >= 8 { if let Err(b) = walk_pool_strings(&mut R::at(f, 8, f.len()), true) { w = Err(b); } }
            match w {
                Ok(()) => {} // C05 and others
                Err(b) => {
                    check(error_names(e, b), match b {
                        Bad::Limit | Bad::Text => "content that ends too early or too late is not reported as exceeding its limit",
                        Bad::Utf8 => "malformed string is not reported as such",
                        Bad::Magic => "input that is no class file is not reported as such",
                        _ => "error does not name what was found",
                    });
                    match b { Bad::Limit => reach("limit"), Bad::Utf8 => reach("malformed string"), Bad::Magic => reach("not a class file"), Bad::Cp(_) => reach("invalid constant"), _ => reach("other") }
                }
            }
        }
    }
}
/// raw: n bytes, the first eight are those of a class file if case >= 100
pub fn c29_raw(case: u64) { let mut b = B::new(); if case >= 100 { b.head(); } b.sym((case % 100) as usize); named(&b.0) }
pub fn c29_attr(case: u64) { let f = known_attr(case); named(&f) }
pub fn c29_near(case: u64) { let f = near(case); named(&f) }
pub fn c29_nested(case: u64) { let f = nested_attr(case); named(&f) }
pub fn c29_code(case: u64) { let f = code_file(case as usize % 100, &[], case >= 100); named(&f) }
pub fn c29_counts(case: u64) { let f = envelope_counts(case); named(&f) }
/// a complete file cut anywhere
pub fn c29_cut(case: u64) {
    let f = complete(case);
    if parse(&f).is_err() { return; }
    let k = any_u16() as usize;
    assume(k >= 4 && k < f.len());
    let k = conc(k);
    match parse(&f[..k]) { Err(Error::LimitExceeded) => reach("cut file"), _ => check(false, "a file that ends too early is not reported as exceeding its limit") }
}
/// a class file as javac writes it, cut within 32 positions from part * 32: case = file * 1000 + part
pub fn c29_real(case: u64) {
    let f = crate::around::REAL[(case / 1000) as usize];
    let k = (case % 1000) as usize * 32 + pick(32);
    if k < 4 || k >= f.len() { return; }
    match parse(&f[..k]) { Err(Error::LimitExceeded) => reach("cut file"), _ => check(false, "a class file that ends too early is not reported as exceeding its limit") }
}
/// a string constant of n symbolic bytes, more than enough bytes behind it
pub fn c29_string(case: u64) {
    let n = (case % 100) as usize;
    let mut b = B::new();
    b.head().u2(3).u1(1).u2(n as u16);
    let s = b.0.len();
    b.sym(n).u1(3).u4(7);
    finish_class(&mut b);
    let f = b.0;
    if unspecified(&f[s..s + n]) { return; }
    let good = decode_mutf8(&f[s..s + n]).is_ok();
    match parse(&f) {
        Ok(_) => {}
        Err(Error::InvalidUTF8) => { check(!good, "well-formed string reported as malformed"); reach("malformed string") }
        Err(_) => check(false, "malformed string is not reported as such"),
    }
}

// ------------------------------------------------------------------------------------ C30
/// instructions allowed while parsing n bytes
fn work(n: usize) -> usize { 50_000 + 1500 * n }
fn worked(f: &[u8]) {
    work_limit(work(f.len()));
    let r = parse(f);
    work_limit(0);
    match r { Ok(_) => reach("parsed"), Err(_) => reach("rejected") }
}
pub fn c30_raw(case: u64) { let mut b = B::new(); if case >= 100 { b.head(); } b.sym((case % 100) as usize); hash_mode(1); worked(&b.0) }
pub fn c30_attr(case: u64) { let f = known_attr(case); hash_mode(1); worked(&f) }
pub fn c30_code(case: u64) { let f = code_file(case as usize % 100, &[], case >= 100); hash_mode(1); worked(&f) }
pub fn c30_switch(case: u64) { let f = switch_file(case); hash_mode(1); worked(&f) }
pub fn c30_many(case: u64) { let f = many(case); worked(&f) }
pub fn c30_counts(case: u64) { let f = envelope_counts(case); worked(&f) }
/// large envelopes: shape * 100000 + n; different integers, equal strings, one long string, interfaces, fields, methods, class attributes, code attributes, attributes with long names, attributes and a large pool; the end is symbolic
pub fn c30_large(case: u64) {
    hash_mode(1);
    let n = (case % 100000) as usize;
    let mut b = B(Vec::with_capacity(16 * n + 64));
    b.head();
    match case / 100000 {
        0 => { b.u2(n as u16 + 1); for i in 0..n { b.u1(3).u4(i as u32); } b.sym(10).u2(0).u2(0); }
        1 => { b.u2(n as u16 + 1); for _ in 0..n { b.u1(1).u2(3).raw(b"abc"); } b.sym(10).u2(0).u2(0); }
        2 => { b.u2(2).u1(1).u2(n as u16); for i in 0..n - 2 { b.u1(b'a' + (i % 26) as u8); } b.sym(2).sym(6).u2(0).u2(0).u2(0).u2(0); }
        3 => { b.u2(1).u2(0).u2(0).u2(0).u2(n as u16); for _ in 0..n { b.u2(9); } b.sym(4).u2(0).u2(0); }
        4 => { b.u2(1).u2(0).u2(0).u2(0).u2(0).u2(n as u16); for _ in 0..n { b.u2(9).u2(1).u2(2).u2(0); } b.sym(4).u2(0).u2(0); }
        5 => { b.u2(1).u2(0).u2(0).u2(0).u2(0).u2(0).u2(n as u16); for _ in 0..n { b.u2(9).u2(1).u2(2).u2(0); } b.sym(4).u2(0).u2(0); }
        6 => { b.u2(2).utf(b"Unknown").u2(0).u2(0).u2(0).u2(0).u2(0).u2(0).u2(n as u16); for _ in 0..n { b.u2(1).u4(2).u2(7); } b.sym(4); }
        8 => { // n attributes whose name has n characters
            b.u2(2).u1(1).u2(n as u16); for i in 0..n { b.u1(b'a' + (i % 26) as u8); }
            b.u2(0).u2(0).u2(0).u2(0).u2(0).u2(0).u2(n as u16); for _ in 0..n { b.u2(1).u4(0); } b.sym(4);
        }
        9 => { // n constants, the name of n attributes behind them
            b.u2(n as u16 + 2); for i in 0..n { b.u1(3).u4(i as u32); } b.utf(b"Unknown");
            b.u2(0).u2(0).u2(0).u2(0).u2(0).u2(0).u2(n as u16); for _ in 0..n { b.u2(n as u16 + 1).u4(0); } b.sym(4);
        }
        _ => {
            let (p, _) = std_pool(b"LineNumberTable");
            b.u2(5).raw(&p).u2(0x21).u2(1).u2(1).u2(0).u2(0).u2(n as u16);
            for _ in 0..n { b.u2(9).u2(1).u2(1).u2(1).u2(2).u4(25).u2(1).u2(1).u4(1).u1(0xb1).u2(0).u2(1).u2(4).u4(6).u2(1).u2(0).u2(1); }
            b.sym(4).u2(0).u2(0);
        }
    }
    worked(&b.0)
}
/// tables of n entries that all differ, the last one symbolic: shape * 100000 + n, shapes in the order of the source
pub fn c30_tables(case: u64) {
    hash_mode(1);
    let n = (case % 100000) as usize;
    let mut b = B(Vec::with_capacity(32 * n + 64));
    macro_rules! rows { ($name:expr, $l:expr, $head:expr, $i:ident => $row:expr, $last:expr, $tail:expr) => {{
        b.raw($head).u2(n as u16 + 1);
        let mut k = 0;
        while k < n { let $i = k as u16; let r: &[&[u8]] = $row; for x in r { b.raw(x); } k += 1; }
        b.sym($last).raw($tail);
        ($name, $l)
    }} }
    fn w(x: u16) -> [u8; 2] { x.to_be_bytes() }
    let z = [0u8; 16];
    let (name, l): (&str, Level) = match case / 100000 {
        0 => rows!("Exceptions", Level::Method, &[], i => &[&w(i)], 2, &[]),
        1 => rows!("BootstrapMethods", Level::Class, &[], i => &[&w(i), &w(1), &w(i)], 4, &[]),
        2 => rows!("BootstrapMethods", Level::Class, &[0, 1, 0, 1], i => &[&w(i)], 2, &[]),
        3 => rows!("InnerClasses", Level::Class, &[], i => &[&w(i), &w(i), &w(i), &w(i)], 8, &[]),
        4 => rows!("LineNumberTable", Level::Code, &[], i => &[&w(i), &w(!i)], 4, &[]),
        5 => rows!("LocalVariableTable", Level::Code, &[], i => &[&w(i), &w(i), &w(i), &w(i), &w(i)], 10, &[]),
        6 => rows!("LocalVariableTypeTable", Level::Code, &[], i => &[&w(i), &w(i), &w(i), &w(i), &w(i)], 10, &[]),
        7 => rows!("ModulePackages", Level::Class, &[], i => &[&w(i)], 2, &[]),
        8 => rows!("RuntimeVisibleAnnotations", Level::Class, &[], i => &[&w(i), &w(0)], 4, &[]),
        9 => rows!("RuntimeInvisibleAnnotations", Level::Class, &[0, 1, 0, 1], i => &[&w(i), b"I", &w(i)], 5, &[]),
        10 => rows!("AnnotationDefault", Level::Method, b"[", i => &[b"e", &w(i), &w(i)], 5, &[]),
        11 => rows!("RuntimeVisibleTypeAnnotations", Level::Class, &[], i => &[&[0x13, 0], &w(i), &w(0)], 6, &[]),
        12 => rows!("RuntimeInvisibleTypeAnnotations", Level::Code, &[0, 1, 0x40], i => &[&w(i), &w(i), &w(i)], 6, &z[..5]),
        13 => rows!("StackMapTable", Level::Code, &[], i => &[&[251], &w(i)], 3, &[]),
        14 => rows!("StackMapTable", Level::Code, &[0, 1, 255, 0, 0], i => &[&[7], &w(i)], 3, &z[..2]),
        15 => rows!("Module", Level::Class, &z[..6], i => &[&w(i), &w(i), &w(i)], 6, &z[..8]),
        16 => rows!("Module", Level::Class, &z[..8], i => &[&w(i), &w(i), &w(0)], 6, &z[..6]),
        17 => rows!("Module", Level::Class, &[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0], i => &[&w(i)], 2, &z[..6]),
        18 => rows!("Module", Level::Class, &z[..10], i => &[&w(i), &w(i), &w(0)], 6, &z[..4]),
        19 => rows!("Module", Level::Class, &z[..12], i => &[&w(i)], 2, &z[..2]),
        20 => rows!("Module", Level::Class, &z[..14], i => &[&w(i), &w(1), &w(i)], 4, &[]),
        21 => rows!("Module", Level::Class, &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0], i => &[&w(i)], 2, &[]),
        22 => rows!("Code", Level::Method, &[0, 1, 0, 1, 0, 0, 0, 1, 0xb1], i => &[&w(i), &w(i), &w(i), &w(i)], 8, &z[..2]),
        23 => { // lookupswitch
            b.u4(0).u4(12 + 8 * (n as u32 + 1)).u4(0xab << 24).u4(0).u4(n as u32 + 1);
            let mut i = 0;
            while i < n { b.u4(i as u32).u4(i as u32); i += 1; }
            b.u4(n as u32).sym(4).u4(0);
            ("Code", Level::Method)
        }
        24 => { // tableswitch
            b.u4(0).u4(16 + 4 * (n as u32 + 1)).u4(0xaa << 24).u4(0).u4(0).u4(n as u32);
            let mut i = 0;
            while i < n { b.u4(i as u32); i += 1; }
            b.sym(4).u4(0);
            ("Code", Level::Method)
        }
        _ => { // a text
            let mut i = 0;
            while i < n { b.raw(&[0xc3, 0x80 + (i % 64) as u8]); i += 1; }
            b.sym(2);
            ("SourceDebugExtension", Level::Class)
        }
    };
    let (p, _) = std_pool(name.as_bytes());
    let mut a = B(Vec::with_capacity(b.0.len() + 64));
    a.u2(1).u2(4).u4(b.0.len() as u32).raw(&b.0);
    worked(&wrap(l, 5, &p, 2, &a.0).0)
}
