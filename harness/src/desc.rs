//! C26 to C28: descriptors.
use crate::sym::*;
use jbcrs::{Error, MethodDescriptor, Type, TypeDescriptor};

/// base type as a character, 'L' with the extent of the name
#[derive(Clone, Copy)]
struct T { dims: usize, base: u8, s: usize, e: usize }
fn ref_type(b: &[u8], at: usize) -> Option<(T, usize)> {
    let mut i = at;
    while i < b.len() && b[i] == b'[' { i += 1; }
    let dims = i - at;
    if dims > 255 || i >= b.len() { return None; }
    match b[i] {
        b'B' | b'C' | b'D' | b'F' | b'I' | b'J' | b'S' | b'Z' => Some((T { dims, base: b[i], s: 0, e: 0 }, i + 1)),
        b'L' => {
            let s = i + 1;
            let mut e = s;
            while e < b.len() && b[e] != b';' { e += 1; }
            if e == b.len() || e == s { return None; }
            Some((T { dims, base: b'L', s, e }, e + 1))
        }
        _ => None,
    }
}
fn is(t: &TypeDescriptor, r: &T, b: &[u8]) -> bool {
    if t.dimensions as usize != r.dims { return false; }
    match t.base_type {
        Type::Byte => r.base == b'B', Type::Char => r.base == b'C', Type::Double => r.base == b'D', Type::Float => r.base == b'F',
        Type::Int => r.base == b'I', Type::Long => r.base == b'J', Type::Short => r.base == b'S', Type::Boolean => r.base == b'Z',
        Type::Reference(ref s) => r.base == b'L' && *s.as_bytes() == b[r.s..r.e],
    }
}
fn error_ok<T>(r: &Result<T, Error>, s: &[u8]) {
    match *r {
        Err(Error::InvalidDescriptor { ref desc, .. }) => check(*desc.as_bytes() == *s, "the error carries the string"),
        _ => check(false, "a malformed descriptor is rejected with an invalid-descriptor error"),
    }
    reach("rejected");
}
/// n characters, the `wide` bits of which are 2 to 4 byte ones
fn chars(v: &mut Vec<u8>, n: usize, wide: u64) {
    for i in 0..n {
        let b;
        if wide >> (2 * i) & 3 != 0 {
            match wide >> (2 * i) & 3 {
                1 => { b = bytes(2); assume(b[0] >= 0xc2 && b[0] <= 0xdf && b[1] & 0xc0 == 0x80); }
                2 => { b = bytes(3); assume((b[0] >= 0xe0) & (b[0] <= 0xef) & (b[1] & 0xc0 == 0x80) & (b[2] & 0xc0 == 0x80) & ((b[0] != 0xe0) | (b[1] >= 0xa0)) & ((b[0] != 0xed) | (b[1] < 0xa0))); }
                _ => { b = bytes(4); assume((b[0] >= 0xf0) & (b[0] <= 0xf4) & (b[1] & 0xc0 == 0x80) & (b[2] & 0xc0 == 0x80) & (b[3] & 0xc0 == 0x80) & ((b[0] != 0xf0) | (b[1] >= 0x90)) & ((b[0] != 0xf4) | (b[1] < 0x90))); }
            }
        } else { b = bytes(1); assume(b[0] < 0x80); }
        v.extend_from_slice(&b);
    }
}
fn as_str(v: &Vec<u8>) -> &str { unsafe { std::str::from_utf8_unchecked(v) } }
fn type_prefix(v: &mut Vec<u8>, p: u64) {
    match p {
        0 => {}
        1..=299 => for _ in 0..p { v.push(b'[') },
        300..=399 => { v.push(b'L'); for i in 0..(p - 300) * 10 { v.push(b'a' + (i % 26) as u8); } }
        2000..=2999 => { v.push(b'L'); v.resize((p - 2000) as usize * 1000, b'q'); }
        _ => { for _ in 0..p - 400 { v.push(b'['); } v.extend_from_slice(b"Ljava/lang/Obj"); }
    }
}
/// case = prefix * 1000000 + wide * 10 + n
fn type_string(case: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(1200);
    type_prefix(&mut v, case / 1000000);
    chars(&mut v, (case % 10) as usize, case / 10 % 100000);
    v
}
pub fn c26_type(case: u64) {
    let v = type_string(case);
    let r: Result<TypeDescriptor, Error> = as_str(&v).parse();
    let want = match ref_type(&v, 0) { Some((t, e)) if e == v.len() => Some(t), _ => None };
    match want {
        Some(t) => match r {
            Ok(ref d) => { check(is(d, &t, &v), "a type descriptor is reported as written"); reach("accepted"); }
            Err(_) => check(false, "well-formed type descriptor rejected"),
        },
        None => error_ok(&r, &v),
    }
}
/// case = prefix * 1000000 + wide * 10 + n; prefix: see code
fn method_string(case: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(1200);
    let p = case / 1000000;
    match p {
        0 => {}
        1 => v.push(b'('),
        2 => v.extend_from_slice(b"()"),
        3 => v.extend_from_slice(b"([[Ljava/lang/String;I"),
        4 => v.extend_from_slice(b"(Lab"),
        5 => v.extend_from_slice(b"()Lab"),
        6 => v.extend_from_slice(b"(J"),
        7 => v.extend_from_slice(b"(IDLX;)"),
        100..=399 => { v.push(b'('); for i in 0..p - 100 { v.push(b"BCDFIJSZ"[(i % 8) as usize]); } }
        400..=699 => { v.push(b'('); for _ in 0..p - 400 { v.push(b'['); } }
        700..=999 => { v.extend_from_slice(b"(I)"); for _ in 0..p - 700 { v.push(b'['); } }
        1000..=1299 => { v.push(b'('); for i in 0..p - 1000 { if i % 2 == 0 { v.extend_from_slice(b"La;") } else { v.extend_from_slice(b"[J") } } }
        2000..=2999 => { v.extend_from_slice(b"(IL"); v.resize((p - 2000) as usize * 1000, b'q'); }
        3000..=3999 => { v.extend_from_slice(b"([J)L"); v.resize((p - 3000) as usize * 1000, b'q'); }
        _ => v.push(b'('),
    }
    chars(&mut v, (case % 10) as usize, case / 10 % 100000);
    v
}
struct M { params: Vec<T>, ret: Option<T> }
fn ref_method(b: &[u8]) -> Option<M> {
    if b.is_empty() || b[0] != b'(' { return None; }
    let mut m = M { params: Vec::with_capacity(260), ret: None };
    let mut i = 1;
    loop {
        if i >= b.len() { return None; }
        if b[i] == b')' { break; }
        let (t, e) = ref_type(b, i)?;
        m.params.push(t);
        if m.params.len() > 255 { return None; }
        i = e;
    }
    i += 1;
    if i >= b.len() { return None; }
    if b[i] == b'V' { i += 1; } else { let (t, e) = ref_type(b, i)?; m.ret = Some(t); i = e; }
    if i == b.len() { Some(m) } else { None }
}
pub fn c27_method(case: u64) {
    let v = method_string(case);
    let r: Result<MethodDescriptor, Error> = as_str(&v).parse();
    match ref_method(&v) {
        Some(m) => match r {
            Ok(ref d) => {
                check(d.params.len() == m.params.len(), "every parameter is reported");
                let mut i = 0;
                while i < m.params.len() { check(is(&d.params[i], &m.params[i], &v), "a parameter is reported as written"); i += 1; }
                check(match (&d.return_type, &m.ret) { (&None, &None) => true, (&Some(ref a), &Some(ref b)) => is(a, b, &v), _ => false }, "the return type is reported as written");
                reach("accepted");
            }
            Err(_) => check(false, "well-formed method descriptor rejected"),
        },
        None => error_ok(&r, &v),
    }
}
pub fn c28_type(case: u64) {
    let v = type_string(case);
    let r: Result<TypeDescriptor, Error> = as_str(&v).parse();
    if let Ok(d) = r { let s = d.to_string(); check(s.as_bytes() == &v[..], "a parsed type descriptor prints as the original"); reach("printed"); }
}
pub fn c28_method(case: u64) {
    let v = method_string(case);
    let r: Result<MethodDescriptor, Error> = as_str(&v).parse();
    if let Ok(d) = r { let s = d.to_string(); check(s.as_bytes() == &v[..], "a parsed method descriptor prints as the original"); reach("printed"); }
}
fn base(k: usize, n: usize) -> Type {
    match k {
        0 => Type::Boolean, 1 => Type::Byte, 2 => Type::Short, 3 => Type::Int, 4 => Type::Long, 5 => Type::Float, 6 => Type::Double, 7 => Type::Char,
        _ => {
            let b = bytes(n);
            for x in b.iter() { assume(*x < 0x80 && *x != b';'); }
            Type::Reference(unsafe { String::from_utf8_unchecked(b) })
        }
    }
}
/// case = name length; dimensions and base type symbolic
pub fn c28_value(case: u64) {
    let d = TypeDescriptor::new(conc(any_u8() as usize) as u8, base(pick(9), case as usize));
    let s = d.to_string();
    let r: Result<TypeDescriptor, Error> = s.parse();
    check(match r { Ok(ref e) => *e == d, Err(_) => false }, "the printed form of a type descriptor parses to an equal value");
    reach("printed");
}
/// case = parameters * 10 + name length
pub fn c28_mvalue(case: u64) {
    let n = case / 10;
    let mut p = Vec::with_capacity(n as usize);
    for i in 0..n {
        if n > 4 { p.push(TypeDescriptor::new((i % 3) as u8, base((i % 9) as usize, 1))); }
        else { p.push(TypeDescriptor::new(pick(3) as u8, base([2, 8, 4][pick(3)], (case % 10) as usize))); }
    }
    let r = if pick(2) == 0 { None } else { Some(TypeDescriptor::new(pick(3) as u8, base(pick(9), 1))) };
    let d = MethodDescriptor::new(p, r);
    let s = d.to_string();
    let r: Result<MethodDescriptor, Error> = s.parse();
    check(match r { Ok(ref e) => *e == d, Err(_) => false }, "the printed form of a method descriptor parses to an equal value");
    reach("printed");
}

// ------------------------------------------------------------------------------------ C35
/// bytes on the heap and instructions allowed for a descriptor of n bytes
fn memory(n: usize) -> usize { 512 * n + 8192 }
fn work(n: usize) -> usize { 20_000 + 600 * n }
fn cost(v: &Vec<u8>, method: bool) {
    let s = as_str(v);
    budget(memory(v.len()));
    work_limit(work(v.len()));
    let mut t = None;
    let mut m = None;
    if method { m = s.parse::<MethodDescriptor>().ok(); } else { t = s.parse::<TypeDescriptor>().ok(); }
    work_limit(0);
    budget(0);
    if t.is_none() && m.is_none() { reach("rejected"); return; }
    budget(memory(v.len()));
    work_limit(work(v.len()));
    let p = match (&t, &m) { (&Some(ref t), _) => t.to_string(), (_, &Some(ref m)) => m.to_string(), _ => String::new() };
    work_limit(0);
    budget(0);
    check(p.len() == v.len(), "a parsed descriptor prints as the original");
    reach("printed");
}
pub fn c35_type(case: u64) { let v = type_string(case); cost(&v, false) }
pub fn c35_method(case: u64) { let v = method_string(case); cost(&v, true) }
/// long strings that end in two symbolic characters: case = method? * 10000000 + shape * 1000000 + length
pub fn c35_large(case: u64) {
    let n = (case % 1_000_000) as usize;
    let mut v = Vec::with_capacity(n + 16);
    let method = case >= 10_000_000;
    if method { v.push(b'('); }
    match case / 1_000_000 % 10 {
        0 => v.resize(n, b'['),
        1 => { v.push(b'L'); v.resize(n, b'n'); }
        2 => while v.len() < n { v.extend_from_slice(b"La;") },
        3 => v.resize(n, b'I'),
        4 => while v.len() < n { v.extend_from_slice(b"[[J") },
        5 => { while v.len() < n / 2 { v.push(b'D'); if v.len() % 40 == 0 { v.push(b'L'); v.resize(v.len() + 300, b'c'); v.push(b';'); } } }
        6 => { v.extend_from_slice(b"I)"); v.resize(n, b'['); }
        7 => { v.extend_from_slice(b"I)L"); v.resize(n, b'n'); }
        8 => { v.push(b'L'); while v.len() < n { v.extend_from_slice("\u{20ac}/".as_bytes()); } }
        _ => while v.len() < n { v.extend_from_slice(b";") },
    }
    chars(&mut v, 3, 0);
    cost(&v, method)
}

// ------------------------------------------------------------------------------------ C37
/// where a type ends, or the byte at which no well-formed type can go on (the length: the end comes too early)
fn type_fault(b: &[u8], at: usize) -> Result<usize, usize> {
    let mut i = at;
    while i < b.len() && b[i] == b'[' { if i - at == 255 { return Err(i); } i += 1; }
    if i >= b.len() { return Err(i); }
    match b[i] {
        b'B' | b'C' | b'D' | b'F' | b'I' | b'J' | b'S' | b'Z' => Ok(i + 1),
        b'L' => {
            let s = i + 1;
            let mut e = s;
            while e < b.len() && b[e] != b';' { e += 1; }
            if e == b.len() || e == s { return Err(e); }
            Ok(e + 1)
        }
        _ => Err(i),
    }
}
fn whole(b: &[u8], end: usize) -> Result<(), usize> { if end == b.len() { Ok(()) } else { Err(end) } }
/// the fault of a method descriptor, and how many parameters precede it
fn method_fault(b: &[u8]) -> (Result<(), usize>, usize) {
    let mut n = 0;
    if b.is_empty() || b[0] != b'(' { return (Err(0), 0); }
    let mut i = 1;
    loop {
        if i >= b.len() { return (Err(i), n); }
        if b[i] == b')' { break; }
        match type_fault(b, i) { Ok(e) => { n += 1; i = e; } Err(e) => return (Err(e), n) }
    }
    i += 1;
    if i >= b.len() { return (Err(i), n); }
    if b[i] == b'V' { return (whole(b, i + 1), n); }
    match type_fault(b, i) { Ok(e) => (whole(b, e), n), Err(e) => (Err(e), n) }
}
/// number of characters before byte i
fn chars_before(b: &[u8], i: usize) -> usize { let mut n = 0; let mut k = 0; while k < i { if b[k] & 0xc0 != 0x80 { n += 1; } k += 1; } n }
fn position<T>(r: &Result<T, Error>, v: &[u8], fault: Result<(), usize>, many: bool) {
    let at = match *r { Err(Error::InvalidDescriptor { at, .. }) => at, _ => return };
    let n = chars_before(v, v.len());
    check(at <= n, "the position lies within the string");
    match fault {
        Err(f) if !many => {
            let f = chars_before(v, f);
            check(at == f || at + 1 == f, "the position is that of the fault or of the character before it");
            if f == n { reach("ends too early") } else { reach("fault inside") }
        }
        _ => { check(many, "well-formed descriptor rejected"); reach("too many parameters") }
    }
}
pub fn c37_type(case: u64) {
    let v = type_string(case);
    let r: Result<TypeDescriptor, Error> = as_str(&v).parse();
    position(&r, &v, match type_fault(&v, 0) { Ok(e) => whole(&v, e), Err(e) => Err(e) }, false);
}
pub fn c37_method(case: u64) {
    let v = method_string(case);
    let r: Result<MethodDescriptor, Error> = as_str(&v).parse();
    let (f, n) = method_fault(&v);
    position(&r, &v, f, n > 255);
}
