//! C20 to C25: attributes.
use crate::file::*;
use crate::refm::*;
use crate::sym::*;
use jbcrs::basic::*;
use jbcrs::Error;

/// case = kind * 1000 + level * 100 + n: n symbolic bytes as the content of an attribute
pub fn attr(case: u64) {
    let (k, l, n) = ((case / 1000) as usize, level(case / 100 % 10), (case % 100) as usize);
    let mut b = B::new();
    b.sym(n);
    run_attr(l, NAMES[k].0.as_bytes(), &b.0);
}
fn text(b: &mut B, n: usize) {
    let p = b.0.len();
    b.sym(n);
    for i in 0..n { let x = b.0[p + i]; assume(x > 0 && x < 0x80); }
}
/// Long lists with symbolic contents: case = variant * 100000 + count
pub fn wide(case: u64) {
    let n = (case % 100000) as usize;
    let c = n as u16;
    let mut b = B(Vec::with_capacity(n * 12 + 64));
    let name = match case / 100000 {
        // stack maps
        0 => { b.u2(c); for _ in 0..n { b.u1(251).sym(2); } "StackMapTable" }
        1 => { b.u2(2).u1(255).sym(2).u2(c); for i in 0..n { b.u1(7 + i as u8 % 2).sym(2); } b.u2(1).u1(7).sym(2).u1(248).sym(2); "StackMapTable" }
        2 => { b.u2(2).u1(255).sym(2).u2(1).u1(4).u2(c); for i in 0..n { b.u1(7 + i as u8 % 2).sym(2); } b.u1(250).sym(2); "StackMapTable" }
        // annotations
        3 => { b.u2(c); for _ in 0..n { b.sym(2).u2(0); } "RuntimeVisibleAnnotations" }
        4 => { b.u2(1).sym(2).u2(c); for _ in 0..n { b.sym(2).u1(b'I').sym(2); } "RuntimeInvisibleAnnotations" }
        5 => { b.u1(b'[').u2(c); for i in 0..n { if i % 2 == 0 { b.u1(b's').sym(2); } else { b.u1(b'e').sym(4); } } "AnnotationDefault" }
        6 => { b.u1(c as u8); for i in 0..n & 255 { if i % 3 == 0 { b.u2(1).sym(2).u2(0); } else { b.u2(0); } } "RuntimeVisibleParameterAnnotations" }
        7 => { b.u1(2).u2(c); for _ in 0..n { b.sym(2).u2(0); } b.u2(1).sym(2).u2(0); "RuntimeInvisibleParameterAnnotations" }
        // type annotations
        8 => { b.u2(c); for _ in 0..n { b.u1(0x13).u1(0).sym(2).u2(0); } "RuntimeVisibleTypeAnnotations" }
        9 => { b.u2(1).u1(0x40).u2(c).sym(6 * n).u1(0).sym(2).u2(0); "RuntimeInvisibleTypeAnnotations" }
        10 => { b.u2(1).u1(0x41).u2(c).sym(6 * n).u1(1).u1(3).sym(1).sym(2).u2(0); "RuntimeVisibleTypeAnnotations" }
        11 => { b.u2(1).u1(0x14).u1(c as u8); for i in 0..n & 255 { b.u1(i as u8 % 4).sym(1); } b.sym(2).u2(0); "RuntimeInvisibleTypeAnnotations" }
        // class level
        12 => { b.u2(c); for i in 0..n { b.sym(2).u2(i as u16 % 3).sym(2 * (i % 3)); } "BootstrapMethods" }
        13 => { b.u2(2).sym(2).u2(c).sym(2 * n).sym(2).u2(1).sym(2); "BootstrapMethods" }
        14 => { b.u2(c).sym(8 * n); "InnerClasses" }
        15 => { b.u2(c).sym(2 * n); "ModulePackages" }
        16 => { b.sym(6).u2(c).sym(6 * n).u2(1).sym(4).u2(1).sym(2).u2(0).u2(1).sym(2).u2(0); "Module" }
        17 => { b.sym(6).u2(0).u2(c); for i in 0..n { b.sym(4).u2(i as u16 % 2).sym(2 * (i % 2)); } b.u2(1).sym(4).u2(0).u2(0).u2(0); "Module" }
        18 => { b.sym(6).u2(0).u2(2).sym(4).u2(c).sym(2 * n).sym(4).u2(0).u2(0).u2(0).u2(0); "Module" }
        19 => { b.sym(6).u2(0).u2(0).u2(c); for i in 0..n { b.sym(4).u2(i as u16 % 2).sym(2 * (i % 2)); } b.u2(0).u2(0); "Module" }
        20 => { b.sym(6).u2(0).u2(0).u2(2).sym(4).u2(c).sym(2 * n).sym(4).u2(1).sym(2).u2(0).u2(0); "Module" }
        21 => { b.sym(6).u2(1).sym(6).u2(0).u2(0).u2(c).sym(2 * n).u2(1).sym(2).u2(2).sym(4); "Module" }
        22 => { b.sym(6).u2(0).u2(0).u2(0).u2(0).u2(c); for i in 0..n { b.sym(2).u2(i as u16 % 3).sym(2 * (i % 3)); } "Module" }
        23 => { b.sym(6).u2(0).u2(0).u2(0).u2(1).sym(2).u2(2).sym(2).u2(c).sym(2 * n).sym(2).u2(1).sym(2); "Module" }
        24 => { text(&mut b, n); "SourceDebugExtension" }
        // field, method, debug
        25 => { b.u2(c).sym(2 * n); "Exceptions" }
        26 => { b.u2(c).sym(4 * n); "LineNumberTable" }
        27 => { b.u2(c).sym(10 * n); "LocalVariableTable" }
        28 => { b.u2(c).sym(10 * n); "LocalVariableTypeTable" }
        _ => { b.u1(c as u8).sym(4 * (n & 255)); "MethodParameters" }
    };
    let l = match case / 100000 { 0..=2 | 26..=28 => Level::Code, 3..=7 | 25 | 29 => Level::Method, _ => Level::Class };
    run_attr(l, name.as_bytes(), &b.0);
}
/// Structured contents with every nested list populated: case = variant
pub fn rich(case: u64) {
    let mut b = B::new();
    let s = |b: &mut B, n: usize| { b.sym(n); };
    let name = match case {
        0 => { // every element value tag in one array
            b.u1(b'[').u2(13);
            for t in b"BCDFIJSZsc".iter() { b.u1(*t).sym(2); }
            b.u1(b'e').sym(4).u1(b'@').sym(2).u2(1).sym(2).u1(b'I').sym(2).u1(b'[').u2(2).u1(b'[').u2(0).u1(b'Z').sym(2);
            "AnnotationDefault"
        }
        1 => { b.u1(3).u2(1).sym(2).u2(2).sym(2).u1(b'B').sym(2).sym(2).u1(b'[').u2(1).u1(b'@').sym(2).u2(0).u2(0).u2(2).sym(2).u2(0).sym(2).u2(1).sym(2).u1(b'c').sym(2); "RuntimeVisibleParameterAnnotations" }
        2 => { // every target type
            b.u2(22);
            let tail = |b: &mut B, i: u8| { b.u1(i % 3); for k in 0..i % 3 { b.u1((i + k) % 4).sym(1); } b.sym(2).u2((i % 2) as u16); if i % 2 == 1 { b.sym(2).u1(b's').sym(2); } };
            let mut i = 0;
            for t in [0x00u8, 0x01, 0x16].iter() { b.u1(*t).sym(1); tail(&mut b, i); i += 1; }
            for t in [0x10u8, 0x17, 0x42, 0x43, 0x44, 0x45, 0x46, 0x11, 0x12].iter() { b.u1(*t).sym(2); tail(&mut b, i); i += 1; }
            for t in [0x13u8, 0x14, 0x15].iter() { b.u1(*t); tail(&mut b, i); i += 1; }
            for t in [0x47u8, 0x48, 0x49, 0x4a, 0x4b].iter() { b.u1(*t).sym(3); tail(&mut b, i); i += 1; }
            b.u1(0x40).u2(2).sym(12); tail(&mut b, i);
            b.u1(0x41).u2(3).sym(18); tail(&mut b, i + 1);
            "RuntimeVisibleTypeAnnotations"
        }
        3 => { // every frame kind
            b.u2(12);
            b.u1(0).u1(63).u1(64).u1(7).sym(2).u1(127).u1(6).u1(247).sym(2).u1(8).sym(2).u1(248).sym(2).u1(249).sym(2).u1(250).sym(2).u1(251).sym(2);
            b.u1(252).sym(2).u1(0).u1(253).sym(2).u1(1).u1(7).sym(2).u1(254).sym(2).u1(2).u1(3).u1(4);
            "StackMapTable"
        }
        4 => { b.u2(2).u1(255).sym(2).u2(4).u1(5).u1(6).u1(7).sym(2).u1(8).sym(2).u2(3).u1(0).u1(8).sym(2).u1(1).u1(255).sym(2).u2(0).u2(0); "StackMapTable" }
        5 => { b.sym(6).u2(2).sym(12).u2(2).sym(4).u2(2).sym(4).sym(4).u2(0).u2(2).sym(4).u2(0).sym(4).u2(1).sym(2).u2(2).sym(4).u2(2).sym(2).u2(1).sym(2).sym(2).u2(2).sym(4); "Module" }
        6 => { b.u2(3).sym(2).u2(0).sym(2).u2(3).sym(6).sym(2).u2(1).sym(2); "BootstrapMethods" }
        7 => { b.u2(3).sym(24); "InnerClasses" }
        8 => { b.u2(3).sym(30); "LocalVariableTable" }
        9 => { b.u2(3).sym(30); "LocalVariableTypeTable" }
        10 => { b.u2(5).sym(20); "LineNumberTable" }
        11 => { b.u1(5).sym(20); "MethodParameters" }
        12 => { b.u2(3); for k in 0..3u8 { b.u1(252 + k).sym(2); for _ in 0..k + 1 { b.u1(7).sym(2); } } "StackMapTable" }
        13 => { // each byte of these frames free within its kind
            b.u2(3);
            let x = any_u8(); assume(x < 64); b.u1(x);
            let y = any_u8(); assume(y >= 64 && y < 128); b.u1(y).u1(7).sym(2);
            let z = any_u8(); assume(z >= 248 && z <= 251); b.u1(z).sym(2);
            "StackMapTable"
        }
        _ => { s(&mut b, 0); b.u2(2).sym(2).u2(1).sym(2).u1(b'[').u2(3).u1(b'[').u2(1).u1(b'@').sym(2).u2(2).sym(2).u1(b'J').sym(2).sym(2).u1(b'e').sym(4).u1(b'C').sym(2).u1(b'[').u2(0).sym(2).u2(0); "RuntimeInvisibleAnnotations" }
    };
    let l = match case { 3 | 4 | 8 | 9 | 10 | 12 | 13 => Level::Code, 0 | 1 | 11 => Level::Method, _ => Level::Class };
    run_attr(l, name.as_bytes(), &b.0);
}
fn vtype(b: &mut B) { let t = pick(9) as u8; b.u1(t); if t > 6 { b.sym(2); } }
/// Full frames with any verification types next to each other: case = locals * 10 + stack
pub fn full(case: u64) {
    let (l, s) = (case as u16 / 10, case as u16 % 10);
    let mut b = B::new();
    b.u2(2).u1(255).sym(2).u2(l);
    for _ in 0..l { vtype(&mut b); }
    b.u2(s);
    for _ in 0..s { vtype(&mut b); }
    b.u1(251).sym(2);
    run_attr(Level::Code, b"StackMapTable", &b.0);
}
fn value(b: &mut B, deep: bool) {
    let t = pick(13);
    b.u1(b"BCDFIJSZsce@["[t]);
    match t {
        0..=9 => { b.sym(2); }
        10 => { b.sym(4); }
        11 => { b.sym(2); if deep { b.u2(1).sym(2); value(b, false); } else { b.u2(0); } }
        _ => { if deep { b.u2(1); value(b, false); } else { b.u2(0); } }
    }
}
/// Things of any kinds next to each other: case = what * 10 + n, what: 0 frames, 1 element values in an array, 2 element values of one annotation, 3 type annotations, 4 steps of a type path,
/// 5 exports, 6 opens, 7 provides, 8 bootstrap methods, 9 parameter annotations, 10 annotations, 11 local variable targets, 12 arrays, of any lengths up to 2 or 3
pub fn seq(case: u64) {
    let n = case % 10;
    let c = n as u16;
    let mut b = B::new();
    let (l, name): (Level, &[u8]) = match case / 10 {
        0 => {
            b.u2(c + 1);
            for _ in 0..n {
                match pick(9) {
                    0 => { let x = any_u8(); assume(x < 64); b.u1(x); }
                    1 => { let x = any_u8(); assume(x >= 64 && x < 128); b.u1(x).u1(7).sym(2); }
                    2 => { b.u1(247).sym(2).u1(1); }
                    3 => { let x = any_u8(); assume(x >= 248 && x < 251); b.u1(x).sym(2); }
                    4 => { b.u1(251).sym(2); }
                    5 => { b.u1(252).sym(2).u1(4); }
                    6 => { b.u1(253).sym(2).u1(0).u1(8).sym(2); }
                    7 => { b.u1(254).sym(2).u1(3).u1(0).u1(5); }
                    _ => { b.u1(255).sym(2).u2(1).u1(6).u2(1).u1(7).sym(2); }
                }
            }
            b.u1(250).sym(2);
            (Level::Code, b"StackMapTable")
        }
        1 => { b.u1(b'[').u2(c); for i in 0..n { value(&mut b, i == 0); } (Level::Method, b"AnnotationDefault") }
        2 => { b.u2(2).sym(2).u2(c); for i in 0..n { b.sym(2); value(&mut b, i + 1 == n); } b.sym(2).u2(0); (Level::Class, b"RuntimeVisibleAnnotations") }
        3 => {
            b.u2(c);
            for _ in 0..n {
                let t = [0u8, 1, 0x16, 0x10, 0x17, 0x42, 0x43, 0x44, 0x45, 0x46, 0x11, 0x12, 0x13, 0x14, 0x15, 0x47, 0x48, 0x49, 0x4a, 0x4b, 0x40, 0x41][pick(22)];
                b.u1(t);
                match t { 0 | 1 | 0x16 => { b.sym(1); } 0x13..=0x15 => {} 0x47..=0x4b => { b.sym(3); } 0x40 | 0x41 => { b.u2(1).sym(6); } _ => { b.sym(2); } }
                b.u1(0).sym(2).u2(0);
            }
            (Level::Class, b"RuntimeInvisibleTypeAnnotations")
        }
        // lists of things that contain lists
        5 | 6 | 7 => {
            b.sym(6).u2(0);
            if case / 10 == 6 { b.u2(0); }
            if case / 10 == 7 { b.u2(0).u2(0).u2(1).sym(2); }
            b.u2(c);
            for _ in 0..n { if case / 10 == 7 { b.sym(2); } else { b.sym(4); } let k = pick(3); b.u2(k as u16).sym(2 * k); }
            if case / 10 == 5 { b.u2(1).sym(4).u2(1).sym(2); }
            if case / 10 != 7 { b.u2(1).sym(2).u2(1).sym(2).u2(1).sym(2); }
            (Level::Class, b"Module")
        }
        8 => { b.u2(c); for _ in 0..n { let k = pick(4); b.sym(2).u2(k as u16).sym(2 * k); } (Level::Class, b"BootstrapMethods") }
        9 => { b.u1(c as u8); for _ in 0..n { let k = pick(3); b.u2(k as u16); for _ in 0..k { let m = pick(2); b.sym(2).u2(m as u16); if m > 0 { b.sym(2).u1(b'Z').sym(2); } } } (Level::Method, b"RuntimeVisibleParameterAnnotations") }
        10 => { b.u2(c); for _ in 0..n { let k = pick(3); b.sym(2).u2(k as u16); for _ in 0..k { let e = pick(2); b.sym(2); if e == 0 { b.u1(b's').sym(2); } else { b.u1(b'e').sym(4); } } } (Level::Field, b"RuntimeInvisibleAnnotations") }
        11 => { b.u2(c); for _ in 0..n { let k = pick(3); let p = pick(2); b.u1(0x40 + pick(2) as u8).u2(k as u16).sym(6 * k).u1(p as u8); if p > 0 { b.u1(3).sym(1); } b.sym(2).u2(0); } (Level::Code, b"RuntimeVisibleTypeAnnotations") }
        12 => { b.u1(b'[').u2(c); for _ in 0..n { let k = pick(3); b.u1(b'[').u2(k as u16); for _ in 0..k { b.u1(b"Ic"[pick(2)]).sym(2); } } (Level::Method, b"AnnotationDefault") }
        _ => { b.u2(1).u1(0x14).u1(c as u8); for _ in 0..n { let k = pick(4) as u8; b.u1(k).sym(1); } b.sym(2).u2(0); (Level::Method, b"RuntimeVisibleTypeAnnotations") }
    };
    run_attr(l, name, &b.0);
}
/// Several attributes of different kinds in a row at one level, symbolic contents: case = group * 10 + level
pub fn row(case: u64) {
    let l = level(case % 10);
    let names: &[&str] = match case / 10 {
        0 => &["StackMapTable", "StackMapTable"],
        1 => &["RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "AnnotationDefault", "RuntimeVisibleParameterAnnotations", "RuntimeInvisibleParameterAnnotations"],
        2 => &["RuntimeInvisibleTypeAnnotations", "RuntimeVisibleTypeAnnotations"],
        3 => &["BootstrapMethods", "EnclosingMethod", "InnerClasses", "ModuleMainClass", "ModulePackages", "SourceFile", "SourceDebugExtension"],
        4 => &["ConstantValue", "Deprecated", "Exceptions", "LineNumberTable", "Signature", "Synthetic", "MethodParameters", "LocalVariableTable", "LocalVariableTypeTable"],
        _ => &["Foo", "code", "Bar"],
    };
    let mut p = B::new();
    p.utf(b"X").utf(b"Code");
    let mut cp = Cp { utf: vec![None, Some(b"X".to_vec()), Some(b"Code".to_vec())] };
    let mut a = B::new();
    a.u2(names.len() as u16 + 1);
    for (i, n) in names.iter().enumerate() {
        p.utf(n.as_bytes());
        cp.utf.push(Some(n.as_bytes().to_vec()));
        a.u2(3 + i as u16);
        match *n {
            "StackMapTable" => { a.u4(8).u2(2).u1(251).sym(2).u1(250).sym(2); }
            "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" => { a.u4(6).u2(1).sym(2).u2(0); }
            "AnnotationDefault" => { a.u4(3).u1(b'C').sym(2); }
            "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => { a.u4(7).u1(1).u2(1).sym(2).u2(0); }
            "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => { a.u4(9).u2(1).u1(0).sym(1).u1(0).sym(2).u2(0); }
            "BootstrapMethods" => { a.u4(8).u2(1).sym(2).u2(1).sym(2); }
            "EnclosingMethod" => { a.u4(4).sym(4); }
            "InnerClasses" => { a.u4(10).u2(1).sym(8); }
            "ModuleMainClass" | "SourceFile" | "ConstantValue" | "Signature" => { a.u4(2).sym(2); }
            "ModulePackages" | "Exceptions" => { a.u4(6).u2(2).sym(4); }
            "SourceDebugExtension" => { a.u4(2); text(&mut a, 2); }
            "Deprecated" | "Synthetic" => { a.u4(0); }
            "LineNumberTable" => { a.u4(6).u2(1).sym(4); }
            "MethodParameters" => { a.u4(5).u1(1).sym(4); }
            "LocalVariableTable" | "LocalVariableTypeTable" => { a.u4(12).u2(1).sym(10); }
            _ => { a.u4(3).sym(3); }
        }
    }
    a.u2(3).u4(0); // the first name again, without content
    if case / 10 != 5 { let k = a.0.len() - 6; a.0.truncate(k); a.0[1] -= 1; }
    let (f, at) = wrap(l, cp.utf.len() as u16, &p.0, 2, &a.0);
    run_attrs(l, &f, at, &cp);
}

/// an attribute whose name is n arbitrary ASCII characters, none of the known names: case = level * 100 + n
pub fn c25_name(case: u64) {
    let (l, n) = (level(case / 100), (case % 100) as usize);
    let mut b = B::new();
    text(&mut b, n);
    let k = kind_of(&b.0);
    assume(k == A::Unknown);
    let mut c = B::new();
    c.sym(3);
    run_attr(l, &b.0, &c.0);
}
/// known names with one character replaced, removed or added: case = kind * 10 + edit
pub fn c25_near(case: u64) {
    let name = NAMES[(case / 10) as usize].0.as_bytes();
    let mut v = Vec::with_capacity(64);
    let i = pick(name.len() + 1);
    match case % 10 {
        0 => { assume(i < name.len()); v.extend_from_slice(name); let x = any_u8(); assume(x > 0 && x < 0x80 && x != name[i]); v[i] = x; }
        1 => { v.extend_from_slice(&name[..i]); let x = any_u8(); assume(x > 0 && x < 0x80); v.push(x); v.extend_from_slice(&name[i..]); }
        _ => { assume(i < name.len()); v.extend_from_slice(&name[..i]); v.extend_from_slice(&name[i + 1..]); }
    }
    assume(kind_of(&v) == A::Unknown);
    let mut c = B::new();
    c.sym(2);
    run_attr(Level::Class, &v, &c.0);
}
/// n symbolic bytes of an unknown attribute at each level: case = level * 100000 + n
pub fn c25_bytes(case: u64) {
    let mut c = B::new();
    c.sym((case % 100000) as usize);
    run_attr(level(case / 100000), b"com.example.Custom", &c.0);
}
/// an attribute of n bytes, the first, middle and last of which are free, and two known ones behind it: case = level * 100000000 + n
pub fn c25_large(case: u64) {
    let n = (case % 100_000_000) as usize;
    let l = level(case / 100_000_000);
    let (p, cp) = std_pool(b"com.example.Custom");
    let mut a = B(Vec::with_capacity(n + 64));
    a.u2(3).u2(4).u4(n as u32);
    let at = a.0.len();
    a.0.resize(at + n, 0x5a);
    for i in [0, n / 2, n - 1] { a.0[at + i] = any_u8(); }
    a.u2(3).u4(0).u2(4).u4(1).sym(1);
    let (f, at) = wrap(l, 5, &p, 2, &a.0);
    run_attrs(l, &f, at, &cp);
}
/// any name index, in a pool with strings, other constants and a hole: case = level
pub fn c25_index(case: u64) {
    let l = level(case);
    let mut p = B::new();
    p.utf(b"X").utf(b"Code").u1(3).u4(7).u1(5).u4(0).u4(9).utf(b"Foo").u1(7).u2(1).u1(8).u2(2);
    let t = |s: &[u8]| Some(s.to_vec());
    let cp = Cp { utf: vec![None, t(b"X"), t(b"Code"), None, None, None, t(b"Foo"), None, None] };
    let mut a = B::new();
    let i = any_u16();
    assume(i != 2);
    a.u2(1).u2(i).u4(2).sym(2);
    let (f, at) = wrap(l, 9, &p.0, 2, &a.0);
    match parse(&f) {
        Ok((_, c)) => {
            check(i == 1 || i == 6, "attribute without a name accepted");
            let v = attrs_at(l, &c);
            check(v.is_some(), "attribute list is missing");
            if let Some(v) = v { let w = walk_attributes(&mut R::at(&f, at, f.len()), &cp, Some(v)); check(w.is_ok(), "reference"); }
            reach("named");
        }
        Err(Error::InvalidCPItem(j)) => { check(i != 1 && i != 6, "named attribute rejected"); check(i == j, "the error carries the name index"); reach("unnamed"); }
        Err(_) => check(false, "an attribute without a name fails with the invalid-constant error"),
    }
}
/// a name far into the pool: case = number of constants before it
pub fn c25_far(case: u64) {
    hash_mode(1);
    let n = case as usize;
    let mut p = B(Vec::with_capacity(n * 5 + 100));
    let mut cp = Cp { utf: Vec::with_capacity(n + 4) };
    p.utf(b"X").utf(b"Code");
    cp.utf.push(None);
    cp.utf.push(Some(b"X".to_vec()));
    cp.utf.push(Some(b"Code".to_vec()));
    for i in 0..n { p.u1(3).u4(i as u32); cp.utf.push(None); }
    p.utf(b"Custom").utf(b"Deprecated");
    cp.utf.push(Some(b"Custom".to_vec()));
    cp.utf.push(Some(b"Deprecated".to_vec()));
    let k = cp.utf.len() as u16;
    let mut a = B::new();
    a.u2(3).u2(k - 2).u4(2).sym(2).u2(k - 1).u4(0).u2(k - 2).u4(1).sym(1);
    let (f, at) = wrap(Level::Class, k, &p.0, 2, &a.0);
    run_attrs(Level::Class, &f, at, &cp);
}
