//! C16 to C19: bytecode.
use crate::file::*;
use crate::refcode::*;
use crate::refm::*;
use crate::sym::*;
use jbcrs::basic::*;
use jbcrs::Error;

/// a method whose code array is given
fn with_code(code: &[u8]) -> (Vec<u8>, usize) {
    let mut p = B::new();
    p.utf(b"X").utf(b"Code");
    let mut a = B(Vec::with_capacity(code.len() + 64));
    a.u2(1).u2(2).u4(12 + code.len() as u32).u2(1).u2(2).u4(code.len() as u32).raw(code).u2(0).u2(0);
    let (f, at) = wrap(Level::Method, 3, &p.0, 2, &a.0);
    (f, at + 2 + 6 + 8)
}
type Code = std::collections::HashMap<u32, Instruction>;
fn insns(c: &Class) -> Option<&Code> {
    match c.methods.first().and_then(|m| m.attributes.first()) { Some(&Attribute::Code { ref instructions, .. }) => Some(instructions), _ => None }
}
/// Code that brings the next instruction to offset `off`: nops for small offsets, else one big tableswitch and nops.
fn lead(off: usize) -> B {
    let mut b = B(Vec::with_capacity(off + 64));
    if off < 300 { for _ in 0..off { b.u1(0); } return b; }
    let n = (off - 16) / 4;
    b.u1(0xaa).u1(0).u1(0).u1(0).u4(0).u4(0).u4(n as u32 - 1);
    b.0.resize(16 + 4 * n, 0);
    while b.0.len() < off { b.u1(0); }
    b
}
fn offset(i: u64) -> usize {
    match i { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 254, 5 => 255, 6 => 256, 7 => 32766, 8 => 32768, 9 => 65520, _ => 65536 + i as usize }
}
/// one instruction of any opcode (not a switch) at an offset, `return` after it
pub fn c16_insn(case: u64) {
    hash_mode(1);
    let off = offset(case);
    let mut b = lead(off);
    let op = any_u8();
    let f = format(op);
    assume(f != F::Undefined && f != F::Table && f != F::Lookup);
    b.u1(op);
    match f {
        F::None => {}
        F::S1 | F::U1 | F::U1Ldc => { b.sym(1); }
        F::NewArr => { let t = any_u8(); assume(t >= 4 && t <= 11); b.u1(t); }
        F::S2 | F::U2 | F::U2Ldc | F::Inc => { b.sym(2); }
        F::Multi => { b.sym(3); }
        F::S4 => { b.sym(4); }
        F::Iface => { b.sym(3).u1(0); }
        F::Dyn => { b.sym(2).u2(0); }
        _ => { let o = any_u8(); assume(wide_ok(o)); b.u1(o).sym(if o == 0x84 { 4 } else { 2 }); }
    }
    let end = b.0.len();
    b.u1(0xb1);
    let (file, at) = with_code(&b.0);
    match parse(&file) {
        Ok((_, c)) => {
            let m = match insns(&c) { Some(m) => m, None => { check(false, "code attribute is missing"); return } };
            match m.get(&(off as u32)) {
                Some(i) => { let w = walk_insn(&mut R::at(&file, at + off, file.len()), off as u32, Some(i)); check(w.is_ok(), "reference"); }
                None => check(false, "no instruction at its offset"),
            }
            check(match m.get(&(end as u32)) { Some(&Instruction::Return) => true, _ => false }, "the next instruction starts where this one ends");
            reach("instruction decoded");
        }
        Err(_) => check(false, "defined instruction rejected"),
    }
}
/// tableswitch: case = n * 10 + alignment; low (below 20 entries: any, else one of five), padding, default and offsets symbolic
pub fn c17_table(case: u64) {
    hash_mode(1);
    let (n, al) = (case / 10, (case % 10) as usize);
    let mut b = lead(if al >= 4 { offset(al as u64 + 2) } else { al });
    let off = b.0.len();
    b.u1(0xaa);
    while b.0.len() % 4 != 0 { b.sym(1); }
    b.sym(4);
    let most = i32::max_value() - (n as i32 - 1);
    let lo = if n < 20 { let lo = any_u32() as i32; assume(lo <= most); lo } else { match pick(5) { 0 => i32::min_value(), 1 => -(n as i32), 2 => -3, 3 => 0, _ => most } };
    let hi = lo + (n as i32 - 1);
    b.u4(lo as u32).u4(hi as u32).sym(4 * n as usize);
    let end = b.0.len();
    b.u1(0xb1);
    switch_check(b, off, end, "tableswitch decoded");
}
fn switch_check(b: B, off: usize, end: usize, m: &'static str) {
    let (file, at) = with_code(&b.0);
    match parse(&file) {
        Ok((_, c)) => {
            let x = match insns(&c) { Some(x) => x, None => { check(false, "code attribute is missing"); return } };
            match x.get(&(off as u32)) {
                Some(i) => { let w = walk_insn(&mut R::at(&file, at + off, at + end), off as u32, Some(i)); check(w.is_ok(), "reference"); }
                None => check(false, "no instruction at its offset"),
            }
            check(match x.get(&(end as u32)) { Some(&Instruction::Return) => true, _ => false }, "the next instruction starts where the switch ends");
            reach(m);
        }
        Err(_) => check(false, "well-formed switch rejected"),
    }
}
/// tableswitch whose bounds are symbolic and whose table has room for n entries: case = n * 10 + alignment
pub fn c17_bounds(case: u64) {
    hash_mode(1);
    let (n, al) = (case / 10, (case % 10) as usize);
    let mut b = lead(al);
    b.u1(0xaa);
    while b.0.len() % 4 != 0 { b.u1(0); }
    let lo = any_u32() as i32;
    let hi = any_u32() as i32;
    b.u4(7).u4(lo as u32).u4(hi as u32);
    for i in 0..n { b.u4(i as u32); }
    b.u1(0xb1);
    let (file, _) = with_code(&b.0);
    let r = parse(&file);
    if lo > hi { check(r.is_err(), "tableswitch whose low exceeds its high accepted"); reach("bounds rejected"); }
    else if hi as i64 - lo as i64 + 1 == n as i64 { check(r.is_ok(), "well-formed tableswitch rejected"); reach("bounds accepted"); }
    else if hi as i64 - lo as i64 + 1 > n as i64 + 1 { check(r.is_err(), "tableswitch larger than its code accepted"); reach("table too large"); }
}
/// lookupswitch: case = n * 10 + alignment; all symbolic, keys distinct
pub fn c17_lookup(case: u64) {
    hash_mode(1);
    let (n, al) = ((case / 10) as usize, (case % 10) as usize);
    let mut b = lead(if al >= 4 { offset(al as u64 + 2) } else { al });
    let off = b.0.len();
    b.u1(0xab);
    while b.0.len() % 4 != 0 { b.sym(1); }
    b.sym(4).u4(n as u32);
    let mut keys: Vec<i32> = Vec::with_capacity(n);
    for i in 0..n {
        let k = if n < 8 { any_u32() as i32 } else { i as i32 * 3 - 400 };
        if n < 8 { for j in 0..i { assume(keys[j] != k); } }
        keys.push(k);
        b.u4(k as u32).sym(4);
    }
    let end = b.0.len();
    b.u1(0xb1);
    switch_check(b, off, end, "lookupswitch decoded");
}
/// lookupswitch with n pairs in the code array and any count: case = n * 10 + alignment
pub fn c17_count(case: u64) {
    hash_mode(1);
    let (n, al) = (case / 10, (case % 10) as usize);
    let mut b = lead(al);
    b.u1(0xab);
    while b.0.len() % 4 != 0 { b.u1(0); }
    let count = any_u32();
    b.u4(7).u4(count);
    for i in 0..n { b.u4(i as u32).u4(3); }
    b.u1(0xb1);
    let (file, _) = with_code(&b.0);
    let r = parse(&file);
    if count as u64 == n { check(r.is_ok(), "well-formed lookupswitch rejected"); reach("count accepted"); }
    else if count as u64 > n { check(r.is_err(), "lookupswitch larger than its code accepted"); reach("count too large"); }
}

/// The instruction map and what surrounds it; operands are left to C16. `at` is where the attribute's content starts.
fn code_shape(f: &[u8], at: usize, end: usize, cp: &Cp) {
    let res = parse(f);
    judge(Judge::Values, &res, &mut |v| {
        let v = match v { None => None, Some(&(_, ref c)) => match c.methods.first().and_then(|m| m.attributes.first()) { None => { check(false, "code attribute is missing"); return Ok(()) } x => x } };
        let mut r = R::at(f, at, end);
        walk_code_cmp(&mut r, cp, v, Cmp::KeysOnly)?;
        r.done()
    });
    if let Ok((_, ref c)) = res {
        // nothing but whole instructions: an accepted code array is tiled by them
        let w = walk_code_cmp(&mut R::at(f, at, end), cp, None, Cmp::KeysOnly);
        match w { Err(Bad::Any | Bad::Limit | Bad::Text) => check(false, "code array not tiled by instructions accepted"), _ => {} }
        let _ = c;
    }
}
fn code_attr(n: usize, body: B, rest: B) -> (Vec<u8>, usize, usize, Cp) {
    let (p, cp) = std_pool(b"LineNumberTable");
    let mut a = B(Vec::with_capacity(body.0.len() + rest.0.len() + 64));
    a.u2(1).u2(2).u4((8 + n + rest.0.len()) as u32).sym(4).u4(n as u32).raw(&body.0).raw(&rest.0);
    let (f, at) = wrap(Level::Method, 5, &p, 2, &a.0);
    let e = f.len() - 2;
    (f, at + 8, e, cp)
}
/// n symbolic bytes of code
pub fn c18_tiles(case: u64) {
    let n = case as usize;
    let mut b = B::new();
    b.sym(n);
    let mut r = B::new();
    r.u2(0).u2(0);
    let (f, at, e, cp) = code_attr(n, b, r);
    code_shape(&f, at, e, &cp);
}
/// n instructions of every length and shape, the array cut short by up to two bytes
pub fn c18_mix(case: u64) {
    hash_mode(1);
    let mut b = B(Vec::with_capacity(256));
    for _ in 0..case {
        match pick(10) {
            0 => { b.u1(0x57); }
            1 => { b.u1(0x10).sym(1); }
            2 => { b.u1(0xb4).sym(2); }
            3 => { b.u1(0xc5).sym(3); }
            4 => { b.u1(0xb9).sym(3).u1(0); }
            5 => { b.u1(0xc9).sym(4); }
            6 => { b.u1(0xc4).u1(0x15).sym(2); }
            7 => { b.u1(0xc4).u1(0x84).sym(4); }
            8 => { b.u1(0xaa); while b.0.len() % 4 != 0 { b.u1(0); } b.sym(4).u4(5).u4(6).sym(8); }
            _ => { b.u1(0xab); while b.0.len() % 4 != 0 { b.u1(0); } b.sym(4).u4(1).u4(9).sym(4); }
        }
    }
    let cut = pick(3);
    assume(cut < b.0.len());
    let n = b.0.len() - cut;
    b.0.truncate(n);
    let mut r = B::new();
    r.u2(0).u2(0);
    let (f, at, e, cp) = code_attr(n, b, r);
    code_shape(&f, at, e, &cp);
}
/// exception handlers and nested attributes: case = handlers * 10 + nested attributes
pub fn c18_tables(case: u64) {
    hash_mode(1);
    let (h, n) = ((case / 10) as usize, case % 10);
    let mut b = B::new();
    b.u1(0).u1(0xb1);
    let mut r = B(Vec::with_capacity(h * 8 + 64));
    r.u2(h as u16).sym(8 * h).u2(n as u16);
    for i in 0..n { if i % 2 == 0 { r.u2(4).u4(6).u2(1).sym(4); } else { r.u2(1).u4(2).sym(2); } }
    let (f, at, e, cp) = code_attr(2, b, r);
    code_shape(&f, at, e, &cp);
}
/// long code: case = shape * 100000 + instructions; the last instruction's opcode is symbolic (shapes 0-2) or only its operand (3-5)
pub fn c18_long(case: u64) {
    hash_mode(1);
    let n = (case % 100000) as usize;
    let mut b = B(Vec::with_capacity(n * 4));
    for i in 0..n {
        match case / 100000 % 3 {
            0 => { b.u1(0); }
            1 => match i % 4 { 0 => { b.u1(0x10).u1(i as u8); } 1 => { b.u1(0xb6).u2(i as u16); } 2 => { b.u1(0xb9).u2(1).u2(0x100); } _ => { b.u1(0xc8).u4(i as u32); } },
            _ => { b.u1(0xaa); while b.0.len() % 4 != 0 { b.u1(0); } b.u4(1).u4(0).u4(1).u4(2).u4(3); }
        }
    }
    if case >= 300000 { b.u1(0x10); }
    b.sym(1);
    let len = b.0.len();
    let mut r = B::new();
    r.u2(0).u2(0);
    let (f, at, e, cp) = code_attr(len, b, r);
    code_shape(&f, at, e, &cp);
}
/// instructions far from the start of the code: case = offset
pub fn c18_far(case: u64) {
    hash_mode(1);
    let mut b = lead(offset(case));
    match pick(4) {
        0 => { b.u1(0x10).sym(1); }
        1 => { b.u1(0xb4).sym(2); }
        2 => { b.u1(0xc4).u1(0x84).sym(4); }
        _ => { b.u1(0xab); while b.0.len() % 4 != 0 { b.u1(0); } b.sym(4).u4(1).u4(9).sym(4); }
    }
    b.u1(0).u1(0x57);
    let n = b.0.len();
    let mut r = B::new();
    r.u2(0).u2(0);
    let (f, at, e, cp) = code_attr(n, b, r);
    code_shape(&f, at, e, &cp);
}
/// code array of length 0
pub fn c18_empty(_: u64) {
    let mut r = B::new();
    r.u2(0).u2(0).sym(0);
    let (f, _, _, _) = code_attr(0, B::new(), r);
    check(parse(&f).is_err(), "empty code array accepted");
    reach("rejected");
}

/// an undefined opcode, wide opcode or array type at an offset
pub fn c19_undefined(case: u64) {
    hash_mode(1);
    let off = offset(case);
    let mut b = lead(off);
    let want;
    match pick(3) {
        0 => { let o = any_u8(); assume(format(o) == F::Undefined); b.u1(o).sym(3); want = o; reach("undefined opcode"); }
        1 => { let o = any_u8(); assume(!wide_ok(o)); b.u1(0xc4).u1(o).sym(4); want = 0xc4; reach("undefined wide opcode"); }
        _ => { let o = any_u8(); assume(o < 4 || o > 11); b.u1(0xbc).u1(o).sym(2); want = 0xbc; reach("undefined array type"); }
    }
    let (file, _) = with_code(&b.0);
    match parse(&file) {
        Ok(_) => check(false, "undefined bytecode accepted"),
        Err(Error::InvalidInstruction { op_code, at }) => { check(op_code == want, "opcode in the error"); check(at as usize == off, "offset in the error"); }
        Err(_) => check(false, "undefined bytecode is not reported as an invalid instruction"),
    }
}
/// after any sequence of instructions in n symbolic bytes
pub fn c19_after(case: u64) {
    let n = case as usize;
    let mut b = B::new();
    b.sym(n);
    let (file, at) = with_code(&b.0);
    let mut r = R::at(&file, at, at + n);
    let mut w = Ok(());
    while r.pos < r.end && w.is_ok() { let o = (r.pos - at) as u32; w = walk_insn(&mut r, o, None); }
    if let Err(Bad::Insn(op, o)) = w {
        match parse(&file) {
            Ok(_) => check(false, "undefined bytecode accepted"),
            Err(Error::InvalidInstruction { op_code, at }) => { check(op_code == op, "opcode in the error"); check(at == o, "offset in the error"); reach("undefined bytecode reported"); }
            Err(_) => check(false, "undefined bytecode is not reported as an invalid instruction"),
        }
    }
}
