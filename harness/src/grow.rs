//! C34 and C36: pools read from a class file that keep being used, and what the operations of a pool cost.
use crate::file::B;
use crate::pools::*;
use crate::refm::*;
use crate::refpool::*;
use crate::sym::*;
use jbcrs::basic::*;

/// the item as an entry of a class file
fn enc(b: &mut B, i: &Item) {
    let (tag, x, y) = item_parts(i);
    b.u1(tag);
    match *i {
        Item::UTF8(ref s) => { for c in s.as_bytes() { assume(*c > 0); } b.u2(s.len() as u16).raw(s.as_bytes()); }
        Item::Integer(_) | Item::Float(_) => { b.u4(x as u32); }
        Item::Long(_) | Item::Double(_) => { b.u4((x >> 32) as u32).u4(x as u32); }
        Item::MethodHandle { .. } => { b.u1(x as u8).u2(y as u16); }
        Item::FieldRef { .. } | Item::MethodRef { .. } | Item::InterfaceMethodRef { .. } | Item::NameAndType { .. } | Item::InvokeDynamic { .. } => { b.u2(x as u16).u2(y as u16); }
        _ => { b.u2(x as u16); }
    }
}
fn rest(b: &mut B) { b.u2(0x21).u2(0).u2(0).u2(0).u2(0).u2(0).u2(0); }
fn fixed(case: u64, i: u64) -> usize { let f = match i { 0 => case / 100 % 100, 1 => case / 10000 % 100, _ => 0 } as usize; if f > 0 { f - 1 } else { pick(16) } }

/// entries of the file + 10 * pushes + 100 * (1 + kind of the first entry) + 10000 * (1 + kind of the second entry) + 1000000 * (1 + kind of the first push)
pub fn c34_after(case: u64) {
    let mut b = B::new();
    b.head().u2(0);
    let mut m = Model::new();
    for i in 0..case % 10 {
        let k = fixed(case, i);
        let it = any_item(k, 1);
        enc(&mut b, &it);
        m.entry(it);
    }
    b.0[9] = m.len() as u8;
    rest(&mut b);
    let mut p = match parse(&b.0) { Ok((p, _)) => p, Err(_) => { check(false, "well-formed pool rejected"); return } };
    check(p.len() as u32 == m.len(), "length of a parsed pool");
    check(p.is_empty() == (m.len() == 1), "emptiness of a parsed pool");
    m.all_there(&p);
    for i in 0..case / 10 % 10 {
        let k = if i == 0 { fixed(case / 10000, 0) } else { pick(16) };
        let it = any_item(k, 1);
        m.push(&mut p, it);
        m.all_there(&p);
        check(!p.is_empty(), "emptiness after a push");
    }
    m.iterate(&p);
}
/// a parsed pool, pushes, and a lookup of any index: case = entries + 10 * pushes
pub fn c34_lookup(case: u64) {
    let mut b = B::new();
    b.head().u2(0);
    let mut m = Model::new();
    for _ in 0..case % 10 { let it = any_item([0, 5, 3, 1][pick(4)], 1); enc(&mut b, &it); m.entry(it); }
    b.0[9] = m.len() as u8;
    rest(&mut b);
    let mut p = match parse(&b.0) { Ok((p, _)) => p, Err(_) => return };
    for _ in 0..case / 10 % 10 { let it = any_item([0, 5, 4][pick(3)], 1); m.push(&mut p, it); }
    lookups(&p, &m, any_u16());
}
/// the pool of a class file as javac writes it, then up to two pushes: case = file * 1000 + length of strings * 100 + kind
pub fn c34_real(case: u64) {
    let f = crate::around::REAL[(case / 1000) as usize];
    let mut r = R::new(f);
    r.pos = 8;
    let ents = match walk_pool(&mut r) { Ok(p) => p.ents, Err(_) => { check(false, "reference fails"); return } };
    let mut m = Model::new();
    for e in ents.iter() { if let Some(ref e) = *e { m.entry(item_of(e, f)); } }
    let mut p = match parse(f) { Ok((p, _)) => p, Err(_) => { check(false, "class file rejected"); return } };
    check(p.len() as u32 == m.len(), "length of a parsed pool");
    let k = (case % 100) as usize;
    let n = (case / 100 % 10) as usize;
    m.push(&mut p, any_item(k, n));
    m.all_there(&p);
    m.push(&mut p, any_item(k, n));
    m.all_there(&p);
    m.iterate(&p);
}
/// the pool of such a file, then every entry pushed again: case = file
pub fn c34_again(case: u64) {
    hash_mode(1);
    let f = crate::around::REAL[case as usize];
    let mut r = R::new(f);
    r.pos = 8;
    let ents = match walk_pool(&mut r) { Ok(p) => p.ents, Err(_) => { check(false, "reference fails"); return } };
    let mut m = Model::new();
    for e in ents.iter() { if let Some(ref e) = *e { m.entry(item_of(e, f)); } }
    let mut p = match parse(f) { Ok((p, _)) => p, Err(_) => { check(false, "class file rejected"); return } };
    for (i, e) in ents.iter().enumerate() {
        let it = match *e { Some(ref e) => item_of(e, f), None => continue };
        // text with room to spare, or built piece by piece
        let it = match it { Item::UTF8(s) => { let mut t = String::with_capacity(s.len() * 2 + i % 9); t.push_str(&s); Item::UTF8(t) } it => it };
        m.push(&mut p, it);
    }
    m.push(&mut p, Item::UTF8("not in any of the files".to_owned()));
    m.push(&mut p, Item::Long(-987654321));
    m.all_there(&p);
    m.iterate(&p);
}
fn item_of(e: &Ent, f: &[u8]) -> Item {
    let (x, y) = (e.a as u16, e.b as u16);
    match e.tag {
        1 => Item::UTF8(match decode_mutf8(&f[e.s..e.s + e.n]) { Ok(t) => unsafe { String::from_utf8_unchecked(t) }, Err(_) => String::new() }),
        3 => Item::Integer(e.a as i32), 4 => Item::Float(f32::from_bits(e.a as u32)), 5 => Item::Long(e.a as i64), 6 => Item::Double(f64::from_bits(e.a)),
        7 => Item::Class(x), 8 => Item::String(x),
        9 => Item::FieldRef { class: x, name_and_type: y }, 10 => Item::MethodRef { class: x, name_and_type: y }, 11 => Item::InterfaceMethodRef { class: x, name_and_type: y },
        12 => Item::NameAndType { name: x, desc: y },
        15 => Item::MethodHandle { kind: kind(e.a), index: y },
        16 => Item::MethodType(x), 18 => Item::InvokeDynamic { bootstrap_method_attribute: x, name_and_type: y }, 19 => Item::Module(x), _ => Item::Package(x),
    }
}
/// a file whose pool leaves `gap` indices free, with equal entries: case = gap + 10 * pushes + 100 * (0 ints, 1 longs and ints, 2 equal ints throughout)
pub fn c34_full(case: u64) {
    hash_mode(1);
    let count = 65535 - (case % 10) as u32;
    let w = case / 100;
    let ints = if w == 1 { 65_001 } else { 1 };
    // the last two entries are equal to the first int
    let val = |i: u32| if i < ints { Item::Long(i as i64) } else if w == 2 { Item::Integer(7) } else if i + 2 >= count { Item::Integer(ints as i32) } else { Item::Integer(i as i32) };
    let mut b = B(Vec::with_capacity(600_000));
    b.head().u2(count as u16);
    let mut i = 1u32;
    while i < count {
        let it = val(i);
        enc(&mut b, &it);
        i += if i < ints { 2 } else { 1 };
    }
    rest(&mut b);
    let mut p = match parse(&b.0) { Ok((p, _)) => p, Err(_) => { check(false, "well-formed pool rejected"); return } };
    check(p.len() as u32 == count, "length of a parsed pool");
    let mut m = Model::new();
    for i in [1, 3, 255, 257, 32767, 32769, 64999, 65001, 65003, count - 4, count - 3, count - 2, count - 1].iter() {
        if *i < count { m.entry_at(*i as u16, val(*i)); }
    }
    m.set_len(count);
    for s in 0..case / 10 % 10 {
        let it = match pick(10) {
            0 => val(1), 1 => val(count - 1), 2 => Item::Integer(-1 - s as i32), 3 => Item::Long(-1 - s as i64), 4 => Item::UTF8(String::new()), 9 => val(count - 3),
            5 => Item::Double(f64::from_bits(any_u64())), 6 => Item::Float(f32::from_bits(any_u32())), 7 => Item::Class(any_u16()), _ => Item::NameAndType { name: any_u16(), desc: 9 },
        };
        m.push(&mut p, it);
    }
    m.all_there(&p);
    check(p.get(p.len()).is_err(), "nothing at the length");
    std::mem::forget(p);
}

// ------------------------------------------------------------------------------------ C36
/// instructions an operation may take, whatever the size of the pool
const OP: usize = 4000;
/// the operations of a pool of n items, which is made in advance: case = how * 100000 + n, how: 0 different ints, 1 longs, 2 strings, 3 read from a file, 10 on: see nth
pub fn c36_op(case: u64) {
    hash_mode(1);
    let n = (case % 100_000) as u32;
    let how = case / 100_000;
    let mut p;
    if how == 3 {
        let mut b = B(Vec::with_capacity(400_000));
        b.head().u2(n as u16 + 1);
        for i in 0..n { b.u1(3).u4(i); }
        rest(&mut b);
        p = match parse(&b.0) { Ok((p, _)) => p, Err(_) => return };
    } else {
        p = Pool::new();
        for i in 0..n { let _ = p.push(nth(how, i)); }
    }
    let same = |i: u32| nth(how, i);
    let at = |k: usize| [0, 1, 2, n / 2 + 1, n, n + 1, 65535][k] as u16;
    match pick(9) {
        0 => { let i = at(pick(7)); work_limit(OP); let r = p.get(i).is_ok(); work_limit(0); if r { reach("item") } else { reach("nothing there") } }
        1 => { let i = at(pick(7)); work_limit(OP); let _ = p.get_utf8(i); work_limit(0); }
        2 => { let i = at(pick(7)); work_limit(OP); let _ = p.get_class_name(i); let _ = p.get_class_name_opt(i); work_limit(0); }
        3 => { let i = [0, n / 2, n - 1][pick(3)]; let it = same(i); work_limit(OP); let r = p.push(it); work_limit(0); check(r.is_ok(), "an item present is not found"); reach("repeated push"); }
        4 => { let it = any_item(7, 0); work_limit(OP + 400 * p.len() as usize); let r = p.push(it); work_limit(0); if r.is_ok() { reach("new push") } else { reach("push refused") } }
        5 => { let it = same(n); work_limit(OP + 400 * p.len() as usize); let r = p.push(it); work_limit(0); if r.is_ok() { reach("new push") } else { reach("push refused") } }
        6 => { work_limit(OP); { let mut it = p.iter(); let _ = it.next(); let _ = it.next(); } work_limit(0); }
        7 => { work_limit(OP + 100 * n as usize); let k = p.iter().count(); work_limit(0); check(k as u32 == n, "iteration yields another number of items"); reach("iterated"); }
        _ => { work_limit(OP); let _ = (p.len(), p.is_empty()); work_limit(0); }
    }
    std::mem::forget(p);
}
fn name(i: u32) -> String { let mut v = vec![b'n'; 4]; let mut x = i; while x > 0 { v.push(b'a' + (x % 26) as u8); x /= 26; } unsafe { String::from_utf8_unchecked(v) } }
/// the i-th of many items that differ in one operand only
fn nth(how: u64, i: u32) -> Item {
    let k = i as u16;
    match how {
        1 => Item::Long(i as i64), 2 => Item::UTF8(name(i)),
        10 => Item::Long((i as i64) << 32), 11 => Item::Double(f64::from_bits(i as u64)), 12 => Item::Double(f64::from_bits((i as u64) << 44)), 13 => Item::Float(f32::from_bits(i)), 14 => Item::Integer((i as i32) << 16),
        20 => Item::Class(k), 21 => Item::String(k), 22 => Item::MethodType(k), 23 => Item::Module(k), 24 => Item::Package(k),
        25 => Item::FieldRef { class: 1, name_and_type: k }, 26 => Item::FieldRef { class: k, name_and_type: 1 },
        27 => Item::MethodRef { class: 1, name_and_type: k }, 28 => Item::MethodRef { class: k, name_and_type: 1 },
        29 => Item::InterfaceMethodRef { class: 1, name_and_type: k }, 30 => Item::InterfaceMethodRef { class: k, name_and_type: 1 },
        31 => Item::NameAndType { name: 1, desc: k }, 32 => Item::NameAndType { name: k, desc: 1 },
        33 => Item::InvokeDynamic { bootstrap_method_attribute: 1, name_and_type: k }, 34 => Item::InvokeDynamic { bootstrap_method_attribute: k, name_and_type: 1 },
        35 => Item::MethodHandle { kind: kind((i % 9 + 1) as u64), index: k }, 36 => Item::MethodHandle { kind: ReferenceKind::InvokeStatic, index: k },
        50..=79 => {
            // both operands vary: alike, one apart, of a constant sum, of a constant exclusive or, far apart, one half of the pairs each way round
            let c = match how % 6 { 0 => k, 1 => k.wrapping_add(1), 2 => 0u16.wrapping_sub(k), 3 => !k, 4 => k.wrapping_mul(256), _ => k ^ 1 };
            match (how - 50) / 6 {
                0 => Item::FieldRef { class: k, name_and_type: c }, 1 => Item::MethodRef { class: k, name_and_type: c }, 2 => Item::InterfaceMethodRef { class: k, name_and_type: c },
                3 => Item::NameAndType { name: k, desc: c }, _ => Item::InvokeDynamic { bootstrap_method_attribute: k, name_and_type: c },
            }
        }
        80 => Item::Long(i as i64 | (i as i64) << 32), 81 => Item::Long((i as i64) << 32 | (!i) as i64), 82 => Item::Long((i as i64) << 32 | 0u32.wrapping_sub(i) as i64),
        83 => Item::Double(f64::from_bits(i as u64 | (i as u64) << 32)), 84 => Item::Double(i as f64), 85 => Item::Float(i as f32), 86 => Item::Double(f64::from_bits((i as u64) << 32 | (!i) as u64)),
        42 => Item::UTF8("com/example/application/".to_owned() + &name(i) + "/internal/Implementation"),
        43 => {
            let n = name(i);
            let mirror: Vec<u8> = n.bytes().map(|b| b'a' + b'z' - b).collect();
            Item::UTF8(n + unsafe { ::std::str::from_utf8_unchecked(&mirror) })
        }
        44 => Item::UTF8("()L".to_owned() + &name(i) + &name(i) + ";"),
        40 => Item::UTF8("java/lang/invoke/".to_owned() + &name(i)), 41 => Item::UTF8(name(i) + "/util/concurrent/Future"),
        _ => Item::Integer(i as i32),
    }
}
/// n pushes, one after the other; the last is symbolic: case = how * 100000 + n, how as above, 4: of one item, 5: into a pool with room for all
pub fn c36_fill(case: u64) {
    hash_mode(1);
    let n = (case % 100_000) as u32;
    let how = case / 100_000;
    let mut p = if how == 5 { Pool::with_capacity(65535) } else { Pool::new() };
    work_limit(50_000 + OP * n as usize);
    for i in 0..n - 1 { let _ = p.push(if how == 4 { Item::Class(9) } else { nth(how, i) }); }
    let r = p.push(any_item(7, 0));
    work_limit(0);
    if r.is_ok() { reach("new push") } else { reach("push refused") }
    std::mem::forget(p);
}
