//! Reference reader for the constant pool and for the class around it.
use crate::refm::*;
use crate::sym::{check, conc};
use jbcrs::basic::*;

/// A constant as stored: tag, operands, and where the bytes of a string are.
#[derive(Clone, Copy)]
pub struct Ent { pub tag: u8, pub a: u64, pub b: u64, pub s: usize, pub n: usize }
pub struct PoolRef { pub count: u16, pub ents: Vec<Option<Ent>> }

pub fn walk_pool(r: &mut R) -> W<PoolRef> { walk_pool_strings(r, false) }
/// with `strings`, malformed strings are found in file order
pub fn walk_pool_strings(r: &mut R, strings: bool) -> W<PoolRef> {
    let count = r.u2()?;
    let mut ents: Vec<Option<Ent>> = Vec::new();
    ents.push(None);
    while ents.len() < count as usize {
        let index = ents.len() as u16;
        let e = walk_entry(r, index)?;
        if strings && e.tag == 1 { decode_mutf8(&r.b[e.s..e.s + e.n])?; }
        ents.push(Some(e));
        if e.tag == 5 || e.tag == 6 { ents.push(None); }
    }
    if ents.len() != count as usize { return Err(Bad::Any); }
    Ok(PoolRef { count, ents })
}
pub fn walk_entry(r: &mut R, index: u16) -> W<Ent> {
    let tag = r.u1()?;
    let mut e = Ent { tag, a: 0, b: 0, s: 0, n: 0 };
    match tag {
        1 => {
            e.n = r.u2()? as usize;
            if e.n > r.left() { return Err(Bad::Text); }
            e.n = conc(e.n);
            e.s = r.pos;
            r.pos += e.n;
        }
        3 | 4 => e.a = r.u4()? as u64,
        5 | 6 => e.a = r.u8_()?,
        7 | 8 | 16 | 19 | 20 => e.a = r.u2()? as u64,
        9 | 10 | 11 | 12 | 18 => { e.a = r.u2()? as u64; e.b = r.u2()? as u64; }
        15 => { e.a = r.u1()? as u64; if e.a < 1 || e.a > 9 { return Err(Bad::Cp(index)); } e.b = r.u2()? as u64; }
        _ => return Err(Bad::Cp(index)),
    }
    Ok(e)
}
pub fn kind_no(k: &ReferenceKind) -> u64 {
    match *k {
        ReferenceKind::GetField => 1, ReferenceKind::GetStatic => 2, ReferenceKind::PutField => 3, ReferenceKind::PutStatic => 4,
        ReferenceKind::InvokeVirtual => 5, ReferenceKind::InvokeStatic => 6, ReferenceKind::InvokeSpecial => 7,
        ReferenceKind::NewInvokeSpecial => 8, ReferenceKind::InvokeInterface => 9,
    }
}
/// Tag and operands of a parsed constant.
pub fn item_parts(i: &Item) -> (u8, u64, u64) {
    match *i {
        Item::UTF8(_) => (1, 0, 0),
        Item::Integer(x) => (3, x as u32 as u64, 0),
        Item::Float(x) => (4, x.to_bits() as u64, 0),
        Item::Long(x) => (5, x as u64, 0),
        Item::Double(x) => (6, x.to_bits(), 0),
        Item::Class(x) => (7, x as u64, 0),
        Item::String(x) => (8, x as u64, 0),
        Item::FieldRef { class, name_and_type } => (9, class as u64, name_and_type as u64),
        Item::MethodRef { class, name_and_type } => (10, class as u64, name_and_type as u64),
        Item::InterfaceMethodRef { class, name_and_type } => (11, class as u64, name_and_type as u64),
        Item::NameAndType { name, desc } => (12, name as u64, desc as u64),
        Item::MethodHandle { ref kind, index } => (15, kind_no(kind), index as u64),
        Item::MethodType(x) => (16, x as u64, 0),
        Item::InvokeDynamic { bootstrap_method_attribute, name_and_type } => (18, bootstrap_method_attribute as u64, name_and_type as u64),
        Item::Module(x) => (19, x as u64, 0),
        Item::Package(x) => (20, x as u64, 0),
    }
}
/// Is the parsed constant the stored one? Strings: the text the bytes encode.
pub fn item_is(i: &Item, e: &Ent, b: &[u8]) -> bool {
    let p = item_parts(i);
    if p.0 != e.tag { return false; }
    if let Item::UTF8(ref s) = *i {
        return match decode_mutf8(&b[e.s..e.s + e.n]) { Ok(t) => t[..] == *s.as_bytes(), Err(_) => false };
    }
    (p.1 == e.a) & (p.2 == e.b)
}
pub fn strings_ok(p: &PoolRef, b: &[u8]) -> bool {
    let mut i = 0;
    while i < p.ents.len() {
        if let Some(e) = p.ents[i] { if e.tag == 1 && decode_mutf8(&b[e.s..e.s + e.n]).is_err() { return false; } }
        i += 1;
    }
    true
}
pub fn cp_of(p: &PoolRef, b: &[u8]) -> Cp {
    let mut utf = Vec::with_capacity(p.ents.len());
    for e in p.ents.iter() {
        utf.push(match *e { Some(e) if e.tag == 1 => Some(b[e.s..e.s + e.n].to_vec()), _ => None });
    }
    Cp { utf }
}

fn walk_member(r: &mut R, cp: &Cp, v: Option<(AccessFlags, u16, u16, &Vec<Attribute>)>) -> W<()> {
    let (f, n, d) = (r.u2()?, r.u2()?, r.u2()?);
    if let Some(v) = v { check(v.0.bits() == f, "member flags"); check(v.1 == n, "member name"); check(v.2 == d, "member descriptor"); }
    walk_attributes(r, cp, v.map(|v| v.3))
}
/// Everything after the constant pool.
pub fn walk_rest(r: &mut R, cp: &Cp, v: Option<&Class>) -> W<()> {
    let (f, n, s) = (r.u2()?, r.u2()?, r.u2()?);
    if let Some(v) = v { check(v.access_flags.bits() == f, "class flags"); check(v.name == n, "this class"); check(v.super_name == s, "super class"); }
    walk_u2s(r, v.map(|v| &v.interfaces), "interfaces")?;
    let k = r.u2()? as usize;
    if let Some(v) = v { check(v.fields.len() == k, "field count"); }
    let mut i = 0;
    while i < k { walk_member(r, cp, v.map(|v| { let m = &v.fields[i]; (m.access_flags, m.name, m.desc, &m.attributes) }))?; i += 1; }
    let k = r.u2()? as usize;
    if let Some(v) = v { check(v.methods.len() == k, "method count"); }
    let mut i = 0;
    while i < k { walk_member(r, cp, v.map(|v| { let m = &v.methods[i]; (m.access_flags, m.name, m.desc, &m.attributes) }))?; i += 1; }
    walk_attributes(r, cp, v.map(|v| &v.attributes))
}
pub fn walk_class(r: &mut R, v: Option<&Class>) -> W<()> { walk_file(r, v, false) }
/// with `strings`, the first fault in file order is the one returned
pub fn walk_file(r: &mut R, v: Option<&Class>, strings: bool) -> W<()> {
    let m = r.u4()?;
    if m != 0xcafebabe { return Err(Bad::Magic); }
    let (a, b) = (r.u2()?, r.u2()?);
    if let Some(v) = v { check(v.minor_version == a, "minor version"); check(v.major_version == b, "major version"); }
    let p = walk_pool_strings(r, strings)?;
    if !strings_ok(&p, r.b) { return Err(Bad::Utf8); }
    let cp = cp_of(&p, r.b);
    walk_rest(r, &cp, v)
}
