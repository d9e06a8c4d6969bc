//! Building class files around the part a property is about.
use crate::refm::*;
use crate::sym::*;
use jbcrs::basic::*;
use jbcrs::Error;

pub struct B(pub Vec<u8>);
impl B {
    pub fn new() -> B { B(Vec::with_capacity(256)) }
    pub fn u1(&mut self, x: u8) -> &mut B { self.0.push(x); self }
    pub fn u2(&mut self, x: u16) -> &mut B { self.0.push((x >> 8) as u8); self.0.push(x as u8); self }
    pub fn u4(&mut self, x: u32) -> &mut B { self.u2((x >> 16) as u16).u2(x as u16) }
    pub fn raw(&mut self, x: &[u8]) -> &mut B { self.0.extend_from_slice(x); self }
    /// n unconstrained bytes
    pub fn sym(&mut self, n: usize) -> &mut B { let p = self.0.len(); self.0.resize(p + n, 0); fill(&mut self.0[p..]); self }
    pub fn utf(&mut self, s: &[u8]) -> &mut B { self.u1(1).u2(s.len() as u16).raw(s) }
    pub fn head(&mut self) -> &mut B { self.u4(0xcafebabe).u2(0).u2(52) }
    pub fn fix4(&mut self, at: usize, x: u32) { let b = x.to_be_bytes(); self.0[at..at + 4].copy_from_slice(&b); }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Level { Class, Field, Method, Code }
pub fn level(n: u64) -> Level { match n { 0 => Level::Class, 1 => Level::Field, 2 => Level::Method, _ => Level::Code } }

/// A class whose constant pool is given (raw entries, `count`), with `attrs` (u2 count and the
/// attributes) at the given level. `code` is the pool index of "Code". Returns the offset of `attrs`.
pub fn wrap(l: Level, count: u16, pool: &[u8], code: u16, attrs: &[u8]) -> (Vec<u8>, usize) {
    let mut b = B(Vec::with_capacity(pool.len() + attrs.len() + 128));
    b.head().u2(count).raw(pool);
    b.u2(0x21).u2(1).u2(1).u2(0);
    let at;
    match l {
        Level::Class => { b.u2(0).u2(0); at = b.0.len(); b.raw(attrs); }
        Level::Field => { b.u2(1).u2(0).u2(1).u2(1); at = b.0.len(); b.raw(attrs).u2(0).u2(0); }
        Level::Method => { b.u2(0).u2(1).u2(0).u2(1).u2(1); at = b.0.len(); b.raw(attrs).u2(0); }
        Level::Code => {
            b.u2(0).u2(1).u2(0).u2(1).u2(1);
            b.u2(1).u2(code).u4(12 - 1 + attrs.len() as u32).u2(3).u2(4).u4(1).u1(0xb1).u2(0);
            at = b.0.len();
            b.raw(attrs).u2(0);
        }
    }
    (b.0, at)
}
pub fn attrs_at(l: Level, c: &Class) -> Option<&Vec<Attribute>> {
    match l {
        Level::Class => Some(&c.attributes),
        Level::Field => c.fields.first().map(|f| &f.attributes),
        Level::Method => c.methods.first().map(|f| &f.attributes),
        Level::Code => match c.methods.first().and_then(|f| f.attributes.first()) { Some(&Attribute::Code { ref attributes, .. }) => Some(attributes), _ => None },
    }
}

/// pool: 1 "X", 2 "Code", 3 "Deprecated", 4 the given name
pub fn std_pool(name: &[u8]) -> (Vec<u8>, Cp) {
    let mut p = B::new();
    p.utf(b"X").utf(b"Code").utf(b"Deprecated").utf(name);
    let cp = Cp { utf: vec![None, Some(b"X".to_vec()), Some(b"Code".to_vec()), Some(b"Deprecated".to_vec()), Some(name.to_vec())] };
    (p.0, cp)
}

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    /// values, acceptance of what is well formed, and errors with a prescribed content
    Values,
    /// only whether content and extent agree
    Extent,
}

/// Compares the outcome of a parse with the reference reader.
pub fn judge<T>(j: Judge, res: &std::result::Result<T, Error>, walk: &mut dyn FnMut(Option<&T>) -> W<()>) {
    match *res {
        Ok(ref t) => {
            let w = walk(if j == Judge::Values { Some(t) } else { None });
            match w {
                Ok(()) => reach("accepted"),
                Err(Bad::Any | Bad::Limit | Bad::Text) => check(j == Judge::Values, "accepted although content and extent disagree"),
                Err(Bad::Utf8) => {}
                Err(_) => check(j == Judge::Extent, "accepted although it contains an undefined code"),
            }
        }
        Err(ref e) => {
            let w = walk(None);
            match w {
                Ok(()) => match j {
                    Judge::Values => check(false, "well-formed content rejected"),
                    Judge::Extent => check(!matches!(*e, Error::LimitExceeded | Error::IO(_)), "content that fills its extent exactly rejected as exceeding it"),
                },
                Err(b) => { if j == Judge::Values { check(error_matches(e, b), "error does not carry what was found"); } reach("rejected") }
            }
        }
    }
}

/// One attribute of the given name and body, followed by a Deprecated attribute.
pub fn run_attr(l: Level, name: &[u8], body: &[u8]) {
    let (p, cp) = std_pool(name);
    let mut a = B(Vec::with_capacity(body.len() + 64));
    a.u2(2).u2(4).u4(body.len() as u32).raw(body).u2(3).u4(0);
    let (f, at) = wrap(l, 5, &p, 2, &a.0);
    run_attrs(l, &f, at, &cp);
}
pub fn run_attrs(l: Level, f: &[u8], at: usize, cp: &Cp) {
    let res = parse(f);
    judge(Judge::Values, &res, &mut |v| {
        let v = match v { None => None, Some(&(_, ref c)) => { let a = attrs_at(l, c); check(a.is_some(), "attribute list is missing"); if a.is_none() { return Ok(()) } a } };
        walk_attributes(&mut R::at(f, at, f.len()), cp, v)
    });
}
/// Does the whole file parse exactly when its parts fill their extents?
pub fn run_extent(f: &[u8]) {
    let res = parse(f);
    judge(Judge::Extent, &res, &mut |_| crate::refpool::walk_class(&mut R::new(f), None));
}
