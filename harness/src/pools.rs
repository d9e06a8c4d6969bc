//! C11 to C15: the pool as a data structure.
use crate::file::B;
use crate::refm::*;
use crate::refpool::*;
use crate::sym::*;
use jbcrs::basic::*;
use jbcrs::Error;
use std::hash::{Hash, Hasher};

pub fn mk_pool(how: u64) -> Pool {
    match how { 0 => Pool::new(), 1 => Pool::default(), 2 => Pool::with_capacity(0), 3 => Pool::with_capacity(3), 5 => Pool::with_capacity(65535), _ => Pool::with_capacity(300) }
}
pub fn kind(i: u64) -> ReferenceKind {
    match i { 1 => ReferenceKind::GetField, 2 => ReferenceKind::GetStatic, 3 => ReferenceKind::PutField, 4 => ReferenceKind::PutStatic, 5 => ReferenceKind::InvokeVirtual,
        6 => ReferenceKind::InvokeStatic, 7 => ReferenceKind::InvokeSpecial, 8 => ReferenceKind::NewInvokeSpecial, _ => ReferenceKind::InvokeInterface }
}
fn text(n: usize) -> String {
    let b = bytes(n);
    let mut i = 0;
    while i < n { assume(b[i] < 0x80); i += 1; }
    unsafe { String::from_utf8_unchecked(b) }
}
/// a string of n bytes, the first, last and middle ones symbolic
pub fn long_text(n: usize) -> Item {
    let mut b: Vec<u8> = Vec::with_capacity(n + 2);
    for i in 0..n { b.push(b'a' + (i % 23) as u8); }
    for i in [0, n / 2, n - 1] { let v = any_u8(); assume(v < 0x80); b[i] = v; }
    if n % 2 == 1 { b[1] = 0xc3; b[2] = 0xa9; }
    Item::UTF8(unsafe { String::from_utf8_unchecked(b) })
}
/// an item of the k-th kind with unconstrained contents
pub fn any_item(k: usize, strlen: usize) -> Item {
    match k {
        0 => Item::UTF8(text(strlen)),
        1 => Item::Integer(any_u32() as i32),
        2 => Item::Float(f32::from_bits(any_u32())),
        3 => Item::Long(any_u64() as i64),
        4 => Item::Double(f64::from_bits(any_u64())),
        5 => Item::Class(any_u16()),
        6 => Item::String(any_u16()),
        7 => Item::FieldRef { class: any_u16(), name_and_type: any_u16() },
        8 => Item::MethodRef { class: any_u16(), name_and_type: any_u16() },
        9 => Item::InterfaceMethodRef { class: any_u16(), name_and_type: any_u16() },
        10 => Item::NameAndType { name: any_u16(), desc: any_u16() },
        11 => { let n = pick(9) + 1; Item::MethodHandle { kind: kind(n as u64), index: any_u16() } }
        12 => Item::MethodType(any_u16()),
        13 => Item::InvokeDynamic { bootstrap_method_attribute: any_u16(), name_and_type: any_u16() },
        14 => Item::Module(any_u16()),
        _ => Item::Package(any_u16()),
    }
}
fn copy(i: &Item) -> Item {
    match *i {
        Item::UTF8(ref s) => Item::UTF8(unsafe { String::from_utf8_unchecked(s.as_bytes().to_vec()) }),
        Item::Integer(x) => Item::Integer(x), Item::Float(x) => Item::Float(x), Item::Long(x) => Item::Long(x), Item::Double(x) => Item::Double(x),
        Item::Class(x) => Item::Class(x), Item::String(x) => Item::String(x),
        Item::FieldRef { class, name_and_type } => Item::FieldRef { class, name_and_type },
        Item::MethodRef { class, name_and_type } => Item::MethodRef { class, name_and_type },
        Item::InterfaceMethodRef { class, name_and_type } => Item::InterfaceMethodRef { class, name_and_type },
        Item::NameAndType { name, desc } => Item::NameAndType { name, desc },
        Item::MethodHandle { kind: ref k, index } => Item::MethodHandle { kind: kind(kind_no(k)), index },
        Item::MethodType(x) => Item::MethodType(x),
        Item::InvokeDynamic { bootstrap_method_attribute, name_and_type } => Item::InvokeDynamic { bootstrap_method_attribute, name_and_type },
        Item::Module(x) => Item::Module(x), Item::Package(x) => Item::Package(x),
    }
}
fn same(a: &Item, b: &Item) -> bool {
    let (p, q) = (item_parts(a), item_parts(b));
    if p.0 != q.0 { return false; }
    if let (&Item::UTF8(ref s), &Item::UTF8(ref t)) = (a, b) { return s.as_bytes() == t.as_bytes(); }
    (p.1 == q.1) & (p.2 == q.2)
}
fn double(a: &Item) -> bool { match *a { Item::Long(_) | Item::Double(_) => true, _ => false } }

/// What a pool must contain.
pub struct Model { items: Vec<(u16, Item)>, len: u32 }
impl Model {
    pub fn new() -> Model { Model { items: Vec::with_capacity(8), len: 1 } }
    fn find(&self, i: &Item) -> Option<u16> {
        let mut k = 0;
        while k < self.items.len() { if same(&self.items[k].1, i) { return Some(self.items[k].0); } k += 1; }
        None
    }
    /// pushes on both and compares
    pub fn push(&mut self, p: &mut Pool, i: Item) {
        let c = copy(&i);
        let had = self.find(&i);
        let r = p.push(i);
        match (had, r) {
            (Some(x), Ok(y)) => { check(x == y, "pushing an item already present returns its index"); reach("repeated push"); }
            (Some(_), Err(_)) => check(false, "pushing an item already present fails"),
            (None, r) => {
                let n = if double(&c) { 2 } else { 1 };
                if self.len + n > 65535 {
                    check(match r { Err(Error::CPTooLarge) => true, _ => false }, "pushing what does not fit fails with the too-large error");
                    reach("push refused");
                } else {
                    match r {
                        Ok(y) => { check(y as u32 == self.len, "pushing a new item returns the current length"); reach("new push"); }
                        Err(_) => check(false, "pushing an item that fits fails"),
                    }
                    self.items.push((self.len as u16, c));
                    self.len += n;
                }
            }
        }
        check(p.len() as u32 == self.len, "length after a push");
    }
    /// an entry read from a file
    pub fn entry(&mut self, i: Item) { let n = if double(&i) { 2 } else { 1 }; self.items.push((self.len as u16, i)); self.len += n; }
    pub fn entry_at(&mut self, at: u16, i: Item) { self.items.push((at, i)); }
    pub fn set_len(&mut self, n: u32) { self.len = n; }
    pub fn len(&self) -> u32 { self.len }
    pub fn iterate(&self, p: &Pool) { iterate(p, &self.items) }
    pub fn all_there(&self, p: &Pool) {
        let mut k = 0;
        while k < self.items.len() {
            match p.get(self.items[k].0) {
                Ok(x) => check(same(x, &self.items[k].1), "an index keeps denoting its item"),
                Err(_) => check(false, "an index stops denoting its item"),
            }
            k += 1;
        }
    }
}
/// case = pushes + 10 * creation + 100 * (1 + first kind, 0 for any) + 10000 * (1 + second kind)
fn history(case: u64, p: &mut Pool) -> Model {
    let n = (case % 10) as usize;
    let mut m = Model::new();
    check(p.len() == 1 && p.is_empty(), "a fresh pool has length 1");
    let mut i = 0;
    while i < n {
        let fix = match i { 0 => case / 100 % 100, 1 => case / 10000 % 100, _ => 0 } as usize;
        let k = if fix > 0 { fix - 1 } else { pick(16) };
        let it = any_item(k, if k == 0 { pick(3) } else { 0 });
        m.push(p, it);
        m.all_there(p);
        i += 1;
    }
    m
}
pub fn c11_history(case: u64) {
    let mut p = mk_pool(case / 10 % 10);
    history(case, &mut p);
}
/// long strings of up to two lengths: case = length * 10 + pushes
pub fn c11_text(case: u64) {
    let mut p = Pool::new();
    let mut m = Model::new();
    for _ in 0..case % 10 {
        m.push(&mut p, long_text((case / 10) as usize + pick(2) * 2));
        m.all_there(&p);
    }
    reach("history done");
}
/// Few kinds, longer histories: case = pushes + 10 * creation
pub fn c11_long(case: u64) {
    let mut p = mk_pool(case / 10 % 10);
    let mut m = Model::new();
    let mut i = 0;
    while i < case % 10 {
        let k = [1, 3, 0][pick(3)];
        m.push(&mut p, any_item(k, 1));
        i += 1;
    }
    m.all_there(&p);
    reach("history done");
}
/// n distinct concrete items, then a symbolic one: case = creation * 100000 + n
pub fn c11_many(case: u64) {
    let n = (case % 100000) as u32;
    let mut p = mk_pool(case / 100000);
    let mut i = 0;
    while i < n {
        let r = p.push(if i % 3 == 0 { Item::Class(i as u16) } else { Item::Integer(i as i32) });
        check(match r { Ok(x) => x as u32 == i + 1, Err(_) => false }, "pushing a new item returns the current length");
        i += 1;
    }
    let v = any_u16();
    let old = (v as u32) < n && v % 3 == 0;
    let r = p.push(Item::Class(v));
    check(match r { Ok(x) => x as u32 == if old { v as u32 + 1 } else { n + 1 }, Err(_) => false }, "index of an item among many");
    check(p.len() as u32 == if old { n + 1 } else { n + 2 }, "length after a push");
    i = 0;
    while i < n {
        check(match p.get(i as u16 + 1) { Ok(&Item::Class(x)) => i % 3 == 0 && x as u32 == i, Ok(&Item::Integer(x)) => i % 3 != 0 && x as u32 == i, _ => false }, "an index keeps denoting its item");
        i += 1;
    }
    if old { reach("repeated push") } else { reach("new push") }
}

/// pushes of known and new items, wide ones too, behind n items: case = n + 100000 * pushes + 1000000 * filler (0 ints, 1 longs first, 2 a long in the middle)
pub fn c11_high(case: u64) {
    hash_mode(1);
    let n = (case % 100000) as u32;
    let f = case / 1000000;
    let mut p = Pool::new();
    let mut m = Model { items: Vec::with_capacity(64), len: 1 };
    let mut known: Vec<Item> = Vec::with_capacity(64);
    while m.len < n + 1 {
        let k = m.len as i32;
        let wide = (f == 1 && m.len < n / 2) || (f == 2 && m.len == n / 2);
        let it = if wide { Item::Long(k as i64) } else { Item::Integer(k) };
        let keep = k == 1 || k == 128 || k == 256 || k == 4096 || k == 0x7fff || k == 0x8000 || m.len + 2 >= n || m.len == n / 2 || (k as u32 == n / 2 + 1);
        let c = copy(&it);
        let r = p.push(it);
        if keep || m.len & 0xfff == 0 { check(match r { Ok(x) => x as u32 == m.len, Err(_) => false }, "pushing a new item returns the current length"); }
        if keep { known.push(copy(&c)); m.items.push((m.len as u16, c)); }
        m.len += if wide { 2 } else { 1 };
    }
    check(p.len() as u32 == m.len, "length of a filled pool");
    let mut s = 0;
    while s < case / 100000 % 10 {
        // symbolic items are of kinds the pool is not filled with
        let q = pick(6 + known.len());
        let it = match q {
            0 => Item::Class(any_u16()),
            1 => Item::Double(f64::from_bits(any_u64())),
            2 => Item::MethodHandle { kind: ReferenceKind::GetField, index: any_u16() },
            3 => Item::Integer(-1 - s as i32),
            4 => Item::Long(-1 - s as i64),
            5 => Item::UTF8(String::new()),
            _ => copy(&known[q - 6]),
        };
        m.push(&mut p, it);
        s += 1;
    }
    m.all_there(&p);
    std::mem::forget(p);
}

fn bad<T>(r: std::result::Result<T, Error>, i: u16) -> bool { match r { Err(Error::InvalidCPItem(j)) => i == j, _ => false } }
pub fn lookups(p: &Pool, m: &Model, i: u16) {
    let mut want = None;
    let mut k = 0;
    while k < m.items.len() { if m.items[k].0 == i { want = Some(&m.items[k].1); } k += 1; }
    match want {
        None => {
            check(bad(p.get(i), i), "lookup of an index without an item");
            check(bad(p.get_utf8(i), i), "string lookup of an index without an item");
            check(bad(p.get_class_name(i), i), "class name lookup of an index without an item");
            check(bad(p.get_class_name_opt(i), i), "optional class name lookup of an index without an item");
            reach("nothing there");
        }
        Some(w) => {
            match p.get(i) { Ok(x) => check(same(x, w), "lookup returns the item"), Err(_) => check(false, "lookup of an item fails") }
            match *w {
                Item::UTF8(ref s) => { check(match p.get_utf8(i) { Ok(ref t) => t.as_bytes() == s.as_bytes(), Err(_) => false }, "string lookup returns the text"); reach("string"); }
                _ => check(bad(p.get_utf8(i), i), "string lookup of another kind"),
            }
            match *w {
                Item::Class(u) => {
                    let mut s = None;
                    let mut k = 0;
                    while k < m.items.len() { if m.items[k].0 == u { if let Item::UTF8(ref t) = m.items[k].1 { s = Some(t); } } k += 1; }
                    let a = p.get_class_name(i);
                    let b = p.get_class_name_opt(i);
                    match s {
                        Some(s) => {
                            check(match a { Ok(ref t) => t.as_bytes() == s.as_bytes(), Err(_) => false }, "class name lookup returns the text");
                            check(match b { Ok(Some(ref t)) => t.as_bytes() == s.as_bytes(), _ => false }, "optional class name lookup returns the text");
                            reach("class name");
                        }
                        None => {
                            check(bad(a, u), "class name lookup names the index whose entry is missing or of the wrong kind");
                            if u == 0 { check(match b { Ok(None) => true, _ => false }, "an optional class name with name index zero is no name"); reach("no name"); }
                            else { check(bad(b, u), "optional class name lookup names the index whose entry is missing or of the wrong kind"); reach("bad name"); }
                        }
                    }
                }
                _ => {
                    check(bad(p.get_class_name(i), i), "class name lookup of another kind");
                    check(bad(p.get_class_name_opt(i), i), "optional class name lookup of another kind");
                }
            }
        }
    }
}
/// case = items + 10 * creation: any index, after pushes of UTF8, Class, Long and Integer items
pub fn c12_lookup(case: u64) {
    let mut p = mk_pool(case / 10 % 10);
    let mut m = Model::new();
    let mut i = 0;
    while i < case % 10 {
        let k = [0, 5, 3, 1, 4, 6][pick(if case >= 100 { 6 } else { 4 })];
        let it = any_item(k, if k == 0 { pick(if case % 10 < 3 && case < 100 { 5 } else { 2 }) } else { 0 });
        assume(m.find(&it).is_none());
        let c = copy(&it);
        if p.push(it).is_ok() { let n = if double(&c) { 2 } else { 1 }; m.items.push((m.len as u16, c)); m.len += n; }
        i += 1;
    }
    lookups(&p, &m, any_u16());
}
/// the same on a pool read from a class file
pub fn c12_parsed(case: u64) {
    let mut b = B::new();
    b.head().u2(0);
    let mut m = Model::new();
    let mut i = 0;
    while i < case % 10 {
        match pick(4) {
            0 => {
                let n = pick(if case % 10 < 3 { 4 } else { 2 });
                b.u1(1).u2(n as u16).sym(n);
                let x = b.0[b.0.len() - n..].to_vec();
                for &y in &x { assume((y > 0) & (y < 0x80)); }
                m.items.push((m.len as u16, Item::UTF8(unsafe { String::from_utf8_unchecked(x) })));
                m.len += 1;
            }
            1 => { let x = any_u16(); b.u1(7).u2(x); m.items.push((m.len as u16, Item::Class(x))); m.len += 1; }
            2 => { let x = any_u64(); b.u1(5).u4((x >> 32) as u32).u4(x as u32); m.items.push((m.len as u16, Item::Long(x as i64))); m.len += 2; }
            _ => { let x = any_u32(); b.u1(3).u4(x); m.items.push((m.len as u16, Item::Integer(x as i32))); m.len += 1; }
        }
        i += 1;
    }
    b.0[9] = m.len as u8;
    b.u2(0x21).u2(0).u2(0).u2(0).u2(0).u2(0).u2(0);
    match parse(&b.0) { Ok((p, _)) => lookups(&p, &m, any_u16()), Err(_) => {} }
}
/// a large pool, any index (concrete classes around the ends are what matters): case = n
pub fn c12_large(case: u64) {
    hash_mode(1);
    let n = case as u32;
    let mut p = Pool::new();
    let mut i = 0;
    while i < n { let _ = p.push(Item::Integer(i as i32)); i += 1; }
    let x = [0u16, 1, 2, 255, 256, n as u16 - 1, n as u16, (n + 1) as u16, (n + 2) as u16, 32767, 32768, 65534, 65535][pick(13)];
    if x >= 1 && x as u32 <= n { check(match p.get(x) { Ok(&Item::Integer(v)) => v as u32 == x as u32 - 1, _ => false }, "lookup returns the item"); reach("item"); }
    else { check(bad(p.get(x), x), "lookup of an index without an item"); reach("nothing there"); }
    check(bad(p.get_utf8(x), x), "string lookup of another kind");
    check(bad(p.get_class_name(x), x), "class name lookup of another kind");
    check(bad(p.get_class_name_opt(x), x), "optional class name lookup of another kind");
}
/// strings and classes at the end of a large pool: case = other items before them
pub fn c12_names(case: u64) {
    hash_mode(1);
    let n = case as u32;
    let mut p = Pool::new();
    let mut m = Model::new();
    let mut i = 0;
    while i < n { let _ = p.push(Item::Integer(i as i32)); i += 1; }
    m.len = n + 1;
    let at = |k: usize| [0u16, 1, 2, n as u16, n as u16 + 1, n as u16 + 2, n as u16 + 3, n as u16 + 5, n as u16 + 6, n as u16 + 7, 65535, (n + 1) as u8 as u16, (n + 6) as u8 as u16, (n + 1) as u16 & 0x7fff][k];
    for k in 0..5 {
        let it = match k { 0 => Item::UTF8(text([0, 1, 4, 7][pick(4)])), 4 => Item::UTF8(unsafe { String::from_utf8_unchecked(vec![b'a', any_u8() & 0x7f, b'b', b'c', b'd', b'e']) }), 1 | 3 => { let c = if n < 100 { any_u16() } else if n < 1000 { at(pick(14)) } else if k == 1 { at([4, 8, 13][pick(3)]) } else { 0 }; Item::Class(c) } _ => Item::Long(7) };
        assume(m.find(&it).is_none());
        let c = copy(&it);
        if p.push(it).is_ok() { let s = if double(&c) { 2 } else { 1 }; m.items.push((m.len as u16, c)); m.len += s; }
    }
    let i = if n < 100 { any_u16() } else if n < 1000 { at(pick(14)) } else { at(5) };
    assume(i == 0 || i as u32 > n);
    lookups(&p, &m, i);
}

/// fill up to `gap` free indices, then push: case = gap + 10 * steps + 100 * filler (0 ints, 1 longs then ints)
pub fn c13_full(case: u64) {
    hash_mode(1);
    let gap = (case % 10) as u32;
    let mut p = if case / 1000 == 0 { Pool::new() } else { Pool::with_capacity(65535) };
    let mut len = 1u32;
    let mut i = 0;
    if case / 100 % 10 == 1 { while len + 2 + 3 < 65535 - gap { let _ = p.push(Item::Long(i)); i += 1; len += 2; } }
    let ints = i as i32;
    let mut k = 0;
    while len < 65535 - gap {
        let r = p.push(Item::Integer(k));
        if len == 1 || len > 65530 { check(match r { Ok(x) => x as u32 == len, Err(_) => false }, "pushing an item that fits fails"); }
        k += 1;
        len += 1;
    }
    check(p.len() as u32 == len, "length of a filled pool");
    let mut m = Model { items: Vec::with_capacity(16), len };
    m.items.push((((ints as u32 * 2) + 1) as u16, Item::Integer(0)));
    m.items.push(((len - 1) as u16, Item::Integer(k - 1)));
    if ints > 0 { m.items.push((1, Item::Long(0))); }
    let mut s = 0;
    while s < case / 10 % 10 {
        // symbolic items are of kinds the pool is not filled with: their hash is that of no filler
        let it = match pick(10) {
            5 => Item::Double(f64::from_bits(any_u64())),
            8 => Item::Float(f32::from_bits(any_u32())),
            9 => Item::MethodHandle { kind: ReferenceKind::GetField, index: any_u16() },
            0 => Item::Integer(0),
            1 => Item::Integer(k - 1),
            2 => Item::Long(0),
            3 => Item::Integer(-1 - s as i32),
            4 => Item::Long(-1 - s as i64),
            6 => Item::Class(s as u16),
            _ => Item::UTF8(String::new()),
        };
        m.push(&mut p, it);
        s += 1;
    }
    m.all_there(&p);
    check(p.get(p.len()).is_err(), "nothing at the length");
    std::mem::forget(p); // taking it apart takes longer than the rest
}
/// a full pool read from a class file
pub fn c13_parsed(case: u64) {
    hash_mode(1);
    let mut b = B(Vec::with_capacity(400_000));
    b.head().u2(65535);
    let mut i = 1u32;
    while i < 65535 - 2 { b.u1(3).u4(i); i += 1; }
    match case { 0 => { b.u1(3).u4(i).u1(3).u4(i + 1); } 1 => { b.u1(5).u4(0).u4(0); } 2 => { b.u1(3).u4(i).u1(5).u4(0).u4(0); } _ => { b.u1(3).u4(1).u1(3).u4(2); } }
    b.u2(0x21).u2(0).u2(0).u2(0).u2(0).u2(0).u2(0);
    match parse(&b.0) {
        Ok((mut p, _)) => {
            check(case != 2, "pool that exceeds its declared count accepted");
            check(p.len() == 65535, "length of a full pool");
            check(match p.push(Item::Class(1)) { Err(Error::CPTooLarge) => true, _ => false }, "pushing what does not fit fails with the too-large error");
            check(p.len() == 65535, "length after a refused push");
            check(match p.push(Item::Integer(7)) { Ok(7) => true, _ => false }, "items already present are found when the pool is full");
            reach("full pool");
        }
        Err(_) => { check(case == 2, "full pool rejected"); reach("rejected"); }
    }
}

fn iterate(p: &Pool, items: &Vec<(u16, Item)>) {
    let mut it = p.iter();
    let mut k = 0;
    while k < items.len() {
        match it.next() {
            Some((i, x)) => { check(i == items[k].0, "iteration pairs an item with its index"); check(same(x, &items[k].1), "iteration yields the items in order"); }
            None => { check(false, "iteration ends early"); return }
        }
        k += 1;
    }
    check(it.next().is_none(), "iteration yields too much");
    check(it.next().is_none(), "a finished iteration stays finished");
    check(it.next().is_none(), "a finished iteration stays finished");
    reach("iterated");
}
/// as `history`, then iterate
pub fn c14_history(case: u64) {
    let mut p = mk_pool(case / 10 % 10);
    let n = (case % 10) as usize;
    let mut items: Vec<(u16, Item)> = Vec::with_capacity(8);
    let mut i = 0;
    while i < n {
        let k = if case >= 100 { [0, 1, 3, 4][pick(4)] } else { pick(16) };
        let it = any_item(k, 1);
        let c = copy(&it);
        let before = p.len();
        match p.push(it) { Ok(x) => if p.len() != before { items.push((x, c)); }, Err(_) => {} }
        i += 1;
    }
    // the indices are those under which look-ups return the items
    let mut k = 0;
    while k < items.len() { assume(match p.get(items[k].0) { Ok(x) => same(x, &items[k].1), Err(_) => false }); k += 1; }
    iterate(&p, &items);
}
/// pools read from a class file, with repeated entries
pub fn c14_parsed(case: u64) {
    let mut b = B::new();
    b.head().u2(0);
    let mut len = 1u16;
    let mut i = 0;
    while i < case % 10 {
        match pick(3) { 0 => { b.u1(7).sym(2); len += 1; } 1 => { b.u1(5).u4(0).sym(4); len += 2; } _ => { b.u1(1).u2(0); len += 1; } }
        i += 1;
    }
    b.0[9] = len as u8;
    b.u2(0x21).u2(0).u2(0).u2(0).u2(0).u2(0).u2(0);
    let p = match parse(&b.0) { Ok((p, _)) => p, Err(_) => return };
    let mut items: Vec<(u16, Item)> = Vec::with_capacity(8);
    let mut k = 0;
    while k < p.len() { if let Ok(x) = p.get(k) { items.push((k, copy(x))); } k += 1; }
    iterate(&p, &items);
}
/// large pools: case = n + 100000 * (0 ints, 1 longs, 2 ints and a long at the end)
pub fn c14_large(case: u64) {
    hash_mode(1);
    let (n, w) = ((case % 100000) as u32, case / 100000);
    let mut p = Pool::new();
    let mut i = 0;
    while i < n { let _ = p.push(if w == 1 || (w == 2 && i + 1 == n) { Item::Long(i as i64) } else { Item::Integer(i as i32) }); i += 1; }
    let mut it = p.iter();
    i = 0;
    while i < n {
        match it.next() {
            Some((x, y)) => {
                check(x as u32 == if w == 1 { 2 * i + 1 } else { i + 1 }, "iteration pairs an item with its index");
                check(match *y { Item::Long(v) => v as u32 == i, Item::Integer(v) => v as u32 == i, _ => false }, "iteration yields the items in order");
            }
            None => { check(false, "iteration ends early"); return }
        }
        i += 1;
    }
    check(it.next().is_none(), "iteration yields too much");
    check(it.next().is_none(), "a finished iteration stays finished");
    check(it.next().is_none(), "a finished iteration stays finished");
    reach("iterated");
}

struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); }
}
fn rec(i: &Item) -> Rec { let mut r = Rec(Vec::new()); i.hash(&mut r); r }
fn same_rec(a: &Rec, b: &Rec) -> bool {
    if a.0.len() != b.0.len() { return false; }
    let mut d = 0;
    let mut i = 0;
    while i < a.0.len() { d |= a.0[i] ^ b.0[i]; i += 1; }
    d == 0
}
/// case = kind * 10 + string length: against every kind
pub fn c15_pair(case: u64) {
    let n = (case % 10) as usize;
    let a = any_item((case / 10) as usize, n);
    let b = any_item(pick(16), if n == 0 { 0 } else { pick(n + 1) });
    let want = same(&a, &b);
    let eq = a == b;
    check(eq == want, "equal exactly when of the same kind with equal values");
    check((b == a) == want, "equality is symmetric");
    check((a != b) != want, "inequality is the opposite of equality");
    check(a == a, "equality is reflexive");
    check(a.clone() == a && same(&a.clone(), &a), "a clone is equal");
    let h = same_rec(&rec(&a), &rec(&b));
    if want { check(h, "equal constants hash identically"); reach("equal"); }
    else { check(!h, "the kind and every value take part in the hash"); reach("different"); }
}
/// strings of case and case or case + 2 bytes
pub fn c15_text(case: u64) {
    let a = long_text(case as usize);
    let b = long_text(case as usize + pick(2) * 2);
    let want = same(&a, &b);
    check((a == b) == want, "equal exactly when of the same kind with equal values");
    check((b == a) == want, "equality is symmetric");
    let h = same_rec(&rec(&a), &rec(&b));
    if want { check(h, "equal constants hash identically"); reach("equal"); }
    else { check(!h, "the kind and every value take part in the hash"); reach("different"); }
}
pub fn c15_triple(case: u64) {
    let (a, b, c) = (any_item(case as usize, 1), any_item(case as usize, 1), any_item(case as usize, 1));
    if (a == b) & (b == c) { check(a == c, "equality is transitive"); reach("three equal"); }
}
#[allow(dead_code)]
fn unused(_: &Cp) {}
