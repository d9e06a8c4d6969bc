//! C32: how a part decodes does not depend on what stands around it.
use crate::file::*;
use crate::refm::*;
use crate::refpool::*;
use crate::sym::*;
use jbcrs::basic::*;

/// The outcome for a whole file against the reference reader: header, members, attributes and constants.
fn run_whole(f: &[u8]) {
    let res = parse(f);
    judge(Judge::Values, &res, &mut |v| {
        let mut r = R::new(f);
        walk_file(&mut r, v.map(|v| &v.1), true)?;
        if let Some(v) = v {
            let p = walk_pool(&mut R::at(f, 8, f.len()))?;
            check(v.0.len() == p.count, "pool length");
            let mut i = 1;
            while i < p.ents.len() {
                let e = p.ents[i];
                let g = v.0.get(i as u16);
                check(match (&g, &e) { (&Ok(g), &Some(ref e)) => item_is(g, e, f), (&Err(_), &None) => true, _ => false }, "constant");
                i += 1;
            }
        }
        Ok(())
    });
}
fn kind_name(k: usize) -> &'static [u8] { if k < 26 { NAMES[k].0.as_bytes() } else { b"Unknown" } }
/// a well-formed content of kind k with free values; v varies its shape
pub fn sample(k: usize, v: u8, b: &mut B) {
    match kind_of(kind_name(k)) {
        A::AnnotationDefault => { if v == 0 { b.u1(b'C').sym(2); } else { b.u1(b'[').u2(2).u1(b'e').sym(4).u1(b'@').sym(2).u2(0); } }
        A::BootstrapMethods => { b.u2(1 + v as u16).sym(2).u2(1).sym(2); if v > 0 { b.sym(2).u2(0); } }
        A::Code => {
            b.sym(4);
            if v == 0 { b.u4(4).u1(0x11).sym(2).u1(0xb1).u2(1).sym(8).u2(1).u2(1).u4(0); }
            else { b.u4(20).u1(0xaa).raw(&[0, 0, 0]).sym(4).u4(7).u4(7).sym(4).u2(0).u2(0); }
        }
        A::ConstantValue | A::ModuleMainClass | A::Signature | A::SourceFile => { b.sym(2); }
        A::Deprecated | A::Synthetic => {}
        A::EnclosingMethod => { b.sym(4); }
        A::Exceptions | A::ModulePackages => { b.u2(1 + v as u16).sym(2 + 2 * v as usize); }
        A::InnerClasses => { b.u2(1 + v as u16).sym(8 + 8 * v as usize); }
        A::LineNumberTable => { b.u2(1 + v as u16).sym(4 + 4 * v as usize); }
        A::LocalVariableTable | A::LocalVariableTypeTable => { b.u2(1 + v as u16).sym(10 + 10 * v as usize); }
        A::MethodParameters => { b.u1(1 + v).sym(4 + 4 * v as usize); }
        A::Module => { b.sym(6).u2(1).sym(6).u2(1).sym(4).u2(v as u16).sym(2 * v as usize).u2(1).sym(4).u2(1).sym(2).u2(1).sym(2).u2(1).sym(2).u2(1).sym(2); }
        A::Rva | A::Ria => { b.u2(1).sym(2).u2(v as u16); if v > 0 { b.sym(2).u1(b's').sym(2); } }
        A::Rvpa | A::Ripa => { b.u1(1 + v).u2(1).sym(2).u2(0); if v > 0 { b.u2(0); } }
        A::Rvta | A::Rita => { b.u2(1); if v == 0 { b.u1(0x10).sym(2).u1(1).u1(3).sym(1); } else { b.u1(0x40).u2(1).sym(6).u1(0); } b.sym(2).u2(0); }
        A::StackMapTable => { b.u2(2).u1(251).sym(2); if v == 0 { b.u1(64).u1(7).sym(2); } else { b.u1(255).sym(2).u2(1).u1(1).u2(1).u1(8).sym(2); } }
        A::SourceDebugExtension => { b.raw(b"SMAP"); let p = b.0.len(); b.sym(1); let x = b.0[p]; assume(x > 0 && x < 0x80); }
        A::Unknown => { b.sym(3); }
    }
}
/// attribute with a content, its length in front
fn attr(b: &mut B, name: u16, k: usize, v: u8) {
    let mut c = B::new();
    sample(k, v, &mut c);
    b.u2(name).u4(c.0.len() as u32).raw(&c.0);
}
/// the part of the file in front of the attributes of one member, everything free that names nothing the parser uses
fn open(b: &mut B, l: Level) {
    b.sym(6).u2(1).sym(2);
    match l { Level::Class => { b.u2(0).u2(0); } Level::Field => { b.u2(1).sym(6); } _ => { b.u2(0).u2(1).sym(6); } }
}
fn close(b: &mut B, l: Level) { match l { Level::Class => {} Level::Field => { b.u2(0).u2(0); } _ => { b.u2(0); } } }
/// attributes at the level, inside a code attribute with free limits and handler if need be
fn attributes(b: &mut B, l: Level, a: &[u8]) {
    open(b, l);
    if l == Level::Code { b.u2(1).u2(2).u4(a.len() as u32 + 20).sym(4).u4(2).u1(0x57).u1(0xb0).u2(1).sym(8).raw(a); } else { b.raw(a); }
    close(b, l);
}
/// case = kind * 1000 + level * 100 + n: n free bytes as the content of an attribute, in a file of any version, with any flags, names and super class
pub fn c32_around(case: u64) {
    let (k, l, n) = ((case / 1000) as usize, level(case / 100 % 10), (case % 100) as usize);
    let mut f = B::new();
    f.u4(0xcafebabe).sym(4).u2(4).utf(b"X").utf(b"Code").utf(kind_name(k));
    let mut a = B::new();
    a.u2(1).u2(3).u4(n as u32).sym(n);
    attributes(&mut f, l, &a.0);
    run_whole(&f.0);
}
/// case = kind * 10 + level: a well-formed attribute of each shape, as c32_around, with free flags
pub fn c32_sample(case: u64) {
    let (k, l) = ((case / 10) as usize, level(case % 10));
    let v = pick(2) as u8;
    let mut f = B::new();
    f.u4(0xcafebabe).sym(4).u2(4).utf(b"X").utf(b"Code").utf(kind_name(k));
    let mut a = B::new();
    a.u2(1);
    attr(&mut a, 3, k, v);
    attributes(&mut f, l, &a.0);
    run_whole(&f.0);
}
/// case = level * 100 + kind: this attribute followed by one of each kind, then itself again with another content
pub fn c32_pair(case: u64) {
    let (l, k) = (level(case / 100), (case % 100) as usize);
    let j = pick(27);
    let mut f = B::new();
    f.u4(0xcafebabe).sym(4).u2(5).utf(b"X").utf(b"Code").utf(kind_name(k)).utf(kind_name(j));
    let mut a = B::new();
    a.u2(3);
    attr(&mut a, 3, k, 0);
    attr(&mut a, if j == k { 3 } else { 4 }, j, 0);
    attr(&mut a, 3, k, 1);
    attributes(&mut f, l, &a.0);
    run_whole(&f.0);
}
/// case = kind * 10 + level: the attribute stands at each distance (0 to 7 bytes, by a longer constant) from the start of the file, behind constants of every kind with free values, its name defined twice
pub fn c32_shift(case: u64) {
    let (k, l) = ((case / 10) as usize, level(case % 10));
    let s = pick(8);
    let mut f = B::new();
    f.u4(0xcafebabe).sym(4).u2(23).utf(b"X").utf(b"Code").utf(&b"abcdefgh"[..s]);
    f.u1(3).sym(4).u1(4).sym(4).u1(5).sym(8).u1(6).sym(8).u1(7).sym(2).u1(8).sym(2).u1(9).sym(4).u1(10).sym(4).u1(11).sym(4).u1(12).sym(4);
    f.u1(15).u1(6).sym(2).u1(16).sym(2).u1(18).sym(4).u1(19).sym(2).u1(20).sym(2);
    f.utf(kind_name(k)).utf(kind_name(k));
    let mut a = B::new();
    a.u2(2);
    attr(&mut a, 21, k, 0);
    attr(&mut a, 22, k, 1);
    attributes(&mut f, l, &a.0);
    run_whole(&f.0);
}
/// case = kind: the attribute at every place of a file with two fields, two methods (one with code) and class attributes
pub fn c32_everywhere(case: u64) {
    let k = case as usize;
    let mut f = B::new();
    f.u4(0xcafebabe).sym(4).u2(5).utf(b"X").utf(b"Code").utf(kind_name(k)).utf(b"Synthetic").sym(6).u2(2).sym(4);
    let v = pick(2) as u8;
    f.u2(2).sym(6).u2(1);
    attr(&mut f, 3, k, v);
    f.sym(6).u2(2);
    attr(&mut f, 4, 24, 0);
    attr(&mut f, 3, k, 1 - v);
    f.u2(2).sym(6).u2(2);
    attr(&mut f, 3, k, v);
    let mut c = B::new();
    c.sym(4).u4(2).u1(0x01).u1(0xb0).u2(0).u2(2);
    attr(&mut c, 3, k, 1 - v);
    attr(&mut c, 3, k, v);
    f.u2(2).u4(c.0.len() as u32).raw(&c.0);
    f.sym(6).u2(0);
    f.u2(2);
    attr(&mut f, 3, k, 1 - v);
    attr(&mut f, 3, k, v);
    run_whole(&f.0);
}
/// case = n: an instruction with n free bytes, in code with free limits and handlers, in a file with free version and flags
pub fn c32_code(case: u64) {
    let n = case as usize;
    let mut f = B::new();
    f.u4(0xcafebabe).sym(4).u2(3).utf(b"X").utf(b"Code");
    f.sym(6).u2(0).u2(0).u2(1).sym(6).u2(1);
    f.u2(2).u4(12 + 8 + n as u32 + 1).sym(4).u4(n as u32 + 1).sym(n).u1(0xb1).u2(1).sym(8).u2(0).u2(0);
    run_whole(&f.0);
}
/// case = shape * 100 + level * 10 + i: the attribute's name index (shape 0) or its length (shape 1, SourceFile or Deprecated) is free, in files of any version
pub fn c32_free(case: u64) {
    let l = level(case / 10 % 10);
    let mut f = B::new();
    f.u4(0xcafebabe).sym(4).u2(5).utf(b"X").utf(b"Code").utf(b"SourceFile").utf(b"Deprecated");
    let mut a = B::new();
    a.u2(2);
    if case / 100 == 0 { let i = any_u16(); assume(i != 2); a.u2(i).u4(2); } else { a.u2([3, 4][(case % 10) as usize]).sym(4); }
    a.sym(2).u2(4).u4(0);
    attributes(&mut f, l, &a.0);
    run_whole(&f.0);
}
/// Class files written by javac 9 and 17 (harness/data)
pub const REAL: [&[u8]; 12] = [
    include_bytes!("../data/m.bin"), include_bytes!("../data/c.bin"), include_bytes!("../data/b.bin"), include_bytes!("../data/in.bin"), include_bytes!("../data/x1.bin"), include_bytes!("../data/x4.bin"),
    include_bytes!("../data/v.bin"), include_bytes!("../data/x2.bin"), include_bytes!("../data/e.bin"), include_bytes!("../data/x5.bin"), include_bytes!("../data/x3.bin"), include_bytes!("../data/a.bin"),
];
/// case = file * 100000 + part * 10 + n: a class file as javac writes it, with each run of n bytes within 16 positions (from part * 16) free in turn; n = 0: as it is
pub fn c33_real(case: u64) {
    let f = REAL[(case / 100000) as usize];
    let (p, n) = ((case / 10 % 10000) as usize * 16, (case % 10) as usize);
    let mut f = f.to_vec();
    if n > 0 {
        let at = p + pick(16);
        if at + n > f.len() { return; }
        fill(&mut f[at..at + n]);
    }
    run_whole(&f);
}
