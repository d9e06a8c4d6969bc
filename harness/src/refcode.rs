//! Reference reader for code attributes, written from chapter 6 of the JVM specification.
use crate::refm::*;
use crate::sym::{assume, check};
use jbcrs::basic::*;

/// How the operands of an opcode are laid out.
#[derive(Clone, Copy, PartialEq)]
pub enum F { None, S1, S2, U1, U2, U1Ldc, U2Ldc, Inc, S4, Iface, Dyn, NewArr, Wide, Multi, Table, Lookup, Undefined }

pub fn format(op: u8) -> F {
    match op {
        0x10 => F::S1,
        0x11 => F::S2,
        0x12 => F::U1Ldc,
        0x13 | 0x14 => F::U2Ldc,
        0x15..=0x19 | 0x36..=0x3a | 0xa9 => F::U1,
        0x84 => F::Inc,
        0x99..=0xa8 | 0xc6 | 0xc7 => F::S2,
        0xaa => F::Table,
        0xab => F::Lookup,
        0xb2..=0xb8 | 0xbb | 0xbd | 0xc0 | 0xc1 => F::U2,
        0xb9 => F::Iface,
        0xba => F::Dyn,
        0xbc => F::NewArr,
        0xc4 => F::Wide,
        0xc5 => F::Multi,
        0xc8 | 0xc9 => F::S4,
        0xcb..=0xfd => F::Undefined,
        _ => F::None,
    }
}
pub fn wide_ok(op: u8) -> bool { match op { 0x15..=0x19 | 0x36..=0x3a | 0x84 | 0xa9 => true, _ => false } }

/// The opcode a parsed instruction stands for (goto_w as goto, jsr_w as jsr, ldc_w and ldc2_w as ldc,
/// which the tree does not distinguish) and its operands.
pub fn canon(i: &Instruction) -> (u8, i64, i64) {
    use jbcrs::basic::Instruction::*;
    match *i {
        NOP => (0x00, 0, 0), AConstNull => (0x01, 0, 0), IConstM1 => (0x02, 0, 0), IConst0 => (0x03, 0, 0), IConst1 => (0x04, 0, 0),
        IConst2 => (0x05, 0, 0), IConst3 => (0x06, 0, 0), IConst4 => (0x07, 0, 0), IConst5 => (0x08, 0, 0), LConst0 => (0x09, 0, 0),
        LConst1 => (0x0a, 0, 0), FConst0 => (0x0b, 0, 0), FConst1 => (0x0c, 0, 0), FConst2 => (0x0d, 0, 0), DConst0 => (0x0e, 0, 0),
        DConst1 => (0x0f, 0, 0), BIPush(a) => (0x10, a as i64, 0), SIPush(a) => (0x11, a as i64, 0), LDC(a) => (0x12, a as i64, 0),
        ILoad(a) => (0x15, a as i64, 0), LLoad(a) => (0x16, a as i64, 0), FLoad(a) => (0x17, a as i64, 0), DLoad(a) => (0x18, a as i64, 0), ALoad(a) => (0x19, a as i64, 0),
        ILoad0 => (0x1a, 0, 0), ILoad1 => (0x1b, 0, 0), ILoad2 => (0x1c, 0, 0), ILoad3 => (0x1d, 0, 0),
        LLoad0 => (0x1e, 0, 0), LLoad1 => (0x1f, 0, 0), LLoad2 => (0x20, 0, 0), LLoad3 => (0x21, 0, 0),
        FLoad0 => (0x22, 0, 0), FLoad1 => (0x23, 0, 0), FLoad2 => (0x24, 0, 0), FLoad3 => (0x25, 0, 0),
        DLoad0 => (0x26, 0, 0), DLoad1 => (0x27, 0, 0), DLoad2 => (0x28, 0, 0), DLoad3 => (0x29, 0, 0),
        ALoad0 => (0x2a, 0, 0), ALoad1 => (0x2b, 0, 0), ALoad2 => (0x2c, 0, 0), ALoad3 => (0x2d, 0, 0),
        IALoad => (0x2e, 0, 0), LALoad => (0x2f, 0, 0), FALoad => (0x30, 0, 0), DALoad => (0x31, 0, 0), AALoad => (0x32, 0, 0), BALoad => (0x33, 0, 0), CALoad => (0x34, 0, 0), SALoad => (0x35, 0, 0),
        IStore(a) => (0x36, a as i64, 0), LStore(a) => (0x37, a as i64, 0), FStore(a) => (0x38, a as i64, 0), DStore(a) => (0x39, a as i64, 0), AStore(a) => (0x3a, a as i64, 0),
        IStore0 => (0x3b, 0, 0), IStore1 => (0x3c, 0, 0), IStore2 => (0x3d, 0, 0), IStore3 => (0x3e, 0, 0),
        LStore0 => (0x3f, 0, 0), LStore1 => (0x40, 0, 0), LStore2 => (0x41, 0, 0), LStore3 => (0x42, 0, 0),
        FStore0 => (0x43, 0, 0), FStore1 => (0x44, 0, 0), FStore2 => (0x45, 0, 0), FStore3 => (0x46, 0, 0),
        DStore0 => (0x47, 0, 0), DStore1 => (0x48, 0, 0), DStore2 => (0x49, 0, 0), DStore3 => (0x4a, 0, 0),
        AStore0 => (0x4b, 0, 0), AStore1 => (0x4c, 0, 0), AStore2 => (0x4d, 0, 0), AStore3 => (0x4e, 0, 0),
        IAStore => (0x4f, 0, 0), LAStore => (0x50, 0, 0), FAStore => (0x51, 0, 0), DAStore => (0x52, 0, 0), AAStore => (0x53, 0, 0), BAStore => (0x54, 0, 0), CAStore => (0x55, 0, 0), SAStore => (0x56, 0, 0),
        Pop => (0x57, 0, 0), Pop2 => (0x58, 0, 0), Dup => (0x59, 0, 0), DupX1 => (0x5a, 0, 0), DupX2 => (0x5b, 0, 0), Dup2 => (0x5c, 0, 0), Dup2X1 => (0x5d, 0, 0), Dup2X2 => (0x5e, 0, 0), Swap => (0x5f, 0, 0),
        IAdd => (0x60, 0, 0), LAdd => (0x61, 0, 0), FAdd => (0x62, 0, 0), DAdd => (0x63, 0, 0),
        ISub => (0x64, 0, 0), LSub => (0x65, 0, 0), FSub => (0x66, 0, 0), DSub => (0x67, 0, 0),
        IMul => (0x68, 0, 0), LMul => (0x69, 0, 0), FMul => (0x6a, 0, 0), DMul => (0x6b, 0, 0),
        IDiv => (0x6c, 0, 0), LDiv => (0x6d, 0, 0), FDiv => (0x6e, 0, 0), DDiv => (0x6f, 0, 0),
        IRem => (0x70, 0, 0), LRem => (0x71, 0, 0), FRem => (0x72, 0, 0), DRem => (0x73, 0, 0),
        INeg => (0x74, 0, 0), LNeg => (0x75, 0, 0), FNeg => (0x76, 0, 0), DNeg => (0x77, 0, 0),
        IShL => (0x78, 0, 0), LShL => (0x79, 0, 0), IShR => (0x7a, 0, 0), LShR => (0x7b, 0, 0), IUShR => (0x7c, 0, 0), LUShR => (0x7d, 0, 0),
        IAnd => (0x7e, 0, 0), LAnd => (0x7f, 0, 0), IOr => (0x80, 0, 0), LOr => (0x81, 0, 0), IXOr => (0x82, 0, 0), LXOr => (0x83, 0, 0),
        IInc(a, b) => (0x84, a as i64, b as i64),
        I2L => (0x85, 0, 0), I2F => (0x86, 0, 0), I2D => (0x87, 0, 0), L2I => (0x88, 0, 0), L2F => (0x89, 0, 0), L2D => (0x8a, 0, 0),
        F2I => (0x8b, 0, 0), F2L => (0x8c, 0, 0), F2D => (0x8d, 0, 0), D2I => (0x8e, 0, 0), D2L => (0x8f, 0, 0), D2F => (0x90, 0, 0),
        I2B => (0x91, 0, 0), I2C => (0x92, 0, 0), I2S => (0x93, 0, 0),
        LCmp => (0x94, 0, 0), FCmpL => (0x95, 0, 0), FCmpG => (0x96, 0, 0), DCmpL => (0x97, 0, 0), DCmpG => (0x98, 0, 0),
        IfEq(a) => (0x99, a as i64, 0), IfNE(a) => (0x9a, a as i64, 0), IfLT(a) => (0x9b, a as i64, 0), IfGE(a) => (0x9c, a as i64, 0), IfGT(a) => (0x9d, a as i64, 0), IfLE(a) => (0x9e, a as i64, 0),
        IfICmpEq(a) => (0x9f, a as i64, 0), IfICmpNE(a) => (0xa0, a as i64, 0), IfICmpLT(a) => (0xa1, a as i64, 0), IfICmpGE(a) => (0xa2, a as i64, 0), IfICmpGT(a) => (0xa3, a as i64, 0), IfICmpLE(a) => (0xa4, a as i64, 0),
        IfACmpEq(a) => (0xa5, a as i64, 0), IfACmpNE(a) => (0xa6, a as i64, 0),
        GoTo(a) => (0xa7, a as i64, 0), JSR(a) => (0xa8, a as i64, 0), Ret(a) => (0xa9, a as i64, 0),
        TableSwitch { .. } => (0xaa, 0, 0), LookupSwitch { .. } => (0xab, 0, 0),
        IReturn => (0xac, 0, 0), LReturn => (0xad, 0, 0), FReturn => (0xae, 0, 0), DReturn => (0xaf, 0, 0), AReturn => (0xb0, 0, 0), Return => (0xb1, 0, 0),
        GetStatic(a) => (0xb2, a as i64, 0), PutStatic(a) => (0xb3, a as i64, 0), GetField(a) => (0xb4, a as i64, 0), PutField(a) => (0xb5, a as i64, 0),
        InvokeVirtual(a) => (0xb6, a as i64, 0), InvokeSpecial(a) => (0xb7, a as i64, 0), InvokeStatic(a) => (0xb8, a as i64, 0),
        InvokeInterface(a, b) => (0xb9, a as i64, b as i64), InvokeDynamic(a) => (0xba, a as i64, 0),
        New(a) => (0xbb, a as i64, 0),
        NewArray(ref t) => (0xbc, match *t { ArrayType::Boolean => 4, ArrayType::Char => 5, ArrayType::Float => 6, ArrayType::Double => 7, ArrayType::Byte => 8, ArrayType::Short => 9, ArrayType::Int => 10, ArrayType::Long => 11 }, 0),
        ANewArray(a) => (0xbd, a as i64, 0), ArrayLength => (0xbe, 0, 0), AThrow => (0xbf, 0, 0), CheckCast(a) => (0xc0, a as i64, 0), InstanceOf(a) => (0xc1, a as i64, 0),
        MonitorEnter => (0xc2, 0, 0), MonitorExit => (0xc3, 0, 0), MultiANewArray(a, b) => (0xc5, a as i64, b as i64),
        IfNull(a) => (0xc6, a as i64, 0), IfNonNull(a) => (0xc7, a as i64, 0),
        BreakPoint => (0xca, 0, 0), ImpDep1 => (0xfe, 0, 0), ImpDep2 => (0xff, 0, 0),
    }
}

/// How much of the parsed instructions is compared.
#[derive(Clone, Copy, PartialEq)]
pub enum Cmp { Full, KeysOnly }

fn s1(x: u8) -> i64 { x as i8 as i64 }
fn s2(x: u16) -> i64 { x as i16 as i64 }
fn s4(x: u32) -> i64 { x as i32 as i64 }

/// Reads one instruction at offset `at` of the code array.
pub fn walk_insn(r: &mut R, at: u32, v: Option<&Instruction>) -> W<()> {
    let op = r.u1()?;
    let is = |o: u8, a: i64, b: i64| { if let Some(i) = v { let c = canon(i); check(c.0 == o, "instruction"); check(c.1 == a && c.2 == b, "instruction operands"); } };
    match format(op) {
        F::None => is(op, 0, 0),
        F::S1 => { let a = r.u1()?; is(op, s1(a), 0) }
        F::S2 => { let a = r.u2()?; is(op, s2(a), 0) }
        F::S4 => { let a = r.u4()?; is(op - 0x21, s4(a), 0) }
        F::U1 => { let a = r.u1()?; is(op, a as i64, 0) }
        F::U2 => { let a = r.u2()?; is(op, a as i64, 0) }
        F::U1Ldc => { let a = r.u1()?; is(0x12, a as i64, 0) }
        F::U2Ldc => { let a = r.u2()?; is(0x12, a as i64, 0) }
        F::Inc => { let a = r.u1()?; let b = r.u1()?; is(op, a as i64, s1(b)) }
        F::Iface => { let a = r.u2()?; let n = r.u1()?; let z = r.u1()?; assume(z == 0); is(op, a as i64, n as i64) }
        F::Dyn => { let a = r.u2()?; let z = r.u2()?; assume(z == 0); is(op, a as i64, 0) }
        F::Multi => { let a = r.u2()?; let n = r.u1()?; is(op, a as i64, n as i64) }
        F::NewArr => { let t = r.u1()?; if t < 4 || t > 11 { return Err(Bad::Insn(0xbc, at)); } is(op, t as i64, 0) }
        F::Wide => {
            let o = r.u1()?;
            if !wide_ok(o) { return Err(Bad::Insn(0xc4, at)); }
            let a = r.u2()?;
            if o == 0x84 { let b = r.u2()?; is(o, a as i64, s2(b)) } else { is(o, a as i64, 0) }
        }
        F::Table => {
            pad(r, at)?;
            let d = r.u4()? as i32;
            let lo = r.u4()? as i32;
            let hi = r.u4()? as i32;
            if lo > hi { return Err(Bad::Any); }
            let n = (hi as i64 - lo as i64 + 1) as u64;
            if n > (r.left() / 4) as u64 { return Err(Bad::Limit); }
            let t = match v {
                None => None,
                Some(&Instruction::TableSwitch { default, low, high, ref offsets }) => { check(default == d && low == lo && high == hi, "tableswitch bounds"); Some(offsets) }
                _ => { check(false, "tableswitch"); return Ok(()) }
            };
            if let Some(t) = t { check(t.len() as u64 == n, "tableswitch table length"); }
            let mut i = 0;
            while (i as u64) < n {
                let o = r.u4()? as i32;
                if let Some(t) = t { check(t[i] == o, "tableswitch offset"); }
                i += 1;
            }
        }
        F::Lookup => {
            pad(r, at)?;
            let d = r.u4()? as i32;
            let n = r.u4()?;
            if n as usize > r.left() / 8 { return Err(Bad::Limit); }
            let t = match v {
                None => None,
                Some(&Instruction::LookupSwitch { default, ref offsets }) => { check(default == d, "lookupswitch default"); Some(offsets) }
                _ => { check(false, "lookupswitch"); return Ok(()) }
            };
            // equal keys: which offset wins is not specified
            let start = r.pos;
            let mut j = 1;
            while v.is_some() && n < 40 && j < n {
                let mut i = 0;
                let k = key(r, start, j)?;
                while i < j { assume(key(r, start, i)? != k); i += 1; }
                j += 1;
            }
            let mut i = 0;
            while i < n {
                let k = r.u4()? as i32;
                let o = r.u4()? as i32;
                if let Some(t) = t { check(t.get(&k) == Some(&o), "lookupswitch pair"); }
                i += 1;
            }
            if let Some(t) = t { check(t.len() == n as usize, "lookupswitch pair count"); }
        }
        F::Undefined => return Err(Bad::Insn(op, at)),
    }
    Ok(())
}
fn key(r: &R, start: usize, i: u32) -> W<u32> { let p = start + 8 * i as usize; R::at(r.b, p, p + 4).u4() }
fn pad(r: &mut R, at: u32) -> W<()> {
    let mut i = (at + 1) % 4;
    while i % 4 != 0 { r.u1()?; i += 1; }
    Ok(())
}

pub fn walk_code(r: &mut R, cp: &Cp, v: Option<&Attribute>) -> W<()> { walk_code_cmp(r, cp, v, Cmp::Full) }
pub fn walk_code_cmp(r: &mut R, cp: &Cp, v: Option<&Attribute>, cmp: Cmp) -> W<()> {
    let v = match v {
        None => None,
        Some(&Attribute::Code { max_stack, max_locals, ref instructions, ref exceptions, ref attributes }) => Some((max_stack, max_locals, instructions, exceptions, attributes)),
        _ => { check(false, "attribute is not reported as Code"); return Ok(()) }
    };
    let (s, l) = (r.u2()?, r.u2()?);
    if let Some(v) = v { check(v.0 == s, "max_stack"); check(v.1 == l, "max_locals"); }
    let n = r.u4()? as usize;
    if n > r.left() { return Err(Bad::Limit); }
    if n == 0 { return Err(Bad::Any); }
    let mut c = R::at(r.b, r.pos, r.pos + n);
    let mut count = 0usize;
    while c.pos < c.end {
        let at = (c.pos - r.pos) as u32;
        let i = match v {
            None => None,
            Some(v) => { let i = v.2.get(&at); check(i.is_some(), "no instruction reported at an instruction start"); i }
        };
        walk_insn(&mut c, at, if cmp == Cmp::Full { i } else { None })?;
        count += 1;
    }
    if let Some(v) = v { check(v.2.len() == count, "instruction count"); }
    r.pos = c.end;
    let n = r.u2()? as usize;
    if let Some(v) = v { check(v.3.len() == n, "exception table length"); }
    let mut i = 0;
    while i < n {
        let (a, b, c, d) = (r.u2()?, r.u2()?, r.u2()?, r.u2()?);
        if let Some(v) = v { let e = &v.3[i]; check(e.start == a && e.end == b && e.handler == c && e.catch_type == d, "exception table entry"); }
        i += 1;
    }
    walk_attributes(r, cp, v.map(|v| v.4))
}
