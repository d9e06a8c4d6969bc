//! Reference reader, written from the JVM specification (chapters 4 and 6), independent of the code
//! under test. Every `walk_*` function reads the encoding from the bytes; when given the parsed
//! value it also checks that the value is what the bytes say.
use crate::sym::check;
use jbcrs::basic::*;
use jbcrs::Error;

/// Why the reference reader rejects (first reason in file order).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    /// no particular error is prescribed
    Any,
    /// content does not fit its extent, or does not fill it
    Limit,
    /// a string that ends too early: what there is of it may be malformed as well
    Text,
    Cp(u16),
    Insn(u8, u32),
    Elem(u8),
    Frame(u8),
    VType(u8),
    Target,
    Path,
    Utf8,
    Magic,
}
pub type W<T> = std::result::Result<T, Bad>;

/// The same, with the error the library documents for input that ends too early and for malformed strings.
pub fn error_names(e: &Error, b: Bad) -> bool {
    match b {
        Bad::Any => !matches!(*e, Error::IO(_) | Error::NotAClass | Error::InvalidDescriptor { .. }),
        Bad::Limit => matches!(*e, Error::LimitExceeded),
        Bad::Text => matches!(*e, Error::LimitExceeded | Error::InvalidUTF8),
        Bad::Utf8 => matches!(*e, Error::InvalidUTF8),
        b => error_matches(e, b),
    }
}
pub fn error_matches(e: &Error, b: Bad) -> bool {
    match b {
        Bad::Any | Bad::Limit | Bad::Text => true,
        Bad::Cp(i) => match *e { Error::InvalidCPItem(j) => i == j, _ => false },
        Bad::Insn(o, at) => match *e { Error::InvalidInstruction { op_code, at: a } => o == op_code && at == a, _ => false },
        Bad::Elem(t) => match *e { Error::InvalidElementValue(x) => x == t, _ => false },
        Bad::Frame(t) => match *e { Error::ReservedStackMapFrame(x) => x == t, _ => false },
        Bad::VType(t) => match *e { Error::InvalidVerificationType(x) => x == t, _ => false },
        Bad::Target => match *e { Error::InvalidTargetType => true, _ => false },
        Bad::Path => match *e { Error::InvalidTypePath => true, _ => false },
        Bad::Utf8 => true,
        Bad::Magic => match *e { Error::NotAClass => true, _ => false },
    }
}

pub struct R<'a> { pub b: &'a [u8], pub pos: usize, pub end: usize }
impl<'a> R<'a> {
    pub fn new(b: &'a [u8]) -> R<'a> { R { b, pos: 0, end: b.len() } }
    pub fn at(b: &'a [u8], pos: usize, end: usize) -> R<'a> { R { b, pos, end } }
    pub fn u1(&mut self) -> W<u8> {
        if self.pos >= self.end { return Err(Bad::Limit); }
        let v = self.b[self.pos];
        self.pos += 1;
        Ok(v)
    }
    pub fn u2(&mut self) -> W<u16> {
        if self.end - self.pos < 2 { self.pos = self.end; return Err(Bad::Limit); }
        let v = (self.b[self.pos] as u16) << 8 | self.b[self.pos + 1] as u16;
        self.pos += 2;
        Ok(v)
    }
    pub fn u4(&mut self) -> W<u32> {
        if self.end - self.pos < 4 { self.pos = self.end; return Err(Bad::Limit); }
        let p = self.pos;
        let v = (self.b[p] as u32) << 24 | (self.b[p + 1] as u32) << 16 | (self.b[p + 2] as u32) << 8 | self.b[p + 3] as u32;
        self.pos += 4;
        Ok(v)
    }
    pub fn u8_(&mut self) -> W<u64> {
        let h = self.u4()? as u64;
        Ok(h << 32 | self.u4()? as u64)
    }
    pub fn done(&self) -> W<()> { if self.pos == self.end { Ok(()) } else { Err(Bad::Limit) } }
    pub fn left(&self) -> usize { self.end - self.pos }
}

macro_rules! ck { ($c:expr, $m:expr) => { check($c, $m) } }

/// A list of u2 values preceded by a u2 count.
pub fn walk_u2s(r: &mut R, v: Option<&Vec<u16>>, m: &'static str) -> W<()> {
    let n = r.u2()? as usize;
    if let Some(v) = v { ck!(v.len() == n, m); }
    let mut i = 0;
    while i < n {
        let x = r.u2()?;
        if let Some(v) = v { ck!(v[i] == x, m); }
        i += 1;
    }
    Ok(())
}

// ------------------------------------------------------------------ annotations
pub fn walk_element(r: &mut R, v: Option<&ElementValue>) -> W<()> {
    let tag = r.u1()?;
    macro_rules! simple { ($k:ident) => {{
        let x = r.u2()?;
        if let Some(v) = v { ck!(match *v { ElementValue::$k(y) => x == y, _ => false }, concat!("element value ", stringify!($k))); }
        Ok(())
    }} }
    match tag {
        66 => simple!(Byte),
        67 => simple!(Char),
        68 => simple!(Double),
        70 => simple!(Float),
        73 => simple!(Int),
        74 => simple!(Long),
        83 => simple!(Short),
        90 => simple!(Boolean),
        115 => simple!(String),
        99 => simple!(Class),
        101 => {
            let t = r.u2()?;
            let c = r.u2()?;
            if let Some(v) = v { ck!(match *v { ElementValue::Enum { type_name, const_name } => type_name == t && const_name == c, _ => false }, "enum element value"); }
            Ok(())
        }
        64 => {
            match v {
                None => walk_annotation(r, None),
                Some(&ElementValue::Annotation(ref a)) => walk_annotation(r, Some(a)),
                Some(_) => { ck!(false, "nested annotation element value"); Ok(()) }
            }
        }
        91 => {
            let n = r.u2()? as usize;
            let a = match v { None => None, Some(&ElementValue::Array(ref a)) => Some(a), Some(_) => { ck!(false, "array element value"); return Ok(()) } };
            if let Some(a) = a { ck!(a.len() == n, "array element value length"); }
            let mut i = 0;
            while i < n { walk_element(r, a.map(|a| &a[i]))?; i += 1; }
            Ok(())
        }
        t => Err(Bad::Elem(t)),
    }
}
pub fn walk_annotation(r: &mut R, v: Option<&Annotation>) -> W<()> {
    let t = r.u2()?;
    let n = r.u2()? as usize;
    if let Some(v) = v { ck!(v.type_index == t, "annotation type"); ck!(v.element_value_pairs.len() == n, "annotation element count"); }
    let mut i = 0;
    while i < n {
        let name = r.u2()?;
        match v {
            Some(v) => { let p = &v.element_value_pairs[i]; ck!(p.0 == name, "annotation element name"); walk_element(r, Some(&p.1))? }
            None => walk_element(r, None)?,
        }
        i += 1;
    }
    Ok(())
}
pub fn walk_annotations(r: &mut R, v: Option<&Vec<Annotation>>) -> W<()> {
    let n = r.u2()? as usize;
    if let Some(v) = v { ck!(v.len() == n, "annotation count"); }
    let mut i = 0;
    while i < n { walk_annotation(r, v.map(|v| &v[i]))?; i += 1; }
    Ok(())
}
pub fn walk_param_annotations(r: &mut R, v: Option<&Vec<Vec<Annotation>>>) -> W<()> {
    let n = r.u1()? as usize;
    if let Some(v) = v { ck!(v.len() == n, "parameter annotation count"); }
    let mut i = 0;
    while i < n { walk_annotations(r, v.map(|v| &v[i]))?; i += 1; }
    Ok(())
}

// ------------------------------------------------------------------ type annotations
fn walk_lv_target(r: &mut R, v: Option<&Vec<LocalVariableTarget>>) -> W<()> {
    let n = r.u2()? as usize;
    if let Some(v) = v { ck!(v.len() == n, "local variable target length"); }
    let mut i = 0;
    while i < n {
        let (s, l, x) = (r.u2()?, r.u2()?, r.u2()?);
        if let Some(v) = v { ck!(v[i].start == s && v[i].length == l && v[i].index == x, "local variable target entry"); }
        i += 1;
    }
    Ok(())
}
pub fn walk_target(r: &mut R, v: Option<&TargetType>) -> W<()> {
    use jbcrs::basic::TargetType::*;
    let k = r.u1()?;
    macro_rules! is { ($p:pat => $c:expr) => { if let Some(v) = v { ck!(match *v { $p => $c, _ => false }, "type annotation target"); } } }
    match k {
        0x00 => { let a = r.u1()?; is!(TypeParameterClass(x) => x == a) }
        0x01 => { let a = r.u1()?; is!(TypeParameterMethod(x) => x == a) }
        0x10 => { let a = r.u2()?; is!(SuperType(x) => x == a) }
        0x11 => { let (a, b) = (r.u1()?, r.u1()?); is!(TypeParameterBoundClass { type_parameter, bound_index } => type_parameter == a && bound_index == b) }
        0x12 => { let (a, b) = (r.u1()?, r.u1()?); is!(TypeParameterBoundMethod { type_parameter, bound_index } => type_parameter == a && bound_index == b) }
        0x13 => is!(EmptyField => true),
        0x14 => is!(EmptyReturn => true),
        0x15 => is!(EmptyReceiver => true),
        0x16 => { let a = r.u1()?; is!(FormalParameter(x) => x == a) }
        0x17 => { let a = r.u2()?; is!(Throws(x) => x == a) }
        0x40 => return match v { None => walk_lv_target(r, None), Some(&LocalVariable(ref t)) => walk_lv_target(r, Some(t)), _ => { ck!(false, "type annotation target"); Ok(()) } },
        0x41 => return match v { None => walk_lv_target(r, None), Some(&ResourceVariable(ref t)) => walk_lv_target(r, Some(t)), _ => { ck!(false, "type annotation target"); Ok(()) } },
        0x42 => { let a = r.u2()?; is!(Catch(x) => x == a) }
        0x43 => { let a = r.u2()?; is!(OffsetInstanceOf(x) => x == a) }
        0x44 => { let a = r.u2()?; is!(OffsetNew(x) => x == a) }
        0x45 => { let a = r.u2()?; is!(OffsetNewRef(x) => x == a) }
        0x46 => { let a = r.u2()?; is!(OffsetRef(x) => x == a) }
        0x47 => { let (a, b) = (r.u2()?, r.u1()?); is!(TypeArgumentCast { offset, type_argument } => offset == a && type_argument == b) }
        0x48 => { let (a, b) = (r.u2()?, r.u1()?); is!(TypeArgumentConstructor { offset, type_argument } => offset == a && type_argument == b) }
        0x49 => { let (a, b) = (r.u2()?, r.u1()?); is!(TypeArgumentMethod { offset, type_argument } => offset == a && type_argument == b) }
        0x4A => { let (a, b) = (r.u2()?, r.u1()?); is!(TypeArgumentNewRef { offset, type_argument } => offset == a && type_argument == b) }
        0x4B => { let (a, b) = (r.u2()?, r.u1()?); is!(TypeArgumentRef { offset, type_argument } => offset == a && type_argument == b) }
        _ => return Err(Bad::Target),
    }
    Ok(())
}
pub fn walk_path(r: &mut R, v: Option<&Vec<TypePathElement>>) -> W<()> {
    let n = r.u1()? as usize;
    if let Some(v) = v { ck!(v.len() == n, "type path length"); }
    let mut i = 0;
    while i < n {
        let k = r.u1()?;
        if k > 3 { return Err(Bad::Path); }
        let a = r.u1()?;
        if let Some(v) = v {
            let kk = match v[i].path_kind { TypePathKind::ArrayType => 0u8, TypePathKind::NestedType => 1, TypePathKind::WildcardType => 2, TypePathKind::Type => 3 };
            ck!(k == kk && v[i].argument_index == a, "type path element");
        }
        i += 1;
    }
    Ok(())
}
pub fn walk_type_annotations(r: &mut R, v: Option<&Vec<TypeAnnotation>>) -> W<()> {
    let n = r.u2()? as usize;
    if let Some(v) = v { ck!(v.len() == n, "type annotation count"); }
    let mut i = 0;
    while i < n {
        walk_target(r, v.map(|v| &v[i].target_type))?;
        walk_path(r, v.map(|v| &v[i].target_path))?;
        walk_annotation(r, v.map(|v| &v[i].annotation))?;
        i += 1;
    }
    Ok(())
}

// ------------------------------------------------------------------ stack maps
fn walk_vtype(r: &mut R, v: Option<&VerificationType>) -> W<()> {
    use jbcrs::basic::VerificationType::*;
    let t = r.u1()?;
    macro_rules! is { ($p:pat => $c:expr) => { if let Some(v) = v { ck!(match *v { $p => $c, _ => false }, "verification type"); } } }
    match t {
        0 => is!(Top => true),
        1 => is!(Integer => true),
        2 => is!(Float => true),
        3 => is!(Double => true),
        4 => is!(Long => true),
        5 => is!(Null => true),
        6 => is!(UninitializedThis => true),
        7 => { let a = r.u2()?; is!(Object(x) => x == a) }
        8 => { let a = r.u2()?; is!(Uninitialized(x) => x == a) }
        t => return Err(Bad::VType(t)),
    }
    Ok(())
}
fn walk_vtypes(r: &mut R, n: usize, v: Option<&Vec<VerificationType>>, m: &'static str) -> W<()> {
    if let Some(v) = v { ck!(v.len() == n, m); }
    let mut i = 0;
    while i < n { walk_vtype(r, v.map(|v| &v[i]))?; i += 1; }
    Ok(())
}
pub fn walk_frame(r: &mut R, v: Option<&StackMapFrame>) -> W<()> {
    let t = r.u1()?;
    if t <= 63 {
        if let Some(v) = v { ck!(match *v { StackMapFrame::Same { offset_delta } => offset_delta == t as u16, _ => false }, "same_frame"); }
        return Ok(());
    }
    if t <= 127 || t == 247 {
        let d = if t == 247 { r.u2()? } else { (t - 64) as u16 };
        return match v {
            None => walk_vtype(r, None),
            Some(&StackMapFrame::Same1 { offset_delta, ref stack }) => { ck!(offset_delta == d, "same_locals_1_stack_item offset"); walk_vtype(r, Some(stack)) }
            _ => { ck!(false, "same_locals_1_stack_item frame"); Ok(()) }
        };
    }
    if t < 247 { return Err(Bad::Frame(t)); }
    let d = r.u2()?;
    if t <= 250 {
        if let Some(v) = v { ck!(match *v { StackMapFrame::Chop { offset_delta, count } => offset_delta == d && count == 251 - t, _ => false }, "chop_frame"); }
        return Ok(());
    }
    if t == 251 {
        if let Some(v) = v { ck!(match *v { StackMapFrame::Same { offset_delta } => offset_delta == d, _ => false }, "same_frame_extended"); }
        return Ok(());
    }
    if t <= 254 {
        let n = (t - 251) as usize;
        return match v {
            None => walk_vtypes(r, n, None, ""),
            Some(&StackMapFrame::Append { offset_delta, ref locals }) => { ck!(offset_delta == d, "append_frame offset"); walk_vtypes(r, n, Some(locals), "append_frame locals") }
            _ => { ck!(false, "append_frame"); Ok(()) }
        };
    }
    let (l, s) = match v {
        None => (None, None),
        Some(&StackMapFrame::Full { offset_delta, ref locals, ref stack }) => { ck!(offset_delta == d, "full_frame offset"); (Some(locals), Some(stack)) }
        _ => { ck!(false, "full_frame"); return Ok(()) }
    };
    let n = r.u2()? as usize;
    walk_vtypes(r, n, l, "full_frame locals")?;
    let n = r.u2()? as usize;
    walk_vtypes(r, n, s, "full_frame stack")
}
pub fn walk_stack_map(r: &mut R, v: Option<&Vec<StackMapFrame>>) -> W<()> {
    let n = r.u2()? as usize;
    if let Some(v) = v { ck!(v.len() == n, "stack map frame count"); }
    let mut i = 0;
    while i < n { walk_frame(r, v.map(|v| &v[i]))?; i += 1; }
    Ok(())
}

// ------------------------------------------------------------------ attributes
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum A {
    AnnotationDefault, BootstrapMethods, Code, ConstantValue, Deprecated, EnclosingMethod, Exceptions, InnerClasses, LineNumberTable,
    LocalVariableTable, LocalVariableTypeTable, MethodParameters, Module, ModuleMainClass, ModulePackages,
    Rva, Ria, Rvpa, Ripa, Rvta, Rita, Signature, SourceFile, StackMapTable, Synthetic, SourceDebugExtension,
    Unknown,
}
pub const NAMES: [(&str, A); 26] = [
    ("AnnotationDefault", A::AnnotationDefault), ("BootstrapMethods", A::BootstrapMethods), ("Code", A::Code), ("ConstantValue", A::ConstantValue),
    ("Deprecated", A::Deprecated), ("EnclosingMethod", A::EnclosingMethod), ("Exceptions", A::Exceptions), ("InnerClasses", A::InnerClasses),
    ("LineNumberTable", A::LineNumberTable), ("LocalVariableTable", A::LocalVariableTable), ("LocalVariableTypeTable", A::LocalVariableTypeTable),
    ("MethodParameters", A::MethodParameters), ("Module", A::Module), ("ModuleMainClass", A::ModuleMainClass), ("ModulePackages", A::ModulePackages),
    ("RuntimeVisibleAnnotations", A::Rva), ("RuntimeInvisibleAnnotations", A::Ria), ("RuntimeVisibleParameterAnnotations", A::Rvpa),
    ("RuntimeInvisibleParameterAnnotations", A::Ripa), ("RuntimeVisibleTypeAnnotations", A::Rvta), ("RuntimeInvisibleTypeAnnotations", A::Rita),
    ("Signature", A::Signature), ("SourceFile", A::SourceFile), ("StackMapTable", A::StackMapTable), ("Synthetic", A::Synthetic),
    ("SourceDebugExtension", A::SourceDebugExtension),
];
pub fn name_of(a: A) -> &'static str { let mut i = 0; while i < 26 { if NAMES[i].1 as u8 == a as u8 { return NAMES[i].0; } i += 1; } "Nothing" }
pub fn kind_of(name: &[u8]) -> A {
    let mut i = 0;
    while i < 26 { if NAMES[i].0.as_bytes() == name { return NAMES[i].1; } i += 1; }
    A::Unknown
}

/// What the reference reader knows of the constant pool: the text of each UTF8 entry.
pub struct Cp { pub utf: Vec<Option<Vec<u8>>> }
impl Cp {
    pub fn name(&self, i: u16) -> W<&[u8]> {
        match self.utf.get(i as usize) { Some(&Some(ref s)) => Ok(s), _ => Err(Bad::Cp(i)) }
    }
}

fn flags(f: AccessFlags, bits: u16) -> bool { f.bits() == bits }

pub fn walk_attributes(r: &mut R, cp: &Cp, v: Option<&Vec<Attribute>>) -> W<()> {
    let n = r.u2()? as usize;
    if let Some(v) = v { ck!(v.len() == n, "attribute count"); }
    let mut i = 0;
    while i < n { walk_attribute(r, cp, v.map(|v| &v[i]))?; i += 1; }
    Ok(())
}

pub fn walk_attribute(r: &mut R, cp: &Cp, v: Option<&Attribute>) -> W<()> {
    let ni = r.u2()?;
    let kind = kind_of(cp.name(ni)?);
    let len = r.u4()? as usize;
    if len > r.left() { return Err(Bad::Limit); }
    let mut s = R::at(r.b, r.pos, r.pos + len);
    walk_body(&mut s, ni, kind, cp, v)?;
    s.done()?;
    r.pos = s.end;
    Ok(())
}

pub fn walk_body(r: &mut R, ni: u16, kind: A, cp: &Cp, v: Option<&Attribute>) -> W<()> {
    macro_rules! get { ($p:pat => $e:expr, $m:expr) => { match v { None => None, Some(&$p) => Some($e), Some(_) => { ck!(false, concat!("attribute is not reported as ", $m)); return Ok(()) } } } }
    macro_rules! table { ($x:ident, $m:expr, $( $f:ident ),+) => {{
        let t = get!(Attribute::$x(ref t) => t, stringify!($x));
        let n = r.u2()? as usize;
        if let Some(t) = t { ck!(t.len() == n, concat!($m, " length")); }
        let mut i = 0;
        while i < n {
            $( let $f = r.u2()?; )+
            if let Some(t) = t { $( ck!(t[i].$f == $f, concat!($m, " ", stringify!($f))); )+ }
            i += 1;
        }
        Ok(())
    }} }
    macro_rules! index { ($x:ident) => {{
        let t = get!(Attribute::$x(ref t) => t, stringify!($x));
        let x = r.u2()?;
        if let Some(t) = t { ck!(*t == x, concat!(stringify!($x), " index")); }
        Ok(())
    }} }
    match kind {
        A::AnnotationDefault => { let t = get!(Attribute::AnnotationDefault(ref t) => t, "AnnotationDefault"); walk_element(r, t) }
        A::Rva => { let t = get!(Attribute::RuntimeVisibleAnnotations(ref t) => t, "RuntimeVisibleAnnotations"); walk_annotations(r, t) }
        A::Ria => { let t = get!(Attribute::RuntimeInvisibleAnnotations(ref t) => t, "RuntimeInvisibleAnnotations"); walk_annotations(r, t) }
        A::Rvpa => { let t = get!(Attribute::RuntimeVisibleParameterAnnotations(ref t) => t, "RuntimeVisibleParameterAnnotations"); walk_param_annotations(r, t) }
        A::Ripa => { let t = get!(Attribute::RuntimeInvisibleParameterAnnotations(ref t) => t, "RuntimeInvisibleParameterAnnotations"); walk_param_annotations(r, t) }
        A::Rvta => { let t = get!(Attribute::RuntimeVisibleTypeAnnotations(ref t) => t, "RuntimeVisibleTypeAnnotations"); walk_type_annotations(r, t) }
        A::Rita => { let t = get!(Attribute::RuntimeInvisibleTypeAnnotations(ref t) => t, "RuntimeInvisibleTypeAnnotations"); walk_type_annotations(r, t) }
        A::StackMapTable => { let t = get!(Attribute::StackMapTable(ref t) => t, "StackMapTable"); walk_stack_map(r, t) }
        A::ConstantValue => index!(ConstantValue),
        A::Signature => index!(Signature),
        A::SourceFile => index!(SourceFile),
        A::ModuleMainClass => index!(ModuleMainClass),
        A::Deprecated => { let _ = get!(Attribute::Deprecated => (), "Deprecated"); Ok(()) }
        A::Synthetic => { let _ = get!(Attribute::Synthetic => (), "Synthetic"); Ok(()) }
        A::EnclosingMethod => {
            let t = get!(Attribute::EnclosingMethod { class_index, method_index } => (class_index, method_index), "EnclosingMethod");
            let (c, m) = (r.u2()?, r.u2()?);
            if let Some(t) = t { ck!(t.0 == c && t.1 == m, "EnclosingMethod indices"); }
            Ok(())
        }
        A::Exceptions => { let t = get!(Attribute::Exceptions(ref t) => t, "Exceptions"); walk_u2s(r, t, "Exceptions table") }
        A::ModulePackages => { let t = get!(Attribute::ModulePackages(ref t) => t, "ModulePackages"); walk_u2s(r, t, "ModulePackages table") }
        A::LineNumberTable => table!(LineNumberTable, "line number", start, line_number),
        A::LocalVariableTable => table!(LocalVariableTable, "local variable", start, length, name, descriptor, index),
        A::LocalVariableTypeTable => table!(LocalVariableTypeTable, "local variable type", start, length, name, signature, index),
        A::InnerClasses => {
            let t = get!(Attribute::InnerClasses(ref t) => t, "InnerClasses");
            let n = r.u2()? as usize;
            if let Some(t) = t { ck!(t.len() == n, "InnerClasses length"); }
            let mut i = 0;
            while i < n {
                let (a, b, c, d) = (r.u2()?, r.u2()?, r.u2()?, r.u2()?);
                if let Some(t) = t {
                    ck!(t[i].inner_class_info == a && t[i].outer_class_info == b && t[i].inner_name == c, "InnerClasses entry");
                    ck!(flags(t[i].inner_class_access_flags, d), "InnerClasses flags");
                }
                i += 1;
            }
            Ok(())
        }
        A::MethodParameters => {
            let t = get!(Attribute::MethodParameters(ref t) => t, "MethodParameters");
            let n = r.u1()? as usize;
            if let Some(t) = t { ck!(t.len() == n, "MethodParameters length"); }
            let mut i = 0;
            while i < n {
                let (a, b) = (r.u2()?, r.u2()?);
                if let Some(t) = t { ck!(t[i].name == a && flags(t[i].access_flags, b), "MethodParameters entry"); }
                i += 1;
            }
            Ok(())
        }
        A::BootstrapMethods => {
            let t = get!(Attribute::BootstrapMethods(ref t) => t, "BootstrapMethods");
            let n = r.u2()? as usize;
            if let Some(t) = t { ck!(t.len() == n, "BootstrapMethods length"); }
            let mut i = 0;
            while i < n {
                let m = r.u2()?;
                if let Some(t) = t { ck!(t[i].method_ref == m, "bootstrap method reference"); }
                walk_u2s(r, t.map(|t| &t[i].arguments), "bootstrap arguments")?;
                i += 1;
            }
            Ok(())
        }
        A::Module => {
            let t = match v {
                None => None,
                Some(&Attribute::Module { name, flags, version, ref requires, ref exports, ref opens, ref uses, ref provides }) => Some((name, flags, version, requires, exports, opens, uses, provides)),
                _ => { ck!(false, "attribute is not reported as Module"); return Ok(()) }
            };
            let (a, f, b) = (r.u2()?, r.u2()?, r.u2()?);
            if let Some(t) = t { ck!(t.0 == a && flags(t.1, f) && t.2 == b, "module name, flags, version"); }
            let n = r.u2()? as usize;
            if let Some(t) = t { ck!(t.3.len() == n, "module requires length"); }
            let mut i = 0;
            while i < n {
                let (a, f, b) = (r.u2()?, r.u2()?, r.u2()?);
                if let Some(t) = t { ck!(t.3[i].index == a && flags(t.3[i].flags, f) && t.3[i].version == b, "module requires entry"); }
                i += 1;
            }
            let n = r.u2()? as usize;
            if let Some(t) = t { ck!(t.4.len() == n, "module exports length"); }
            let mut i = 0;
            while i < n {
                let (a, f) = (r.u2()?, r.u2()?);
                if let Some(t) = t { ck!(t.4[i].index == a && flags(t.4[i].flags, f), "module exports entry"); }
                walk_u2s(r, t.map(|t| &t.4[i].to), "module exports to")?;
                i += 1;
            }
            let n = r.u2()? as usize;
            if let Some(t) = t { ck!(t.5.len() == n, "module opens length"); }
            let mut i = 0;
            while i < n {
                let (a, f) = (r.u2()?, r.u2()?);
                if let Some(t) = t { ck!(t.5[i].index == a && flags(t.5[i].flags, f), "module opens entry"); }
                walk_u2s(r, t.map(|t| &t.5[i].to), "module opens to")?;
                i += 1;
            }
            walk_u2s(r, t.map(|t| t.6), "module uses")?;
            let n = r.u2()? as usize;
            if let Some(t) = t { ck!(t.7.len() == n, "module provides length"); }
            let mut i = 0;
            while i < n {
                let a = r.u2()?;
                if let Some(t) = t { ck!(t.7[i].index == a, "module provides entry"); }
                walk_u2s(r, t.map(|t| &t.7[i].with), "module provides with")?;
                i += 1;
            }
            Ok(())
        }
        A::SourceDebugExtension => {
            let t = get!(Attribute::SourceDebugExtension(ref t) => t, "SourceDebugExtension");
            let n = r.left();
            crate::sym::assume(!unspecified(&r.b[r.pos..r.end]));
            let want = decode_mutf8(&r.b[r.pos..r.end])?;
            r.pos += n;
            if let Some(t) = t { ck!(t.as_bytes() == &want[..], "SourceDebugExtension text"); }
            Ok(())
        }
        A::Code => crate::refcode::walk_code(r, cp, v),
        A::Unknown => {
            let t = match v { None => None, Some(&Attribute::Unknown(i, ref b)) => Some((i, b)), _ => { ck!(false, "attribute is not reported as unknown"); return Ok(()) } };
            if let Some((i, b)) = t { ck!(i == ni, "unknown attribute name index"); ck!(b[..] == r.b[r.pos..r.end], "unknown attribute bytes"); }
            r.pos = r.end;
            Ok(())
        }
    }
}

// ------------------------------------------------------------------ strings
/// Modified UTF-8 to UTF-8 (JVM specification 4.4.7). Longer than necessary encodings are `None`-like:
/// the specification of Java's writer never produces them; see `overlong`.
pub fn decode_mutf8(b: &[u8]) -> W<Vec<u8>> {
    let mut out = Vec::with_capacity(b.len() * 2 + 4);
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        if x >= 0x01 && x <= 0x7f { out.push(x); i += 1; continue; }
        if x & 0xe0 == 0xc0 {
            if b.len() - i < 2 || b[i + 1] & 0xc0 != 0x80 { return Err(Bad::Utf8); }
            let c = ((x & 0x1f) as u32) << 6 | (b[i + 1] & 0x3f) as u32;
            push_char(&mut out, c);
            i += 2;
            continue;
        }
        if x & 0xf0 == 0xe0 {
            if b.len() - i < 3 || b[i + 1] & 0xc0 != 0x80 || b[i + 2] & 0xc0 != 0x80 { return Err(Bad::Utf8); }
            let c = ((x & 0x0f) as u32) << 12 | ((b[i + 1] & 0x3f) as u32) << 6 | (b[i + 2] & 0x3f) as u32;
            if c >= 0xd800 && c <= 0xdbff {
                if b.len() - i < 6 || b[i + 3] != 0xed || b[i + 4] & 0xf0 != 0xb0 || b[i + 5] & 0xc0 != 0x80 { return Err(Bad::Utf8); }
                let lo = ((b[i + 4] & 0x3f) as u32) << 6 | (b[i + 5] & 0x3f) as u32 | 0xd000;
                let cp = 0x10000 + ((c - 0xd800) << 10) + (lo - 0xdc00);
                push_char(&mut out, cp);
                i += 6;
                continue;
            }
            if c >= 0xdc00 && c <= 0xdfff { return Err(Bad::Utf8); }
            push_char(&mut out, c);
            i += 3;
            continue;
        }
        return Err(Bad::Utf8);
    }
    Ok(out)
}
pub fn push_char(out: &mut Vec<u8>, c: u32) {
    if c < 0x80 { out.push(c as u8) }
    else if c < 0x800 { out.push(0xc0 | (c >> 6) as u8); out.push(0x80 | (c & 0x3f) as u8) }
    else if c < 0x10000 { out.push(0xe0 | (c >> 12) as u8); out.push(0x80 | (c >> 6 & 0x3f) as u8); out.push(0x80 | (c & 0x3f) as u8) }
    else { out.push(0xf0 | (c >> 18) as u8); out.push(0x80 | (c >> 12 & 0x3f) as u8); out.push(0x80 | (c >> 6 & 0x3f) as u8); out.push(0x80 | (c & 0x3f) as u8) }
}
/// Does a well-formed sequence contain a longer than necessary encoding (other than C0 80)?
pub fn overlong(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        if x < 0x80 { i += 1; continue; }
        if x & 0xe0 == 0xc0 {
            if x <= 0xc1 && !(x == 0xc0 && i + 1 < b.len() && b[i + 1] == 0x80) { return true; }
            i += 2;
            continue;
        }
        if x == 0xe0 && i + 1 < b.len() && b[i + 1] < 0xa0 { return true; }
        i += 3;
    }
    false
}
/// Well formed but for a longer than necessary encoding: what becomes of it is not specified.
pub fn unspecified(b: &[u8]) -> bool { decode_mutf8(b).is_ok() && overlong(b) }
