//! Structural equality of parsed trees (the crate's types offer none).
use crate::refcode::canon;
use jbcrs::basic::*;

fn all<T>(a: &[T], b: &[T], f: fn(&T, &T) -> bool) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if !f(&a[i], &b[i]) { return false; } i += 1; }
    true
}
fn value(a: &ElementValue, b: &ElementValue) -> bool {
    use jbcrs::basic::ElementValue::*;
    match (a, b) {
        (Byte(x), Byte(y)) | (Short(x), Short(y)) | (Char(x), Char(y)) | (Int(x), Int(y)) | (Long(x), Long(y)) | (Float(x), Float(y))
        | (Double(x), Double(y)) | (Boolean(x), Boolean(y)) | (String(x), String(y)) | (Class(x), Class(y)) => x == y,
        (Enum { type_name: a, const_name: b }, Enum { type_name: c, const_name: d }) => a == c && b == d,
        (Annotation(x), Annotation(y)) => annotation(x, y),
        (Array(x), Array(y)) => all(x, y, value),
        _ => false,
    }
}
fn annotation(a: &Annotation, b: &Annotation) -> bool {
    a.type_index == b.type_index && all(&a.element_value_pairs, &b.element_value_pairs, |x, y| x.0 == y.0 && value(&x.1, &y.1))
}
fn lv(a: &LocalVariableTarget, b: &LocalVariableTarget) -> bool { a.start == b.start && a.length == b.length && a.index == b.index }
fn target(a: &TargetType, b: &TargetType) -> bool {
    use jbcrs::basic::TargetType::*;
    match (a, b) {
        (TypeParameterClass(x), TypeParameterClass(y)) | (TypeParameterMethod(x), TypeParameterMethod(y)) | (FormalParameter(x), FormalParameter(y)) => x == y,
        (SuperType(x), SuperType(y)) | (Throws(x), Throws(y)) | (Catch(x), Catch(y)) | (OffsetInstanceOf(x), OffsetInstanceOf(y)) | (OffsetNew(x), OffsetNew(y))
        | (OffsetNewRef(x), OffsetNewRef(y)) | (OffsetRef(x), OffsetRef(y)) => x == y,
        (EmptyField, EmptyField) | (EmptyReturn, EmptyReturn) | (EmptyReceiver, EmptyReceiver) => true,
        (TypeParameterBoundClass { type_parameter: a, bound_index: b }, TypeParameterBoundClass { type_parameter: c, bound_index: d })
        | (TypeParameterBoundMethod { type_parameter: a, bound_index: b }, TypeParameterBoundMethod { type_parameter: c, bound_index: d }) => a == c && b == d,
        (LocalVariable(x), LocalVariable(y)) | (ResourceVariable(x), ResourceVariable(y)) => all(x, y, lv),
        (TypeArgumentCast { offset: a, type_argument: b }, TypeArgumentCast { offset: c, type_argument: d })
        | (TypeArgumentMethod { offset: a, type_argument: b }, TypeArgumentMethod { offset: c, type_argument: d })
        | (TypeArgumentConstructor { offset: a, type_argument: b }, TypeArgumentConstructor { offset: c, type_argument: d })
        | (TypeArgumentNewRef { offset: a, type_argument: b }, TypeArgumentNewRef { offset: c, type_argument: d })
        | (TypeArgumentRef { offset: a, type_argument: b }, TypeArgumentRef { offset: c, type_argument: d }) => a == c && b == d,
        _ => false,
    }
}
fn path(a: &TypePathElement, b: &TypePathElement) -> bool {
    use jbcrs::basic::TypePathKind::*;
    let k = |x: &TypePathElement| match x.path_kind { ArrayType => 0, NestedType => 1, WildcardType => 2, Type => 3 };
    k(a) == k(b) && a.argument_index == b.argument_index
}
fn type_annotation(a: &TypeAnnotation, b: &TypeAnnotation) -> bool {
    target(&a.target_type, &b.target_type) && all(&a.target_path, &b.target_path, path) && annotation(&a.annotation, &b.annotation)
}
fn vtype(a: &VerificationType, b: &VerificationType) -> bool {
    use jbcrs::basic::VerificationType::*;
    match (a, b) {
        (Top, Top) | (Integer, Integer) | (Float, Float) | (Double, Double) | (Long, Long) | (Null, Null) | (UninitializedThis, UninitializedThis) => true,
        (Object(x), Object(y)) | (Uninitialized(x), Uninitialized(y)) => x == y,
        _ => false,
    }
}
fn frame(a: &StackMapFrame, b: &StackMapFrame) -> bool {
    use jbcrs::basic::StackMapFrame::*;
    match (a, b) {
        (Same { offset_delta: x }, Same { offset_delta: y }) => x == y,
        (Same1 { offset_delta: x, stack: s }, Same1 { offset_delta: y, stack: t }) => x == y && vtype(s, t),
        (Chop { offset_delta: x, count: s }, Chop { offset_delta: y, count: t }) => x == y && s == t,
        (Append { offset_delta: x, locals: s }, Append { offset_delta: y, locals: t }) => x == y && all(s, t, vtype),
        (Full { offset_delta: x, locals: s, stack: u }, Full { offset_delta: y, locals: t, stack: v }) => x == y && all(s, t, vtype) && all(u, v, vtype),
        _ => false,
    }
}
fn insn(a: &Instruction, b: &Instruction) -> bool {
    match (a, b) {
        (Instruction::TableSwitch { default: a, low: b, high: c, offsets: d }, Instruction::TableSwitch { default: e, low: f, high: g, offsets: h }) => a == e && b == f && c == g && d == h,
        (Instruction::LookupSwitch { default: a, offsets: b }, Instruction::LookupSwitch { default: c, offsets: d }) => a == c && b.len() == d.len() && b.iter().zip(d.iter()).all(|(x, y)| x == y),
        _ => canon(a) == canon(b),
    }
}
fn attribute(a: &Attribute, b: &Attribute) -> bool {
    use jbcrs::basic::Attribute::*;
    match (a, b) {
        (AnnotationDefault(x), AnnotationDefault(y)) => value(x, y),
        (BootstrapMethods(x), BootstrapMethods(y)) => all(x, y, |p, q| p.method_ref == q.method_ref && p.arguments == q.arguments),
        (Code { max_stack: a, max_locals: b, instructions: c, exceptions: d, attributes: e }, Code { max_stack: f, max_locals: g, instructions: h, exceptions: i, attributes: j }) =>
            a == f && b == g && c.len() == h.len() && c.iter().all(|(k, v)| match h.get(k) { Some(w) => insn(v, w), None => false })
            && all(d, i, |p, q| p.start == q.start && p.end == q.end && p.handler == q.handler && p.catch_type == q.catch_type) && all(e, j, attribute),
        (ConstantValue(x), ConstantValue(y)) | (ModuleMainClass(x), ModuleMainClass(y)) | (Signature(x), Signature(y)) | (SourceFile(x), SourceFile(y)) => x == y,
        (Deprecated, Deprecated) | (Synthetic, Synthetic) => true,
        (EnclosingMethod { class_index: a, method_index: b }, EnclosingMethod { class_index: c, method_index: d }) => a == c && b == d,
        (Exceptions(x), Exceptions(y)) | (ModulePackages(x), ModulePackages(y)) => x == y,
        (InnerClasses(x), InnerClasses(y)) => all(x, y, |p, q| p.inner_class_info == q.inner_class_info && p.outer_class_info == q.outer_class_info && p.inner_name == q.inner_name && p.inner_class_access_flags == q.inner_class_access_flags),
        (LineNumberTable(x), LineNumberTable(y)) => all(x, y, |p, q| p.start == q.start && p.line_number == q.line_number),
        (LocalVariableTable(x), LocalVariableTable(y)) => all(x, y, |p, q| p.start == q.start && p.length == q.length && p.name == q.name && p.descriptor == q.descriptor && p.index == q.index),
        (LocalVariableTypeTable(x), LocalVariableTypeTable(y)) => all(x, y, |p, q| p.start == q.start && p.length == q.length && p.name == q.name && p.signature == q.signature && p.index == q.index),
        (MethodParameters(x), MethodParameters(y)) => all(x, y, |p, q| p.name == q.name && p.access_flags == q.access_flags),
        (Module { name: a, flags: b, version: c, requires: d, exports: e, opens: f, uses: g, provides: h }, Module { name: i, flags: j, version: k, requires: l, exports: m, opens: n, uses: o, provides: p }) =>
            a == i && b == j && c == k && g == o && all(d, l, |x, y| x.index == y.index && x.flags == y.flags && x.version == y.version)
            && all(e, m, |x, y| x.index == y.index && x.flags == y.flags && x.to == y.to) && all(f, n, |x, y| x.index == y.index && x.flags == y.flags && x.to == y.to)
            && all(h, p, |x, y| x.index == y.index && x.with == y.with),
        (RuntimeVisibleAnnotations(x), RuntimeVisibleAnnotations(y)) | (RuntimeInvisibleAnnotations(x), RuntimeInvisibleAnnotations(y)) => all(x, y, annotation),
        (RuntimeVisibleParameterAnnotations(x), RuntimeVisibleParameterAnnotations(y)) | (RuntimeInvisibleParameterAnnotations(x), RuntimeInvisibleParameterAnnotations(y)) =>
            all(x, y, |p, q| all(p, q, annotation)),
        (RuntimeVisibleTypeAnnotations(x), RuntimeVisibleTypeAnnotations(y)) | (RuntimeInvisibleTypeAnnotations(x), RuntimeInvisibleTypeAnnotations(y)) => all(x, y, type_annotation),
        (SourceDebugExtension(x), SourceDebugExtension(y)) => x.as_bytes() == y.as_bytes(),
        (StackMapTable(x), StackMapTable(y)) => all(x, y, frame),
        (Unknown(i, x), Unknown(j, y)) => i == j && x == y,
        _ => false,
    }
}
pub fn class(a: &Class, b: &Class) -> bool {
    a.minor_version == b.minor_version && a.major_version == b.major_version && a.access_flags == b.access_flags && a.name == b.name && a.super_name == b.super_name
        && a.interfaces == b.interfaces
        && all(&a.fields, &b.fields, |p, q| p.access_flags == q.access_flags && p.name == q.name && p.desc == q.desc && all(&p.attributes, &q.attributes, attribute))
        && all(&a.methods, &b.methods, |p, q| p.access_flags == q.access_flags && p.name == q.name && p.desc == q.desc && all(&p.attributes, &q.attributes, attribute))
        && all(&a.attributes, &b.attributes, attribute)
}
pub fn pool(a: &Pool, b: &Pool) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        match (a.get(i), b.get(i)) {
            (Ok(x), Ok(y)) => { if crate::refpool::item_parts(x) != crate::refpool::item_parts(y) { return false; } if let (Item::UTF8(s), Item::UTF8(t)) = (x, y) { if s.as_bytes() != t.as_bytes() { return false; } } }
            (Err(_), Err(_)) => {}
            _ => return false,
        }
        i += 1;
    }
    true
}
