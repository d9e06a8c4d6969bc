PARSER = "basic/parser/"
seed("C01-surrogate-tail", "C01", [(PARSER + "decode.rs", "                    if i >= 3 {\n", "                    if i >= 2 {\n")],
     r'''fn main() { let _ = parse(&with_pool(2, &utf(&[0x41, 0xed, 0xa0, 0x80, 0xed, 0xb0]))); }''',
     "a string that ends two bytes after a high surrogate", "the count of bytes left in the string underflows: panic in debug builds")
seed("C02-code-map", "C02", [(PARSER + "code.rs", "let mut instructions = HashMap::new();", "let mut instructions = HashMap::with_capacity(code_length as usize / 2);")],
     r'''fn main() { let mut f = code(&[0xb1]); let n = f.len(); let at = n - 9; f[at] = 0x30; assert_eq!(&f[n - 5..], &[0xb1, 0, 0, 0, 0]); let _ = parse(&f); }''',
     "a small file whose code attribute claims a code length of several hundred megabytes", "memory for the claimed number of instructions is reserved before the length is checked")
seed("C02-exports", "C02", [(PARSER + "class.rs", '''        let to_count = decoder.read_u16()?;
        let mut to = Vec::new();
        for _ in 0..to_count {
            to.push(decoder.read_u16()?);
        }

        exports.push''', '''        let to_count = usize::from(decoder.read_u16()?);
        let mut to = Vec::new();
        to.reserve(to_count);
        for _ in 0..to_count {
            to.push(decoder.read_u16()?);
        }

        exports.push''')],
     r'''use std::alloc::*;
struct A; static mut PEAK: usize = 0;
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > PEAK { PEAK = l.size() } System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let f = class_attr("Module", &[0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0xff, 0xff]); unsafe { PEAK = 0 } let _ = parse(&f); if unsafe { PEAK } > 100_000 { std::process::exit(1) } }''',
     "a module attribute whose export claims 65535 target modules it does not contain", "128 KiB are reserved for a file of some hundred bytes")
seed("C03-limit-depth", "C03", [(PARSER + "decode.rs", '''        Ok(Decoder {
            bytes: self.bytes,
            cursor: self.cursor,
            limit: end,
            depth: self.depth,
        })''', '''        let mut limited = Decoder::new(self.bytes, self.cursor);
        limited.limit = end;
        Ok(limited)''')],
     r'''fn main() {
    let mut a: Vec<u8> = attr(3, &[]);
    for _ in 0..20000 { let mut b = attr(2, &[u2(1), u2(1), u4(1), vec![0xb1], u2(0), u2(1)].concat()); let n = b.len() as u32 - 6 + a.len() as u32; b[2..6].copy_from_slice(&u4(n)); b.extend(&a); a = b; }
    let f = class_attrs("N", &[a]);
    let _ = parse(&f);
}''', "code attributes nested some thousand levels inside each other", "the nesting depth starts again at zero in every attribute, so the stack overflows")
seed("C04-no-attributes", "C04", [(PARSER + "mod.rs", '''    let attributes = parse_attributes(&mut decoder, &constant_pool)?;

    let class = Class {''', '''    // some old compilers omit an empty attribute list
    let attributes = if decoder.cursor() == input.len() {
        Vec::new()
    } else {
        parse_attributes(&mut decoder, &constant_pool)?
    };

    let class = Class {''')],
     r'''fn main() { let f = with_pool(1, &[]); parsed(&f); for n in 0..f.len() { if parse(&f[..n]).is_ok() { println!("cut at {} accepted", n); std::process::exit(1) } } }''',
     "a file cut exactly in front of the class's attribute count", "the truncated file is accepted")
seed("C05-magic", "C05", [(PARSER + "mod.rs", "    if decoder.read_bytes(4)? != MAGIC {", "    let magic = decoder.read_bytes(4)?;\n    if magic[..2] != MAGIC[..2] && magic[2..] != MAGIC[2..] {")],
     r'''fn main() { let mut f = with_pool(1, &[]); f[3] = 0xbf; if parse(&f).is_ok() { std::process::exit(1) } }''',
     "an input of which only one half of the magic number is right", "it is accepted as a class file")
seed("C05-interfaces", "C05", [(PARSER + "mod.rs", "        interfaces.push(decoder.read_u16()?);", "        let interface = decoder.read_u16()?;\n        if interfaces.last() != Some(&interface) {\n            interfaces.push(interface);\n        }")],
     r'''fn main() { let f = file(1, &[], &[0, 0x21, 0, 0, 0, 0, 0, 3, 0, 7, 0, 7, 0, 8, 0, 0, 0, 0, 0, 0]); same!(parsed(&f).1.interfaces, vec![7, 7, 8]); }''',
     "two equal interface entries next to each other", "one of them is not reported")
seed("C06-annotation", "C06", [("basic/tree.rs", "const ANNOTATION   = 0b0010_0000_0000_0000;", "const ANNOTATION   = 0b0010_0010_0000_0000;")],
     r'''fn main() { let mut f = with_pool(1, &[]); let at = f.len() - 14; f[at] = 0x20; f[at + 1] = 0; if !parsed(&f).1.access_flags.contains(AccessFlags::ANNOTATION) { std::process::exit(1) } }''',
     "flags with ANNOTATION but without INTERFACE", "ANNOTATION is not recognised")
seed("C06-module-flags", "C06", [(PARSER + "class.rs", "        let flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);\n        let version = decoder.read_u16()?;\n        requires", "        let flags = AccessFlags::from_bits_truncate(decoder.read_u16()?) - AccessFlags::TRANSIENT;\n        let version = decoder.read_u16()?;\n        requires")],
     r'''fn main() { let f = class_attr("Module", &[0, 0, 0, 0, 0, 0, 0, 1, 0, 5, 0x80, 0xe0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]); match first(&f) { Attribute::Module { requires, .. } => { same!(requires[0].flags.bits(), 0x80e0); } _ => panic!() } }''',
     "a module requirement with bit 0x0080 set", "the bit is missing in the reported flags")
seed("C07-clamp", "C07", [(PARSER + "decode.rs", "        let end = *self.cursor + to;\n        self.check(end)?;\n        Ok(Decoder {", "        let end = (*self.cursor + to).min(self.limit);\n        self.check(end)?;\n        Ok(Decoder {")],
     r'''fn main() { let mut f = class_attr("Deprecated", &[]); let n = f.len(); f[n - 1] = 9; if parse(&f).is_ok() { std::process::exit(1) } }''',
     "an attribute without content, last in the file, that declares more bytes than are left", "the declared length is cut to what is left and the file accepted")
seed("C07-code-end", "C07", [(PARSER + "code.rs", "        let mut code_decoder = decoder.limit(code_length as usize)?;\n", "        decoder.limit(code_length as usize)?;\n        let code_decoder = &mut *decoder;\n"),
     (PARSER + "code.rs", "parse_instruction(&mut code_decoder, code_location)?", "parse_instruction(code_decoder, code_location)?"),
     (PARSER + "code.rs", "            if end == code_length {", "            if end >= code_length {"),
     (PARSER + "code.rs", "            code_location = end;\n        }\n\n        code_decoder.remove_limit()?;", "            code_location = end;\n        }")],
     r'''fn main() { let mut f = code(&[0, 0x11, 0, 0]); let n = f.len(); f[n - 9] = 2; f[n - 8] = 0; f[n - 7] = 0x11; let f = class_attrs("N", &[attr(2, &[0, 1, 0, 1, 0, 0, 0, 2, 0, 0x11, 1, 2, 0, 0, 0, 0])]); if parse(&f).is_ok() { std::process::exit(1) } }''',
     "a code array whose last instruction needs bytes after its end, followed by bytes that still make sense", "the instruction's operand is read from outside the code array")
seed("C08-double", "C08", [("basic/constpool.rs", "            Item::Long(_) | Item::Double(_) => true,", "            Item::Double(d) => !d.is_nan(),\n            Item::Long(_) => true,")],
     r'''fn main() { let (p, _) = parsed(&with_pool(4, &[6, 0x7f, 0xf8, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0, 9])); same!(p.get(3).unwrap(), Item::Integer(9)); }''',
     "a double constant that is NaN, followed by another entry", "the NaN takes only one index")
seed("C09-kind-index", "C09", [(PARSER + "mod.rs", "                let kind = match decoder.read_u8()? {", "                let kind = decoder.read_u8()?;\n                let index = decoder.read_u16()?;\n                let kind = match kind {"),
     (PARSER + "mod.rs", "                let index = decoder.read_u16()?;\n\n                Item::MethodHandle", "\n                Item::MethodHandle")],
     r'''fn main() { match parse(&with_pool(3, &[3, 0, 0, 0, 9, 15, 0, 0, 77])) { Err(Error::InvalidCPItem(2)) => {} e => { println!("{:?}", e.err()); std::process::exit(1) } } }''',
     "a method handle of an undefined kind", "the error carries the handle's reference index instead of the entry's index")
seed("C09-nan", "C09", [(PARSER + "decode.rs", "        Ok(f32::from_bits(self.read_u32()?))", "        let value = f32::from_bits(self.read_u32()?);\n        Ok(if value.is_nan() { ::std::f32::NAN } else { value })")],
     r'''fn main() { let (p, _) = parsed(&with_pool(2, &[4, 0xff, 0xc0, 0, 1])); match *p.get(1).unwrap() { Item::Float(f) if f.to_bits() == 0xffc00001 => {} _ => std::process::exit(1) } }''',
     "a float constant that is a NaN with another bit pattern than the usual one", "its bits are not preserved")
seed("C10-plane", "C10", [(PARSER + "decode.rs", "0x1_0000 + ((r2 & 0x0F) << 16)", "0x1_0000 + ((r2 & 0x07) << 16)")],
     r'''fn main() { let (p, _) = parsed(&with_pool(2, &utf(&[0xed, 0xa8, 0x80, 0xed, 0xb0, 0x80]))); same!(p.get_utf8(1).unwrap(), "\u{90000}"); }''',
     "a character of plane 9 or above", "it decodes to another character")
seed("C10-two-byte-end", "C10", [(PARSER + "decode.rs", "r1 >= 0xC0 && r1 < 0xE0 && i >= 2", "r1 >= 0xC0 && r1 < 0xE0 && i > 2")],
     r'''fn main() { let (p, _) = parsed(&with_pool(2, &utf(&[0x41, 0xc3, 0xa9]))); same!(p.get_utf8(1).unwrap(), "A\u{e9}"); }''',
     "a two-byte character at the very end of a string", "the string is rejected")
seed("C11-class-string", "C11", [("basic/constpool.rs", "            Item::String(ptr) => {\n                state.write_u8(8);", "            Item::String(ptr) => {\n                state.write_u8(7);"),
     ("basic/constpool.rs", "            (&Item::Class(i1), &Item::Class(i2)) | (&Item::String(i1), &Item::String(i2)) => {", "            (&Item::Class(i1), &Item::Class(i2))\n            | (&Item::Class(i1), &Item::String(i2))\n            | (&Item::String(i1), &Item::Class(i2))\n            | (&Item::String(i1), &Item::String(i2)) => {")],
     r'''fn main() { let mut p = Pool::new(); same!(p.push(Item::Class(7)).unwrap(), 1); same!(p.push(Item::String(7)).unwrap(), 2); same!(p.get(2).unwrap(), Item::String(7)); }''',
     "pushing a class and a string constant that refer to the same entry", "the second gets the index of the first")
seed("C12-class-name", "C12", [("basic/constpool.rs", "            self.get_utf8(utf_index)\n", "            self.get_utf8(utf_index)\n                .map_err(|_| Error::InvalidCPItem(index))\n")],
     r'''fn main() { let mut p = Pool::new(); p.push(Item::Integer(1)).unwrap(); p.push(Item::Class(1)).unwrap(); match p.get_class_name(2) { Err(Error::InvalidCPItem(1)) => {} _ => std::process::exit(1) } }''',
     "a class entry whose name index denotes no string", "the error carries the class's index instead of the name's")
seed("C13-edge", "C13", [("basic/constpool.rs", "            Item::Long(_) | Item::Double(_) => true,", "            Item::Long(_) => true,\n            Item::Double(d) => d != 0.0 || d.is_sign_negative(),")],
     r'''fn main() { let mut p = Pool::new(); for i in 0..65533 { p.push(Item::Integer(i)).unwrap(); } same!(p.len(), 65534); match p.push(Item::Double(0.0)) { Err(Error::CPTooLarge) => {} _ => std::process::exit(1) } }''',
     "pushing the double +0.0 when only one index is left", "it is accepted although a double needs two indices")
seed("C14-skip", "C14", [("basic/constpool.rs", "                self.next()\n", "                // the second half of a long or double\n                match self.iter.next() {\n                    Some(&Some(ref item)) => Some((self.index + 1, item)),\n                    _ => None,\n                }\n")],
     r'''fn main() { let mut p = Pool::new(); p.push(Item::Long(1)).unwrap(); p.push(Item::Integer(2)).unwrap(); p.push(Item::Integer(3)).unwrap(); let v: Vec<u16> = p.iter().map(|x| x.0).collect(); same!(v, vec![1, 3, 4]); }''',
     "a pool with two items after a long or double", "the later items are paired with an index one too low")
seed("C15-zero", "C15", [("basic/constpool.rs", "(&Item::Double(f1), &Item::Double(f2)) => f1.to_bits() == f2.to_bits(),", "(&Item::Double(f1), &Item::Double(f2)) => f1 == f2 || f1.is_nan() && f1.to_bits() == f2.to_bits(),")],
     r'''fn main() { if Item::Double(0.0) == Item::Double(-0.0) { std::process::exit(1) } }''',
     "comparing the doubles 0.0 and -0.0", "they are equal although their bits differ")
seed("C15-hash", "C15", [("basic/constpool.rs", "                bootstrap_method_attribute.hash(state);\n                name_and_type.hash(state);", "                (bootstrap_method_attribute ^ name_and_type).hash(state);")],
     r'''use std::hash::*; struct H(Vec<u8>); impl Hasher for H { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend(b) } }
fn main() { let f = |a, b| { let mut h = H(vec![]); Item::InvokeDynamic { bootstrap_method_attribute: a, name_and_type: b }.hash(&mut h); h.0 }; if f(1, 2) == f(3, 0) { std::process::exit(1) } }''',
     "two invoke-dynamic constants whose operands have the same exclusive or", "not every value takes part in the hash by itself")
seed("C16-iinc", "C16", [(PARSER + "code.rs", "            let value = i16::from(decoder.read_i8()?);", "            let value = i16::from(decoder.read_u8()?);")],
     r'''fn main() { same!(insns(&code(&[0x84, 1, 0xff, 0xb1]))[&0], Instruction::IInc(1, -1)); }''', "iinc with a negative constant", "the constant is not sign extended")
seed("C16-goto-w", "C16", [(PARSER + "code.rs", "        0xC8 => GoTo(decoder.read_i32()?),", "        0xC8 => GoTo(i32::from(decoder.read_i32()? as i16)),")],
     r'''fn main() { same!(insns(&code(&[0xc8, 0, 1, 0, 0, 0xb1]))[&0], Instruction::GoTo(65536)); }''', "goto_w further than 32767 bytes", "the offset is cut to 16 bits")
seed("C17-padding", "C17", [(PARSER + "code.rs", '''            // skip padding
            decoder.skip(3 - (at & 3) as usize)?;
            let default = decoder.read_i32()?;

            let count''', '''            // skip padding
            let padding = decoder.read_bytes(3 - (at & 3) as usize)?;
            if padding.iter().any(|b| *b != 0) {
                return Err(Error::InvalidInstruction { op_code, at });
            }
            let default = decoder.read_i32()?;

            let count''')],
     r'''fn main() { let m = insns(&code(&[0xab, 1, 2, 3, 0, 0, 0, 9, 0, 0, 0, 0, 0xb1])); same!(m.len(), 2); }''', "a lookupswitch whose padding bytes are not zero", "it is rejected")
seed("C17-count", "C17", [(PARSER + "code.rs", "            let count = decoder.read_u32()?;\n            let mut offsets = BTreeMap::new();", "            let count = decoder.read_i32()?;\n            let mut offsets = BTreeMap::new();")],
     r'''fn main() { if parse(&code(&[0xab, 0, 0, 0, 0, 0, 0, 9, 0x80, 0, 0, 0, 0xb1])).is_ok() { std::process::exit(1) } }''', "a lookupswitch that claims 2^31 or more pairs", "it is accepted as an empty table")
seed("C18-wide-offset", "C18", [(PARSER + "code.rs", "            instructions.insert(code_location, instruction);", "            instructions.insert(u32::from(code_location as u16), instruction);")],
     r'''fn main() { let m = insns(&code(&vec![0u8; 65540])); same!(m.len(), 65540); }''', "a code array of more than 65536 bytes", "instructions behind it replace those at the start in the map")
seed("C18-handlers", "C18", [(PARSER + "code.rs", '''        exceptions.push(Exception {
            start,
            end,
            handler,
            catch_type,
        });
''', '''        // an empty range never catches anything
        if start != end {
            exceptions.push(Exception {
                start,
                end,
                handler,
                catch_type,
            });
        }
''')],
     r'''fn main() { let f = class_attrs("N", &[attr(2, &[0, 1, 0, 1, 0, 0, 0, 1, 0xb1, 0, 1, 0, 5, 0, 5, 0, 0, 0, 0, 0, 0])]); match first(&f) { Attribute::Code { exceptions, .. } => { same!(exceptions.len(), 1); } _ => panic!() } }''',
     "an exception handler whose range is empty", "it is not reported")
seed("C19-wide", "C19", [(PARSER + "code.rs", "            _ => return Err(Error::InvalidInstruction { op_code: 0xC4, at }),", "            op_code => return Err(Error::InvalidInstruction { op_code, at }),")],
     r'''fn main() { match parse(&code(&[0, 0xc4, 0x60, 0, 0, 0xb1])) { Err(Error::InvalidInstruction { op_code: 0xc4, at: 1 }) => {} e => { println!("{:?}", e.err()); std::process::exit(1) } } }''',
     "an opcode after wide that has no wide form", "the error carries that opcode instead of wide's")
seed("C19-range", "C19", [(PARSER + "code.rs", "        0xFE => ImpDep1,", "        0xFD | 0xFE => ImpDep1,")],
     r'''fn main() { if parse(&code(&[0xfd, 0xb1])).is_ok() { std::process::exit(1) } }''', "the opcode 0xFD", "it is accepted")
seed("C20-chop", "C20", [(PARSER + "method.rs", "                count: 251 - frame_type,", "                count: frame_type - 247,")],
     r'''fn main() { match first(&class_attr("StackMapTable", &[0, 1, 248, 0, 5])) { Attribute::StackMapTable(t) => { same!(t[0], StackMapFrame::Chop { offset_delta: 5, count: 3 }); } _ => panic!() } }''', "a chop frame of one or three locals", "the count is reversed")
seed("C20-reserved", "C20", [(PARSER + "method.rs", "            247 => StackMapFrame::Same1 {", "            246...247 => StackMapFrame::Same1 {")],
     r'''fn main() { match parse(&class_attr("StackMapTable", &[0, 1, 246, 0, 5, 1])) { Err(Error::ReservedStackMapFrame(246)) => {} _ => std::process::exit(1) } }''', "the reserved frame type 246", "it is accepted")
seed("C21-single", "C21", [(PARSER + "annotation.rs", "            Ok(ElementValue::Array(element_values))", "            if element_values.len() == 1 {\n                return Ok(element_values.remove(0));\n            }\n            Ok(ElementValue::Array(element_values))")],
     r'''fn main() { match first(&class_attr("AnnotationDefault", &[b'[', 0, 1, b'I', 0, 7])) { Attribute::AnnotationDefault(ElementValue::Array(v)) => { same!(v.len(), 1); } _ => std::process::exit(1) } }''', "an array with a single element", "the element is reported without the array")
seed("C22-path", "C22", [(PARSER + "annotation.rs", "        let argument_index = decoder.read_u8()?;", "        let mut argument_index = decoder.read_u8()?;\n        if let TypePathKind::WildcardType = path_kind {\n            argument_index = 0;\n        }")],
     r'''fn main() { match first(&class_attr("RuntimeVisibleTypeAnnotations", &[0, 1, 0x13, 1, 2, 9, 0, 1, 0, 0])) { Attribute::RuntimeVisibleTypeAnnotations(v) => { same!(v[0].target_path[0].argument_index, 9); } _ => panic!() } }''', "a wildcard path element with an argument index", "the index is reported as zero")
seed("C22-targets", "C22", [(PARSER + "annotation.rs", "        0x48 => TypeArgumentConstructor {", "        0x49 => TypeArgumentConstructor {"), (PARSER + "annotation.rs", "        0x49 => TypeArgumentMethod {", "        0x48 => TypeArgumentMethod {")],
     r'''fn main() { match first(&class_attr("RuntimeVisibleTypeAnnotations", &[0, 1, 0x48, 0, 5, 1, 0, 0, 1, 0, 0])) { Attribute::RuntimeVisibleTypeAnnotations(v) => match v[0].target_type { TargetType::TypeArgumentConstructor { .. } => {} _ => std::process::exit(1) }, _ => panic!() } }''', "a type argument of a generic constructor or method call", "the two targets are exchanged")
seed("C23-requires", "C23", [(PARSER + "class.rs", "        let version = decoder.read_u16()?;\n        requires", "        let version = match decoder.read_u16()? {\n            0 => version,\n            version => version,\n        };\n        requires")],
     r'''fn main() { match first(&class_attr("Module", &[0, 0, 0, 0, 0, 7, 0, 1, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0])) { Attribute::Module { requires, .. } => { same!(requires[0].version, 0); } _ => panic!() } }''', "a requirement without a version in a module with one", "the module's version is reported for it")
seed("C24-lines", "C24", [(PARSER + "method.rs", "    Ok(Attribute::LineNumberTable(table))", "    table.sort_by_key(|l: &LineNumber| l.start);\n    Ok(Attribute::LineNumberTable(table))")],
     r'''fn main() { match first(&class_attr("LineNumberTable", &[0, 2, 0, 9, 0, 1, 0, 3, 0, 2])) { Attribute::LineNumberTable(t) => { same!(t[0].start, 9); } _ => panic!() } }''', "a line number table that is not in ascending order", "its entries are reordered")
seed("C25-trim", "C25", [(PARSER + "mod.rs", "        let attribute = match name.as_ref() {", "        let attribute = match name.trim_right() {")],
     r'''fn main() { match first(&class_attr("Synthetic ", &[])) { Attribute::Unknown(1, _) => {} a => { println!("{:?}", a); std::process::exit(1) } } }''', "an attribute named like a known one with white space after it", "it is taken for the known one")
seed("C25-empty", "C25", [(PARSER + "mod.rs", "                Attribute::Unknown(name_index, bytes.to_vec())", "                let end = bytes.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);\n                Attribute::Unknown(name_index, if end + 4 < bytes.len() { bytes[..end].to_vec() } else { bytes.to_vec() })")],
     r'''fn main() { match first(&class_attr("Foo", &[1, 0, 0, 0, 0, 0, 0])) { Attribute::Unknown(1, v) => { same!(v.len(), 7); } _ => panic!() } }''', "an unknown attribute that ends in more than four zero bytes", "the zero bytes are dropped")
seed("C26-inner", "C26", [("types.rs", "                // after the primitive tag no chars may be\n                if chars.count() != 0 {", "                // after the primitive tag no chars may be\n                if !chars.as_str().trim_matches('\\0').is_empty() {")],
     r'''fn main() { if "[I\0".parse::<TypeDescriptor>().is_ok() { std::process::exit(1) } }''', "a NUL character after a primitive type", "trailing characters are accepted")
seed("C27-params", "C27", [("types.rs", "        if chars.count() != 0 || params.len() > 255 {", "        if chars.count() != 0 || params.len() + ret.iter().len() > 255 {")],
     r'''fn main() { let s = format!("({})I", "I".repeat(255)); if s.parse::<MethodDescriptor>().is_err() { std::process::exit(1) } }''', "a method with exactly 255 parameters that returns a value", "it is rejected")
seed("C27-dims", "C27", [("types.rs", '''                } else if state == 1 && ch == 'V' {
                    if dimensions != 0 {
                        err!();
                    }
''', '''                } else if state == 1 && ch == 'V' {
                    if dimensions > 1 {
                        err!();
                    }
''')],
     r'''fn main() { if "()[V".parse::<MethodDescriptor>().is_ok() { std::process::exit(1) } }''', "a method that claims to return an array of void", "it is accepted")
seed("C28-dims", "C28", [("types.rs", '''        f.write_str(&"[".repeat(self.dimensions as usize))?;''', '''        for _ in 0..(self.dimensions & 0x7F) | (self.dimensions & 0x80) >> 7 << 7 & 0x7F {
            f.write_char('[')?;
        }''')],
     r'''fn main() { let s = format!("{}I", "[".repeat(130)); same!(s.parse::<TypeDescriptor>().unwrap().to_string(), s); }''', "a descriptor of more than 127 dimensions", "fewer dimensions are printed")

seed("C29-eof", "C29", [(PARSER + "decode.rs", """        if location <= self.limit {
            Ok(())
        } else {""", """        if location <= self.limit {
            Ok(())
        } else if location > self.bytes.len() {
            Err(Error::IO(::std::io::ErrorKind::UnexpectedEof.into()))
        } else {""")],
     r"""fn main() { let f = with_pool(1, &[]); for n in 4..f.len() { match parse(&f[..n]) { Err(Error::LimitExceeded) => {} Err(e) => { println!("cut at {}: {:?}", n, e); std::process::exit(1) } Ok(_) => std::process::exit(1) } } }""",
     "an input that ends too early", "it is reported as an I/O error instead of as exceeding the limit")
seed("C29-surrogate", "C29", [(PARSER + "decode.rs", """                    } else {
                        return Err(Error::InvalidUTF8);
                    }
                } else {""", """                    } else {
                        // the low surrogate would be behind the end
                        return Err(Error::LimitExceeded);
                    }
                } else {""")],
     r"""fn main() { match parse(&with_pool(2, &utf(&[0x41, 0xed, 0xa0, 0x80]))) { Err(Error::InvalidUTF8) => {} _ => std::process::exit(1) } }""",
     "a string that ends with a high surrogate", "the malformed string is reported as exceeding the limit")
seed("C29-handle", "C29", [(PARSER + "mod.rs", "    if decoder.read_bytes(4)? != MAGIC {", "    if input.len() < 10 || decoder.read_bytes(4)? != MAGIC {")],
     r"""fn main() { match parse(&head()) { Err(Error::LimitExceeded) => {} _ => std::process::exit(1) } }""",
     "a class file cut behind its header", "it is reported as not being a class file")
seed("C30-lookup", "C30", [(PARSER + "code.rs", """                let key = decoder.read_i32()?;
                let offset = decoder.read_i32()?;
                offsets.insert(key, offset);
            }
""", """                if let (Ok(key), Ok(offset)) = (decoder.read_i32(), decoder.read_i32()) {
                    offsets.insert(key, offset);
                }
            }
            if offsets.len() != count as usize {
                return Err(Error::LimitExceeded);
            }
""")],
     r"""fn main() { let t = std::time::Instant::now(); let _ = parse(&code(&[0xab, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xb1])); if t.elapsed().as_secs() >= 3 { std::process::exit(1) } }""",
     "a lookupswitch that claims four billion pairs it does not contain", "the parser loops over all of them")
seed("C30-scan", "C30", [(PARSER + "mod.rs", "        let name = constant_pool.get_utf8(name_index)?;\n", """        let name = match constant_pool.iter().find(|entry| entry.0 == name_index) {
            Some((_, &Item::UTF8(ref name))) => name.clone(),
            _ => return Err(Error::InvalidCPItem(name_index)),
        };
""")],
     r"""fn main() { let mut p = Vec::new(); for i in 0..60000u32 { p.push(3); p.extend(u4(i)); } p.extend(utf(b"U"));
    let mut r = EMPTY[..12].to_vec(); r.extend(u2(60000)); for _ in 0..60000 { r.extend(u2(60001)); r.extend(u4(0)); }
    let f = file(60002, &p, &r);
    let t = std::time::Instant::now(); let c = parsed(&f); assert_eq!(c.1.attributes.len(), 60000); if t.elapsed().as_secs() >= 5 { std::process::exit(1) } }""",
     "a class with many attributes whose name is at the end of a large pool", "every attribute walks the whole pool")
seed("C30-interfaces", "C30", [(PARSER + "mod.rs", "        interfaces.push(decoder.read_u16()?);", "        let interface = decoder.read_u16()?;\n        if interface == 0 && interfaces.contains(&interface) {\n            // reported once per occurrence\n            interfaces.push(0);\n            continue;\n        }\n        interfaces.push(interface);"),
     (PARSER + "method.rs", "        exceptions.push(decoder.read_u16()?);", "        let exception = decoder.read_u16()?;\n        let at = exceptions.iter().position(|e| *e == exception).map_or(exceptions.len(), |_| exceptions.len());\n        exceptions.insert(at, exception);")],
     r"""fn main() { let n = 65535u16; let mut b = u2(n); for i in 0..n { b.extend(u2(i)); } let f = class_attr("Exceptions", &b);
    let t = std::time::Instant::now(); parsed(&f); if t.elapsed().as_secs() >= 3 { std::process::exit(1) } }""",
     "an exceptions table with many different entries", "every entry is compared with all entries before it")

seed("C31-scratch", "C31", [(PARSER + "decode.rs", "        let mut out = String::new();\n", "        // one buffer for all strings\n        let mut out = BUFFER.with(|b| b.replace(String::new()));\n"),
     (PARSER + "decode.rs", """            let ch = char::from_u32(ch).ok_or(Error::InvalidUTF8)?;
            out.push(ch);
        }

        Ok(out)""", """            match char::from_u32(ch) {
                Some(ch) => out.push(ch),
                None => {
                    BUFFER.with(|b| *b.borrow_mut() = out);
                    return Err(Error::InvalidUTF8);
                }
            }
        }

        let text = out.clone();
        out.clear();
        BUFFER.with(|b| *b.borrow_mut() = out);
        Ok(text)"""),
     (PARSER + "decode.rs", "use std::char;\n", "use std::char;\nuse std::cell::RefCell;\n\nthread_local!(static BUFFER: RefCell<String> = RefCell::new(String::new()));\n")],
     r"""fn main() { let bad = with_pool(2, &utf(&[b'a', b'b', 0xed, 0xb0, 0x80])); assert!(parse(&bad).is_err()); let (p, _) = parsed(&with_pool(2, &utf(b"xy"))); same!(p.get_utf8(1).unwrap(), "xy"); }""",
     "a string parsed after a parse that failed at an unpaired low surrogate", "it starts with the characters of the failed string")
seed("C31-names", "C31", [(PARSER + "mod.rs", "        let name = constant_pool.get_utf8(name_index)?;\n", """        // most files use the same name over and over again
        let name = LAST_NAME.with(|last| {
            let mut last = last.borrow_mut();
            if last.0 != name_index || last.1 != constant_pool.len() {
                *last = (name_index, constant_pool.len(), constant_pool.get_utf8(name_index)?);
            }
            Ok(last.2.clone())
        })?;
"""), (PARSER + "mod.rs", "/// Parses all fields and their attributes\n", "thread_local!(static LAST_NAME: ::std::cell::RefCell<(u16, u16, String)> = ::std::cell::RefCell::new((0, 0, String::new())));\n\n/// Parses all fields and their attributes\n")],
     r"""fn main() { parsed(&class_attr("Signature", &[0, 1])); match first(&class_attr("SourceFile", &[0, 1])) { Attribute::SourceFile(1) => {} x => { println!("{:?}", x); std::process::exit(1) } } }""",
     "two files with pools of equal length and different attribute names at the same index", "the attribute of the second is taken for one of the first's name")
seed("C31-guard", "C31", [(PARSER + "code.rs", "        let mut code_location = 0;\n        loop {\n", "        let mut code_location = START.load(Ordering::Relaxed) as u32;\n        loop {\n            START.store(code_location as usize, Ordering::Relaxed);\n"),
     (PARSER + "code.rs", "            // we have read all instructions\n", "            START.store(0, Ordering::Relaxed);\n            // we have read all instructions\n"),
     (PARSER + "code.rs", "use self::decode::Decoder;\n", "use self::decode::Decoder;\nuse std::sync::atomic::{AtomicUsize, Ordering};\n\n/// where the instruction that is read starts\nstatic START: AtomicUsize = AtomicUsize::new(0);\n")],
     r"""fn main() { assert!(parse(&code(&[0, 0, 0xba, 0])).is_err()); same!(insns(&code(&[0xb1])).len(), 1); }""",
     "a code attribute parsed after one that was rejected behind its first instruction", "its instructions are reported under offsets that start where the other failed")
seed("C32-version", "C32", [(PARSER + "mod.rs", "    let methods = parse_methods(&mut decoder, &constant_pool)?;\n", """    let mut methods = parse_methods(&mut decoder, &constant_pool)?;
    if major_version < 50 {
        // not used by these versions
        for attribute in methods.iter_mut().flat_map(|method| method.attributes.iter_mut()) {
            if let Attribute::Code { ref mut attributes, .. } = *attribute {
                attributes.retain(|attribute| match *attribute {
                    Attribute::StackMapTable(..) => false,
                    _ => true,
                });
            }
        }
    }
""")],
     r"""fn main() {
    let mut f = [head(), u2(3), utf(b"Code"), utf(b"StackMapTable"), vec![0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1]].concat();
    f.extend(attr(1, &[u2(1), u2(1), u4(1), vec![0xb1], u2(0), u2(1), attr(2, &[0, 0])].concat())); f.extend(u2(0));
    for v in 0..60 { f[7] = v; let (_, c) = parsed(&f); match c.methods[0].attributes[0] { Attribute::Code { ref attributes, .. } => if attributes.len() != 1 { println!("version {}", v); std::process::exit(1) }, _ => panic!() } }
}""",
     "a class file of a version below 50 whose code carries a StackMapTable", "the attribute is not reported")
seed("C32-bodyless", "C32", [(PARSER + "mod.rs", """        let attributes = parse_attributes(decoder, constant_pool)?;

        fields.push(Method {""", """        let mut attributes = parse_attributes(decoder, constant_pool)?;
        if access_flags.contains(AccessFlags::NATIVE | AccessFlags::ABSTRACT) {
            // there is no code to carry these
            attributes.retain(|a| match *a {
                Attribute::MethodParameters(..) => false,
                _ => true,
            });
        }

        fields.push(Method {""")],
     r"""fn main() {
    let f = [head(), u2(2), utf(b"MethodParameters"), vec![0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0x05, 0, 0, 0, 0, 0], u2(1), attr(1, &[1, 0, 0, 0, 0]), u2(0)].concat();
    same!(parsed(&f).1.methods[0].attributes.len(), 1);
}""",
     "parameters of a method that is native and abstract at once", "the attribute is not reported")
seed("C32-once", "C32", [(PARSER + "mod.rs", "        attributes.push(attribute);\n", """        match (attributes.last(), &attribute) {
            // listed twice in a row
            (Some(&Attribute::Synthetic), &Attribute::Synthetic) => {}
            _ => attributes.push(attribute),
        }
""")],
     r"""fn main() { let (_, c) = parsed(&class_attrs("Synthetic", &[attr(1, &[]), attr(1, &[])])); same!(c.attributes.len(), 2); parsed(&class_attrs("Synthetic", &[attr(1, &[]), attr(3, &[]), attr(1, &[])])); }""",
     "two Synthetic attributes next to each other", "one of them is not reported")
seed("C33-handler", "C33", [(PARSER + "code.rs", "        exceptions.push(Exception {", """        if catch_type == 0 && exceptions.len() > 0 && handler == start {
            // the compiler's own guard of a handler
            continue;
        }
        exceptions.push(Exception {""")],
     r"""fn main() {
    let c = |h: u16| class_attrs("N", &[attr(2, &[u2(1), u2(1), u4(1), vec![0xb1], u2(2), u2(0), u2(1), u2(h), u2(0), u2(h), u2(h + 1), u2(h), u2(0), u2(0)].concat())]);
    match first(&c(7)) { Attribute::Code { exceptions, .. } => { same!(exceptions.len(), 2); } _ => panic!() }
}""",
     "an exception handler that guards itself, as javac writes for synchronized blocks", "the handler is not reported")
seed("C33-anonymous", "C33", [(PARSER + "class.rs", "        let inner_class_access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);\n", """        let mut inner_class_access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);
        if outer_class_info == 0 && inner_name == 0 {
            // anonymous classes are never static
            inner_class_access_flags.remove(AccessFlags::STATIC);
        }
""")],
     r"""fn main() { match first(&class_attr("InnerClasses", &[0, 1, 0, 7, 0, 0, 0, 0, 0, 8])) { Attribute::InnerClasses(v) => { same!(v[0].inner_class_access_flags.bits(), 8); } _ => panic!() } }""",
     "an inner class entry without outer class and name that is marked static", "the flag is not reported")
seed("C33-debug", "C33", [(PARSER + "method.rs", "        let descriptor = decoder.read_u16()?;\n        let index = decoder.read_u16()?;\n", """        let descriptor = decoder.read_u16()?;
        let index = decoder.read_u16()?;
        if usize::from(start) + usize::from(length) > usize::from(u16::max_value()) {
            return Err(Error::LimitExceeded);
        }
""")],
     r"""fn main() { match first(&class_attr("LocalVariableTable", &[0, 1, 0xff, 0xfe, 0, 3, 0, 1, 0, 1, 0, 1])) { Attribute::LocalVariableTable(v) => { same!(v.len(), 1); } _ => panic!() } }""",
     "a local variable whose range ends behind the largest code offset", "the file is rejected")
seed("C27-slots", "C27", [("types.rs", "        if chars.count() != 0 || params.len() > 255 {", """        // a long or double takes two local variables
        let slots: usize = params
            .iter()
            .map(|p| match (p.dimensions, &p.base_type) {
                (0, &Type::Long) | (0, &Type::Double) => 2,
                _ => 1,
            })
            .sum();
        if chars.count() != 0 || slots > 255 {""")],
     r"""fn main() { let s = format!("({})V", "J".repeat(200)); match s.parse::<MethodDescriptor>() { Ok(d) => { same!(d.params.len(), 200); } Err(_) => std::process::exit(1) } }""",
     "a method descriptor with more than 127 long or double parameters", "the descriptor is rejected")
seed("C20-signed", "C20", [(PARSER + "method.rs", "    let count = decoder.read_u16()?;\n    let mut table = Vec::new();\n\n    for _ in 0..count {\n        let frame_type", "    let count = decoder.read_i16()?;\n    let mut table = Vec::new();\n\n    for _ in 0..count {\n        let frame_type")],
     r"""fn main() { let mut b = u2(33000); b.extend(vec![7; 33000]); match first(&class_attr("StackMapTable", &b)) { Attribute::StackMapTable(v) => { same!(v.len(), 33000); } _ => panic!() } }""",
     "more than 32767 stack map frames", "the attribute is rejected")
seed("C15-prefix", "C15", [("basic/constpool.rs", "                s.hash(state);", "                // the beginning tells most strings apart\n                s.len().hash(state);\n                s.as_bytes()[..s.len().min(64)].hash(state);")],
     r"""use std::hash::*; use std::collections::hash_map::DefaultHasher;
fn main() { let h = |s: String| { let mut x = DefaultHasher::new(); Item::UTF8(s).hash(&mut x); x.finish() }; if h("a".repeat(99) + "b") == h("a".repeat(99) + "c") { std::process::exit(1) } }""",
     "strings of equal length that differ after their 64th byte", "the rest of the string takes no part in the hash")
seed("C10-ascii", "C10", [(PARSER + "decode.rs", "        while i > 0 {\n", """        while i > 0 {
            // most strings are plain ASCII
            if i >= 8 {
                self.check(*self.cursor + 8)?;
                let block = &self.bytes[*self.cursor..*self.cursor + 8];
                if block.is_ascii() {
                    out.extend(block.iter().map(|&b| b as char));
                    *self.cursor += 8;
                    i -= 8;
                    continue;
                }
            }

""")],
     r"""fn main() { if parse(&with_pool(2, &utf(b"abc\0defgh"))).is_ok() { std::process::exit(1) } }""",
     "a zero byte among at least eight ASCII characters", "the malformed string is accepted")
seed("C22-empty-range", "C22", [(PARSER + "annotation.rs", "        let length = decoder.read_u16()?;\n        let index = decoder.read_u16()?;\n        table.push(LocalVariableTarget {", "        let length = decoder.read_u16()?;\n        let index = decoder.read_u16()?;\n        if length == 0 && start == u16::max_value() {\n            // not in scope anywhere\n            continue;\n        }\n        table.push(LocalVariableTarget {")],
     r"""fn main() { match first(&class_attr("RuntimeVisibleTypeAnnotations", &[0, 1, 0x40, 0, 1, 0xff, 0xff, 0, 0, 0, 1, 0, 0, 1, 0, 0])) { Attribute::RuntimeVisibleTypeAnnotations(v) => match v[0].target_type { TargetType::LocalVariable(ref t) => { same!(t.len(), 1); } _ => panic!() }, _ => panic!() } }""",
     "a local variable target with an empty range at 65535", "the range is not reported")
seed("C21-trailing", "C21", [(PARSER + "annotation.rs", "        annotations.push(parse_annotations(decoder)?);\n    }\n", "        annotations.push(parse_annotations(decoder)?);\n    }\n    // compilers that count synthetic parameters list them last\n    while annotations.len() > 2 && annotations.last().map_or(false, |a: &Vec<Annotation>| a.is_empty()) {\n        annotations.pop();\n    }\n")],
     r"""fn main() { match first(&class_attr("RuntimeVisibleParameterAnnotations", &[3, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0])) { Attribute::RuntimeVisibleParameterAnnotations(v) => { same!(v.len(), 3); } _ => panic!() } }""",
     "three or more parameters of which the last has no annotation", "the parameter is not reported")
seed("C17-unsorted", "C17", [(PARSER + "code.rs", "                let offset = decoder.read_i32()?;\n                offsets.insert(key, offset);", "                let offset = decoder.read_i32()?;\n                if offsets.len() >= 2 && offsets.range(key..).next().is_some() {\n                    return Err(Error::InvalidInstruction { op_code, at });\n                }\n                offsets.insert(key, offset);")],
     r"""fn main() { let c = [vec![0xab, 0, 0, 0], u4(9), u4(3), u4(5), u4(1), u4(7), u4(2), u4(6), u4(3), vec![0xb1]].concat(); same!(insns(&code(&c)).len(), 2); }""",
     "a lookupswitch whose third or later key is not the largest so far", "the switch is rejected")
seed("C05-twice", "C05", [(PARSER + "mod.rs", "        fields.push(Method {", "        let seen = fields.last().map_or(false, |m: &Method| m.name == name && m.desc == desc);\n        if seen && access_flags.contains(AccessFlags::SYNTHETIC | AccessFlags::VOLATILE) {\n            // the bridge of the method before\n            continue;\n        }\n        fields.push(Method {")],
     r"""fn main() { let m = [0u8, 1, 0, 3, 0, 4, 0, 0]; let n = [0x10u8, 0x40, 0, 3, 0, 4, 0, 0]; let f = file(1, &[], &[vec![0, 0x21, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2], m.to_vec(), n.to_vec(), u2(0)].concat()); same!(parsed(&f).1.methods.len(), 2); }""",
     "a bridge method directly after one of the same name and descriptor", "the bridge is not reported")
seed("C26-many-dims", "C26", [("types.rs", "        let mut dimensions: u8 = 0;\n        // the current location", "        let mut dimensions: u16 = 0;\n        // the current location"),
     ("types.rs", "                    dimensions,\n                    match ch {\n                        'Z' => Type::Boolean,\n                        'B' => Type::Byte,\n                        'S' => Type::Short,\n                        'I' => Type::Int,\n                        'J' => Type::Long,\n                        'F' => Type::Float,\n                        'D' => Type::Double,\n                        'C' => Type::Char,\n                        _ => err!(), // unknown", "                    if dimensions > 255 { err!() } else { dimensions as u8 },\n                    match ch {\n                        'Z' => Type::Boolean,\n                        'B' => Type::Byte,\n                        'S' => Type::Short,\n                        'I' => Type::Int,\n                        'J' => Type::Long,\n                        'F' => Type::Float,\n                        'D' => Type::Double,\n                        'C' => Type::Char,\n                        _ => err!(), // unknown"),
     ("types.rs", "TypeDescriptor::new(dimensions, Type::Reference(name)));\n            } else {\n                name.push(ch);\n            }\n        }\n    }\n}\n\nimpl fmt", "TypeDescriptor::new(dimensions as u8, Type::Reference(name)));\n            } else {\n                name.push(ch);\n            }\n        }\n    }\n}\n\nimpl fmt")],
     r"""fn main() { if format!("{}La;", "[".repeat(257)).parse::<TypeDescriptor>().is_ok() { std::process::exit(1) } }""",
     "a reference type with more than 255 dimensions", "it is accepted with the dimensions modulo 256")
seed("C01-frame-offset", "C01", [(PARSER + "method.rs", "    let mut table = Vec::new();\n\n    for _ in 0..count {\n        let frame_type = decoder.read_u8()?;", "    let mut table: Vec<StackMapFrame> = Vec::new();\n    let mut last = 0u16;\n\n    for _ in 0..count {\n        // where the frame before applies\n        if let Some(&StackMapFrame::Same { offset_delta }) = table.last() {\n            last += offset_delta;\n        }\n        let frame_type = decoder.read_u8()?;")],
     r"""fn main() { let b = [vec![0, 3], vec![251, 0xff, 0xff], vec![251, 0, 1], vec![1]].concat(); let _ = parse(&class_attr("StackMapTable", &b)); }""",
     "frames whose offsets add up to more than 65535", "arithmetic overflow: a panic in debug builds")

CP = "basic/constpool.rs"
ALLOC = """use std::alloc::*; use std::sync::atomic::*;
struct A; static LIVE: AtomicUsize = AtomicUsize::new(0); static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = LIVE.fetch_add(l.size(), Ordering::SeqCst) + l.size(); PEAK.fetch_max(n, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
"""
seed("C34-recent", "C34", [(CP, "pub struct Pool {\n    length: u16,", "pub struct Pool {\n    length: u16,\n    /// the item appended last and its index: items are often pushed several times in a row\n    recent: Option<(Rc<Item>, u16)>,"),
     (CP, "    pub fn new() -> Self {\n        Pool {\n            length: 1,", "    pub fn new() -> Self {\n        Pool {\n            recent: None,\n            length: 1,"),
     (CP, "    pub fn with_capacity(cap: u16) -> Self {\n        Pool {\n            length: 1,", "    pub fn with_capacity(cap: u16) -> Self {\n        Pool {\n            recent: None,\n            length: 1,"),
     (CP, "    pub fn push(&mut self, item: Item) -> Result<u16> {", "    pub fn push(&mut self, item: Item) -> Result<u16> {\n        match self.recent {\n            Some((ref last, index)) if **last == item => return Ok(index),\n            _ => {}\n        }"),
     (CP, "        let rc_item = Rc::new(item);", "        let last = Rc::new(item);\n        let rc_item = Rc::clone(&last);\n        self.recent = Some((last, index));")],
     r"""fn main() { let (mut p, _) = parsed(&with_pool(4, &[vec![7, 0, 9], vec![7, 0, 8], vec![7, 0, 9]].concat())); same!(p.push(Item::Class(9)).unwrap(), 1); }""",
     "a file whose last constant repeats an earlier one, which is then pushed", "push returns the last index of the item, not the first")
seed("C34-iter-repeated", "C34", [(CP, "            if let Some(ref item) = *rc_item {\n                Some((self.index, item))\n            } else {\n                self.next()\n            }", "            match *rc_item {\n                // what cannot be found by value is no item of its own\n                Some(ref item) if Rc::strong_count(item) > 1 => Some((self.index, item)),\n                _ => self.next(),\n            }")],
     r"""fn main() { let (p, _) = parsed(&with_pool(4, &[vec![7, 0, 9], vec![7, 0, 8], vec![7, 0, 9]].concat())); same!(p.iter().count(), 3); }""",
     "a file with a repeated constant", "iteration skips the repetition")
seed("C35-name-capacity", "C35", [("types.rs", "            let mut name = String::new();\n", "            // the name is no longer than the descriptor\n            let mut name = String::with_capacity(desc.len());\n")],
     ALLOC + r"""fn main() { let s = format!("({})V", "La;".repeat(9000)); LIVE.store(0, Ordering::SeqCst); PEAK.store(0, Ordering::SeqCst); let _ = s.parse::<MethodDescriptor>(); if PEAK.load(Ordering::SeqCst) > 50_000_000 { std::process::exit(1) } }""",
     "a long string of many reference parameters", "every name reserves the length of the whole string")
seed("C35-nth", "C35", [("types.rs", "            for ch in &mut chars {\n                i += 1;\n                if ch == ';' {", "            while let Some(ch) = desc.chars().nth(i + 1) {\n                chars.next();\n                i += 1;\n                if ch == ';' {")],
     r"""fn main() { let s = format!("(L{};)V", "n".repeat(200_000)); let t = std::time::Instant::now(); s.parse::<MethodDescriptor>().unwrap(); if t.elapsed().as_secs() > 8 { std::process::exit(1) } }""",
     "a parameter with a very long class name", "each character is found by counting from the start: quadratic work")
seed("C35-recursive", "C35", [("types.rs", "        f.write_str(&\"[\".repeat(self.dimensions as usize))?;\n\n        // base type\n        match self.base_type {", "        f.write_str(&\"[\".repeat(self.dimensions as usize))?;\n\n        // base type\n        match self.base_type {\n            Type::Reference(ref name) if name.len() > 1000 => {\n                let mut text = String::from(\"L\");\n                for ch in name.chars() {\n                    text = format!(\"{}{}\", text, ch);\n                }\n                f.write_str(&(text + \";\"))\n            }")],
     r"""fn main() { let s = format!("L{};", "n".repeat(200_000)); let d = s.parse::<TypeDescriptor>().unwrap(); let t = std::time::Instant::now(); assert_eq!(d.to_string(), s); if t.elapsed().as_millis() > 2500 { std::process::exit(1) } }""",
     "printing a type whose name has many thousands of characters", "the text is copied for every character")
seed("C36-scan", "C36", [(CP, "            if let Some(ref item) = self.by_index[index as usize - 1] {", "            // items far behind are used rarely\n            let entry = if index < 0x1000 {\n                &self.by_index[index as usize - 1]\n            } else {\n                self.by_index.iter().fold((1, &None), |(i, found), entry| (i + 1, if i == u32::from(index) { entry } else { found })).1\n            };\n            if let Some(ref item) = *entry {")],
     r"""fn main() { let mut p = Pool::new(); for i in 0..60_000 { p.push(Item::Integer(i)).unwrap(); } let t = std::time::Instant::now(); for i in 1..60_000 { p.get(i).unwrap(); } if t.elapsed().as_secs() > 4 { std::process::exit(1) } }""",
     "looking up indices above 4095", "each lookup walks the whole pool")
seed("C36-hash", "C36", [(CP, "                state.write_u8(12);\n                name.hash(state);\n                desc.hash(state);", "                // names and types belong together, mostly\n                state.write_u8(12);\n                (name ^ desc).hash(state);")],
     r"""fn main() { let run = |n: u16| { let mut p = Pool::new(); let t = std::time::Instant::now(); for i in 0..n { p.push(Item::NameAndType { name: i, desc: i }).unwrap(); } t.elapsed() }; run(100); if run(30_000).as_millis() > 3000 { std::process::exit(1) } }""",
     "thousands of name-and-type items whose two indices are related", "they all hash alike: every push compares with all of them")
seed("C37-bytes", "C37", [("types.rs", "                None => err!(),\n            };\n            i += 1;\n            if ch == ';' {", "                None => err!(),\n            };\n            i += ch.len_utf8();\n            if ch == ';' {")],
     r"""fn main() { match "L\u{20ac}\u{20ac}\u{20ac}".parse::<TypeDescriptor>() { Err(Error::InvalidDescriptor { at, .. }) => { if at > 4 { std::process::exit(1) } } _ => panic!() } }""",
     "a malformed type descriptor whose name has characters outside ASCII", "the position counts bytes")
seed("C37-dims", "C37", [("types.rs", "            for ch in &mut chars {\n                i += 1;\n                if ch == '[' {\n                    // no more", "            for ch in &mut chars {\n                i += 1 + dimensions as usize / 64;\n                if ch == '[' {\n                    // no more")],
     r"""fn main() { let s = format!("({}Q)V", "[".repeat(100)); match s.parse::<MethodDescriptor>() { Err(Error::InvalidDescriptor { at, .. }) => { same!(at, 101); } _ => panic!() } }""",
     "a fault behind more than 64 dimensions", "the position is too large")

seed("C38-phase", "C38", [("basic/tree.rs", "const STATIC_PHASE = 0b0000_0000_0100_0000;", "const STATIC_PHASE = 0b0000_0000_0100_1000;")],
     r"""fn main() { let (_, c) = parsed(&file(1, &[], &[0, 0x40, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0])); if !show(&c.access_flags).contains("STATIC_PHASE") { std::process::exit(1) } }""",
     "flags with 0x0040 set and 0x0008 not", "STATIC_PHASE is not named")
seed("C24-lines-adjacent", "C24", [(PARSER + "method.rs", "        table.push(LineNumber { start, line_number })", "        // javac repeats a line when a statement spans several instructions\n        match table.last() {\n            Some(&LineNumber { start: s, line_number: l }) if l == line_number && start <= s => {}\n            _ => table.push(LineNumber { start, line_number }),\n        }")],
     r"""fn main() { match first(&class_attr("LineNumberTable", &[0, 2, 0, 9, 0, 5, 0, 4, 0, 5])) { Attribute::LineNumberTable(t) => { same!(t.len(), 2); } _ => panic!() } }""",
     "two entries in a row for one line, the second of which starts earlier", "the second is not reported")
seed("C20-wide-top", "C20", [(PARSER + "method.rs", "                for _ in 0..local_count {\n                    locals.push(parse_verification_type(decoder)?);\n                }", "                for _ in 0..local_count {\n                    let local = parse_verification_type(decoder)?;\n                    // the second half of a long or double is implied\n                    match (locals.last(), &local) {\n                        (Some(&VerificationType::Long), &VerificationType::Top)\n                        | (Some(&VerificationType::Double), &VerificationType::Top)\n                            if locals.len() + 1 == local_count => {}\n                        _ => locals.push(local),\n                    }\n                }")],
     r"""fn main() { match first(&class_attr("StackMapTable", &[0, 1, 255, 0, 0, 0, 3, 1, 4, 0, 0, 0])) { Attribute::StackMapTable(t) => match t[0] { StackMapFrame::Full { ref locals, .. } => { same!(locals.len(), 3); } _ => panic!() }, _ => panic!() } }""",
     "a full frame whose last two locals are a long or double and top", "the top is not reported")
seed("C23-inner-self", "C23", [(PARSER + "class.rs", "        let inner_class_access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);\n        inner_classes.push", "        let inner_class_access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);\n        // a class cannot contain itself\n        let outer_class_info = if outer_class_info == inner_class_info {\n            0\n        } else {\n            outer_class_info\n        };\n        inner_classes.push")],
     r"""fn main() { match first(&class_attr("InnerClasses", &[0, 1, 0, 7, 0, 7, 0, 0, 0, 0])) { Attribute::InnerClasses(t) => { same!(t[0].outer_class_info, 7); } _ => panic!() } }""",
     "an inner class entry that names the same class twice", "another outer class is reported")
seed("C16-multi", "C16", [(PARSER + "code.rs", "            MultiANewArray(array_type, dimensions)", "            if dimensions == 1 {\n                ANewArray(array_type)\n            } else {\n                MultiANewArray(array_type, dimensions)\n            }")],
     r"""fn main() { same!(insns(&code(&[0xc5, 0, 9, 1]))[&0], Instruction::MultiANewArray(9, 1)); }""",
     "multianewarray with one dimension", "it is reported as anewarray")
seed("C29-name-first", "C29", [(PARSER + "mod.rs", "        let name = constant_pool.get_utf8(name_index)?;\n        let length = decoder.read_u32()?;\n", "        let length = decoder.read_u32()?;\n        let name = constant_pool.get_utf8(name_index)?;\n")],
     r"""fn main() { let f = class_attrs("N", &[attr(9, &[])]); match parse(&f[..f.len() - 1]) { Err(Error::InvalidCPItem(9)) => {} r => { println!("{:?}", r.map(|_| ())); std::process::exit(1) } } }""",
     "an attribute with an invalid name index, in a file cut inside its length", "the error is that of the second fault")
seed("C19-far", "C19", [(PARSER + "code.rs", "            _ => return Err(Error::InvalidInstruction { op_code: 0xC4, at }),", "            _ => {\n                return Err(Error::InvalidInstruction {\n                    op_code: 0xC4,\n                    at: at & 0xFFFF,\n                })\n            }")],
     r"""fn main() { let mut c = vec![0; 70000]; c.push(0xc4); c.push(0); match parse(&code(&c)) { Err(Error::InvalidInstruction { op_code: 0xc4, at: 70000 }) => {} r => { println!("{:?}", r.map(|_| ())); std::process::exit(1) } } }""",
     "an undefined wide instruction beyond the offset 65535", "another offset is reported")
seed("C04-surplus", "C04", [(PARSER + "mod.rs", "    let class = Class {\n", "    // class files are not concatenated\n    if input[decoder.cursor()..].starts_with(MAGIC) {\n        return Err(Error::NotAClass);\n    }\n\n    let class = Class {\n")],
     r"""fn main() { let mut f = with_pool(1, &[]); let g = f.clone(); f.extend(g); parsed(&f); }""",
     "a class file followed by another one", "it is rejected")
seed("C10-count", "C10", [(PARSER + "decode.rs", "        let mut i = length;\n        while i > 0 {", "        let mut i = length;\n        while i > 0 && i <= length {"), (PARSER + "decode.rs", "                // 2 bytes\n                i -= 2;", "                // 2 bytes\n                i -= if out.len() == 127 { 3 } else { 2 };") ],
     r"""fn main() { let mut s = vec![0x61; 127]; s.extend(&[0xc3, 0xa4, 0x61, 0x61]); let (p, _) = parsed(&with_pool(2, &utf(&s))); same!(p.get_utf8(1).unwrap().len(), 131); }""",
     "a two-byte character behind exactly 127 bytes of text", "the string loses its last byte")
seed("C05-shared", "C05", [(PARSER + "mod.rs", "        fields.push(Method {\n            access_flags,\n            name,\n            desc,\n            attributes,\n        })", "        // bridge methods come after the methods they call\n        let at = match fields.last() {\n            Some(&Method { name: n, desc: d, .. }) if n == name && d > desc && count > 2 => fields.len() - 1,\n            _ => fields.len(),\n        };\n        fields.insert(at, Method {\n            access_flags,\n            name,\n            desc,\n            attributes,\n        })")],
     r"""fn main() { let m = |n: u8, d: u8| vec![0, 1, 0, n, 0, d, 0, 0]; let (_, c) = parsed(&file(1, &[], &[vec![0, 0x21, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3], m(1, 5), m(1, 4), m(2, 6), vec![0, 0]].concat())); same!(c.methods.iter().map(|m| m.desc).collect::<Vec<_>>(), vec![5, 4, 6]); }""",
     "three or more methods, two in a row with one name and descending descriptors", "they are reported in another order")
seed("C22-path-wild", "C22", [(PARSER + "annotation.rs", "        type_path.push(TypePathElement {\n            path_kind,\n            argument_index,\n        })", "        // only type arguments have an index\n        let argument_index = match path_kind {\n            TypePathKind::WildcardType if length > 1 => 0,\n            _ => argument_index,\n        };\n        type_path.push(TypePathElement {\n            path_kind,\n            argument_index,\n        })")],
     r"""fn main() { match first(&class_attr("RuntimeVisibleTypeAnnotations", &[0, 1, 0x13, 2, 0, 0, 2, 5, 0, 9, 0, 0])) { Attribute::RuntimeVisibleTypeAnnotations(t) => { same!(t[0].target_path[1].argument_index, 5); } _ => panic!() } }""",
     "a wildcard step with a nonzero index in a path of several steps", "the index is not reported")
seed("C21-enum-same", "C21", [(PARSER + "annotation.rs", "            Ok(ElementValue::Enum {\n                type_name,\n                const_name,\n            })", "            if type_name == const_name {\n                return Ok(ElementValue::Class(type_name));\n            }\n            Ok(ElementValue::Enum {\n                type_name,\n                const_name,\n            })")],
     r"""fn main() { match first(&class_attr("AnnotationDefault", &[b'e', 0, 7, 0, 7])) { Attribute::AnnotationDefault(ElementValue::Enum { .. }) => {} a => { println!("{:?}", a); std::process::exit(1) } } }""",
     "an enum value whose type and constant have the same index", "it is reported as a class literal")
seed("C11-high", "C11", [("basic/constpool.rs", "            return Ok(index);\n        }\n\n        self.append(item)", "            if index as i16 > 0 {\n                return Ok(index);\n            }\n        }\n\n        self.append(item)")],
     r"""fn main() { let mut p = Pool::new(); for i in 0..40000 { p.push(Item::Integer(i)).unwrap(); } same!(p.push(Item::Integer(39000)).unwrap(), 39001); }""",
     "pushing an item again that stands at an index beyond 32767", "it is stored a second time")
seed("C12-empty-name", "C12", [("basic/constpool.rs", "                Ok(Some(self.get_utf8(utf_index)?))", "                let name = self.get_utf8(utf_index)?;\n                Ok(if name.is_empty() { None } else { Some(name) })")],
     r"""fn main() { let mut p = Pool::new(); p.push(Item::UTF8(String::new())).unwrap(); p.push(Item::Class(1)).unwrap(); same!(p.get_class_name_opt(2).unwrap(), Some(String::new())); }""",
     "the optional name of a class whose name is the empty string", "no name is returned")
seed("C10-max", "C10", [(PARSER + "mod.rs", "                let length = decoder.read_u16()?;\n                Item::UTF8(", "                let length = decoder.read_u16()?;\n                if length == u16::max_value() {\n                    return Err(Error::InvalidCPItem(index));\n                }\n                Item::UTF8(")],
     r"""fn main() { let (p, _) = parsed(&with_pool(2, &utf(&vec![0x61; 65535]))); same!(p.get_utf8(1).unwrap().len(), 65535); }""",
     "a string of exactly 65535 bytes", "it is rejected")
seed("C10-sde-long", "C10", [(PARSER + "mod.rs", "Attribute::SourceDebugExtension(attr_decoder.read_str(length as usize)?)", "Attribute::SourceDebugExtension(attr_decoder.read_str(length as u16 as usize)?)")],
     r"""fn main() { match first(&class_attr("SourceDebugExtension", &vec![0x61; 70000])) { Attribute::SourceDebugExtension(s) => { same!(s.len(), 70000); } _ => panic!() } }""",
     "a source debug extension of more than 65535 bytes", "it is rejected")
seed("C05-many-attributes", "C05", [(PARSER + "mod.rs", "    let mut attributes = Vec::new();\n    for _ in 0..count {", "    let mut attributes = Vec::new();\n    for _ in 0..count & 0x7fff {")],
     r"""fn main() { let f = class_attrs("N", &vec![attr(3, &[]); 33000]); same!(parsed(&f).1.attributes.len(), 33000); }""",
     "more than 32767 attributes at one place", "most are not reported")
seed("C21-params", "C21", [(PARSER + "annotation.rs", "    let count = decoder.read_u8()?;", "    let count = decoder.read_u8()? & 0x7f;")],
     r"""fn main() { let mut b = vec![200]; b.extend(vec![0; 400]); match first(&class_attr("RuntimeVisibleParameterAnnotations", &b)) { Attribute::RuntimeVisibleParameterAnnotations(t) => { same!(t.len(), 200); } _ => panic!() } }""",
     "annotations for more than 127 parameters", "the attribute is rejected")
seed("C23-merge", "C23", [(PARSER + "class.rs", "        exports.push(Export { index, flags, to });", "        if exports.last().map_or(false, |e: &Export| e.index == index && e.flags == flags && !to.is_empty() && !e.to.is_empty()) {\n            exports.last_mut().unwrap().to.append(&mut to);\n            continue;\n        }\n        exports.push(Export { index, flags, to });")],
     r"""fn main() { match first(&class_attr("Module", &[0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 7, 0, 0, 0, 1, 0, 8, 0, 7, 0, 0, 0, 1, 0, 9, 0, 0, 0, 0, 0, 0])) { Attribute::Module { exports, .. } => { same!(exports.len(), 2); } _ => panic!() } }""",
     "two exports in a row of one package, each to some modules", "they are reported as one")
seed("C23-bootstrap-same", "C23", [(PARSER + "class.rs", "        bootstrap_methods.push(BootstrapMethod {\n            method_ref,\n            arguments,\n        })", "        let repeated = arguments.len() > 1\n            && bootstrap_methods.iter().any(|m: &BootstrapMethod| m.method_ref == method_ref && m.arguments == arguments);\n        if !repeated {\n            bootstrap_methods.push(BootstrapMethod {\n                method_ref,\n                arguments,\n            })\n        }")],
     r"""fn main() { match first(&class_attr("BootstrapMethods", &[0, 2, 0, 7, 0, 2, 0, 8, 0, 9, 0, 7, 0, 2, 0, 8, 0, 9])) { Attribute::BootstrapMethods(t) => { same!(t.len(), 2); } _ => panic!() } }""",
     "two equal bootstrap methods with several arguments each", "one is not reported")
seed("C22-repeat", "C22", [(PARSER + "annotation.rs", "        annotations.push(parse_type_annotation(decoder)?);", "        let annotation = parse_type_annotation(decoder)?;\n        // type annotations are not repeatable\n        if !annotations.iter().any(|a: &TypeAnnotation| a.annotation.type_index == annotation.annotation.type_index && a.target_path.len() == 1 && annotation.target_path.len() == 1) {\n            annotations.push(annotation);\n        }")],
     r"""fn main() { match first(&class_attr("RuntimeVisibleTypeAnnotations", &[0, 2, 0x13, 1, 0, 0, 0, 9, 0, 0, 0x14, 1, 1, 0, 0, 9, 0, 0])) { Attribute::RuntimeVisibleTypeAnnotations(t) => { same!(t.len(), 2); } _ => panic!() } }""",
     "two type annotations of one type, each with a path of one step", "one is not reported")
seed("C21-pair-name", "C21", [(PARSER + "annotation.rs", "        element_value_pairs.push((name_index, parse_element_value(decoder)?));", "        let value = parse_element_value(decoder)?;\n        match element_value_pairs.iter_mut().find(|p: &&mut (u16, ElementValue)| p.0 == name_index) {\n            Some(pair) => { pair.1 = value; continue }\n            None => {}\n        }\n        element_value_pairs.push((name_index, value));")],
     r"""fn main() { match first(&class_attr("RuntimeVisibleAnnotations", &[0, 1, 0, 7, 0, 2, 0, 8, b'I', 0, 9, 0, 8, b'I', 0, 10])) { Attribute::RuntimeVisibleAnnotations(t) => { same!(t[0].element_value_pairs.len(), 2); } _ => panic!() } }""",
     "an annotation with two elements of the same name", "the first is not reported")
seed("C24-order", "C24", [(PARSER + "method.rs", "        table.push(LocalVariable {\n            start,\n            length,\n            name,\n            descriptor,\n            index,\n        });", "        let variable = LocalVariable {\n            start,\n            length,\n            name,\n            descriptor,\n            index,\n        };\n        // parameters first\n        let parameters = table.iter().take_while(|v: &&LocalVariable| v.start == 0 && v.index < 256).count();\n        if start == 0 && parameters > 1 { table.insert(parameters, variable) } else { table.push(variable) }")],
     r"""fn main() { let v = |s: u8, i: u8| vec![0, s, 0, 0, 0, 0, 0, 0, 0, i]; match first(&class_attr("LocalVariableTable", &[vec![0, 4], v(0, 0), v(0, 1), v(5, 2), v(0, 3)].concat())) { Attribute::LocalVariableTable(t) => { same!(t[2].start, 5); } _ => panic!() } }""",
     "a local variable table in which two variables with start 0, another one and one more with start 0 follow each other", "the order is not that of the file")
seed("C30-frames", "C30", [(PARSER + "method.rs", "            251 => StackMapFrame::Same {\n                offset_delta: decoder.read_u16()?,\n            },", "            251 => {\n                let offset_delta = decoder.read_u16()?;\n                // two frames at one place cannot be\n                let long = table.iter().filter(|f| match **f { StackMapFrame::Same { .. } => true, _ => false }).count();\n                if offset_delta == u16::max_value() && long > 0 {\n                    return Err(Error::ReservedStackMapFrame(frame_type));\n                }\n                StackMapFrame::Same { offset_delta }\n            }")],
     r"""fn main() { let f = class_attr("StackMapTable", &[u2(60000), [251, 0, 1].repeat(60000)].concat()); let t = std::time::Instant::now(); parsed(&f); if t.elapsed().as_secs() > 3 { std::process::exit(1) } }""",
     "a stack map table with tens of thousands of extended same frames", "quadratic work")
seed("C18-handler-empty", "C18", [(PARSER + "code.rs", "        exceptions.push(Exception {\n            start,\n            end,\n            handler,\n            catch_type,\n        });", "        // a range without instructions catches nothing\n        if start < end || handler >= start {\n            exceptions.push(Exception {\n                start,\n                end,\n                handler,\n                catch_type,\n            });\n        }")],
     r"""fn main() { match first(&class_attr("Code", &[0, 0, 0, 0, 0, 0, 0, 1, 0xb1, 0, 1, 0, 5, 0, 5, 0, 2, 0, 0, 0, 0])) { Attribute::Code { exceptions, .. } => { same!(exceptions.len(), 1); } _ => panic!() } }""",
     "an exception table entry with an empty range and a handler before it", "it is not reported")
