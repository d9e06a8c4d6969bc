#!/usr/bin/env python3
"""Behaviour-preserving edits: `refactors.py [NAME...] [--checks C01,C02]` applies each to /repo, runs the stable tests and every quick check, and undoes it."""
import os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "basic/parser/"
R = {}
def rf(name, *edits): R[name] = edits

def push_loop(var, count, body):
    return

rf("decode-from-be-bytes",
   (P + "decode.rs", "        Ok(BigEndian::read_u16(self.read_bytes(2)?))", "        let b = self.read_bytes(2)?;\n        Ok(u16::from(b[0]) << 8 | u16::from(b[1]))"),
   (P + "decode.rs", "        Ok(BigEndian::read_u32(self.read_bytes(4)?))", "        let mut b = [0; 4];\n        b.copy_from_slice(self.read_bytes(4)?);\n        Ok(u32::from_be_bytes(b))"),
   (P + "decode.rs", "        Ok(BigEndian::read_u64(self.read_bytes(8)?))", "        let bytes = self.read_bytes(8)?;\n        Ok(bytes.iter().fold(0u64, |acc, b| acc << 8 | u64::from(*b)))"),
   (P + "decode.rs", "use byteorder::{BigEndian, ByteOrder};\n", ""))
rf("decode-get-range",
   (P + "decode.rs", "        let end = *self.cursor + count;\n        self.check(end)?;\n\n        let bytes = &self.bytes[*self.cursor..end];\n        *self.cursor = end;\n        Ok(bytes)",
    "        let start = *self.cursor;\n        let end = match start.checked_add(count) {\n            Some(end) if end <= self.limit => end,\n            _ => return Err(Error::LimitExceeded),\n        };\n        let bytes = self.bytes.get(start..end).ok_or(Error::LimitExceeded)?;\n        self.skip(count)?;\n        Ok(bytes)"))
rf("str-slice-utf16",
   (P + "decode.rs", "        let mut out = String::new();\n\n        let mut i = length;\n        while i > 0 {", "        if false {\n            return self.read_str_slow(length);\n        }\n        let bytes = self.read_bytes(length)?;\n        let mut units: Vec<u16> = Vec::new();\n        let mut at = 0;\n        let cont = |k: usize| -> Result<u16> {\n            match bytes.get(k) {\n                Some(b) if b & 0xC0 == 0x80 => Ok(u16::from(b & 0x3F)),\n                _ => Err(Error::InvalidUTF8),\n            }\n        };\n        while at < bytes.len() {\n            let b = u16::from(bytes[at]);\n            match b {\n                0x01...0x7F => {\n                    units.push(b);\n                    at += 1;\n                }\n                0xC0...0xDF => {\n                    units.push((b & 0x1F) << 6 | cont(at + 1)?);\n                    at += 2;\n                }\n                0xE0...0xEF => {\n                    units.push((b & 0x0F) << 12 | cont(at + 1)? << 6 | cont(at + 2)?);\n                    at += 3;\n                }\n                _ => return Err(Error::InvalidUTF8),\n            }\n        }\n        char::decode_utf16(units.iter().cloned())\n            .map(|r| r.map_err(|_| Error::InvalidUTF8))\n            .collect()\n    }\n\n    fn read_str_slow(&mut self, length: usize) -> Result<String> {\n        let mut out = String::new();\n\n        let mut i = length;\n        while i > 0 {"))
rf("str-helpers",
   (P + "decode.rs", "            } else if r1 >= 0xC0 && r1 < 0xE0 && i >= 2 {\n                // 2 bytes\n                i -= 2;\n                let r2 = self.read_continuation()?;\n                (r1 & 0x1F) << 6 | (r2 & 0x3F)",
    "            } else if r1 & 0xE0 == 0xC0 && i >= 2 {\n                i -= 2;\n                self.two_byte(r1)?"),
   (P + "decode.rs", "    /// Reads a continuation byte of a modified UTF-8 string\n", "    fn two_byte(&mut self, first: u32) -> Result<u32> {\n        self.read_continuation().map(|second| ((first & 0x1F) << 6) + (second & 0x3F))\n    }\n\n    /// Reads a continuation byte of a modified UTF-8 string\n"),
   (P + "decode.rs", "                        0x1_0000 + ((r2 & 0x0F) << 16) + ((r3 & 0x3F) << 10) + ((r5 & 0x0F) << 6)\n                            + (r6 & 0x3F)",
    "                        let high = 0xD000 | (r2 & 0x3F) << 6 | (r3 & 0x3F);\n                        let low = 0xD000 | (r5 & 0x3F) << 6 | (r6 & 0x3F);\n                        0x1_0000 + ((high - 0xD800) << 10 | (low - 0xDC00))"))
rf("pool-item-fn",
   (P + "mod.rs", "        let tag = decoder.read_u8()?;\n\n        // match a tag and read the additional information\n        let item = match tag {", "        let item = read_item(decoder, index)?;\n\n        // every entry keeps its own index, even if it repeats an earlier one\n        pool.append(item)?;\n\n        // a long or double also needs the following index\n        if pool.len() > size {\n            return Err(Error::InvalidCPItem(index));\n        }\n        index = pool.len();\n    }\n\n    Ok(pool)\n}\n\n/// Reads one entry\nfn read_item(decoder: &mut Decoder, index: u16) -> Result<Item> {\n        let tag = decoder.read_u8()?;\n\n        // match a tag and read the additional information\n        let item = match tag {"),
   (P + "mod.rs", "            _ => return Err(Error::InvalidCPItem(index)),\n        };\n\n        // every entry keeps its own index, even if it repeats an earlier one\n        pool.append(item)?;\n\n        // a long or double also needs the following index\n        if pool.len() > size {\n            return Err(Error::InvalidCPItem(index));\n        }\n        index = pool.len();\n    }\n\n    Ok(pool)\n}\n\n/// Parses all fields",
    "            _ => return Err(Error::InvalidCPItem(index)),\n        };\n\n        Ok(item)\n}\n\n/// Parses all fields"))
rf("collect-loops",
   (P + "mod.rs", "    let mut interfaces = Vec::new();\n    for _ in 0..interface_count {\n        interfaces.push(decoder.read_u16()?);\n    }\n", "    let interfaces = (0..interface_count)\n        .map(|_| decoder.read_u16())\n        .collect::<Result<Vec<u16>>>()?;\n"),
   (P + "method.rs", "    let mut exceptions = Vec::new();\n    for _ in 0..count {\n        exceptions.push(decoder.read_u16()?);\n    }\n    Ok(Attribute::Exceptions(exceptions))", "    let exceptions: Result<Vec<_>> = (0..count).map(|_| decoder.read_u16()).collect();\n    Ok(Attribute::Exceptions(exceptions?))"),
   (P + "method.rs", "    let mut table = Vec::new();\n    for _ in 0..count {\n        let start = decoder.read_u16()?;\n        let line_number = decoder.read_u16()?;\n        table.push(LineNumber { start, line_number })\n    }\n    Ok(Attribute::LineNumberTable(table))",
    "    (0..count)\n        .map(|_| {\n            Ok(LineNumber {\n                start: decoder.read_u16()?,\n                line_number: decoder.read_u16()?,\n            })\n        })\n        .collect::<Result<Vec<_>>>()\n        .map(Attribute::LineNumberTable)"),
   (P + "annotation.rs", "    let count = decoder.read_u16()?;\n    let mut annotations = Vec::new();\n    for _ in 0..count {\n        annotations.push(parse_annotation(decoder)?);\n    }\n    Ok(annotations)", "    let count = decoder.read_u16()?;\n    (0..count).map(|_| parse_annotation(decoder)).collect()"),
   (P + "annotation.rs", "            let mut element_values = Vec::new();\n\n            for _ in 0..count {\n                element_values.push(parse_element_value(decoder)?);\n            }\n            decoder.leave();", "            let element_values = (0..count)\n                .map(|_| parse_element_value(decoder))\n                .collect::<Result<Vec<_>>>()?;\n            decoder.leave();"))
rf("table-helper",
   (P + "class.rs", "/// Parses the `BootstrapMethods` attribute\n", "/// Reads a table of indices\nfn read_indices(decoder: &mut Decoder) -> Result<Vec<u16>> {\n    let count = decoder.read_u16()? as usize;\n    let mut indices = Vec::new();\n    while indices.len() < count {\n        indices.push(decoder.read_u16()?);\n    }\n    Ok(indices)\n}\n\n/// Parses the `BootstrapMethods` attribute\n"),
   (P + "class.rs", "        let mut arguments = Vec::new();\n        let count = decoder.read_u16()?;\n        for _ in 0..count {\n            arguments.push(decoder.read_u16()?);\n        }\n", "        let arguments = read_indices(decoder)?;\n"),
   (P + "class.rs", "    let count = decoder.read_u16()?;\n    let mut packages = Vec::new();\n    for _ in 0..count {\n        packages.push(decoder.read_u16()?);\n    }\n", "    let packages = read_indices(decoder)?;\n"),
   (P + "class.rs", "        let with_count = decoder.read_u16()?;\n        let mut with = Vec::new();\n        for _ in 0..with_count {\n            with.push(decoder.read_u16()?);\n        }\n", "        let with = read_indices(decoder)?;\n"),
   (P + "class.rs", "    let uses_count = decoder.read_u16()?;\n    let mut uses = Vec::new();\n    for _ in 0..uses_count {\n        uses.push(decoder.read_u16()?);\n    }\n", "    let uses = read_indices(decoder)?;\n"))
rf("capacity-min",
   (P + "mod.rs", "    let mut interfaces = Vec::new();", "    let mut interfaces = Vec::with_capacity((interface_count as usize).min(16));"),
   (P + "method.rs", "    let count = decoder.read_u16()?;\n    let mut table = Vec::new();\n    for _ in 0..count {\n        let start = decoder.read_u16()?;\n        let line_number", "    let count = decoder.read_u16()?;\n    let mut table = Vec::with_capacity(count.min(8) as usize);\n    for _ in 0..count {\n        let start = decoder.read_u16()?;\n        let line_number"),
   (P + "method.rs", "                let mut locals = Vec::with_capacity(dif);", "                let mut locals = Vec::new();"),
   (P + "code.rs", "            let mut offsets = Vec::new();", "            let mut offsets = Vec::with_capacity(4);"))
rf("code-while",
   (P + "code.rs", "        let mut code_location = 0;\n        loop {\n            let (end, instruction) = parse_instruction(&mut code_decoder, code_location)?;\n            instructions.insert(code_location, instruction);\n\n            // we have read all instructions\n            if end == code_length {\n                break;\n            }\n\n            code_location = end;\n        }\n",
    "        let start = code_decoder.cursor();\n        if code_length == 0 {\n            return Err(Error::LimitExceeded);\n        }\n        while code_decoder.cursor() - start < code_length as usize {\n            let code_location = (code_decoder.cursor() - start) as u32;\n            let (_, instruction) = parse_instruction(&mut code_decoder, code_location)?;\n            instructions.entry(code_location).or_insert(instruction);\n        }\n"))
rf("code-vec-collect",
   (P + "code.rs", "    let mut instructions = HashMap::new();", "    let mut list = Vec::new();"),
   (P + "code.rs", "            instructions.insert(code_location, instruction);", "            list.push((code_location, instruction));"),
   (P + "code.rs", "    Ok(Attribute::Code {\n        max_stack,", "    let instructions: HashMap<u32, Instruction> = list.into_iter().collect();\n    Ok(Attribute::Code {\n        max_stack,"))
rf("code-switch",
   (P + "code.rs", "            for _ in low..=high {\n                offsets.push(decoder.read_i32()?);\n            }", "            let entries = i64::from(high) - i64::from(low) + 1;\n            let mut n = 0;\n            while n < entries {\n                offsets.push(decoder.read_i32()?);\n                n += 1;\n            }"),
   (P + "code.rs", "            // skip padding\n            decoder.skip(3 - (at & 3) as usize)?;\n            let default = decoder.read_i32()?;\n            let low", "            // skip padding\n            let padding = (4 - (at as usize + 1) % 4) % 4;\n            decoder.skip(padding)?;\n            let default = decoder.read_i32()?;\n            let low"),
   (P + "code.rs", "            let mut offsets = BTreeMap::new();\n            for _ in 0..count {\n                let key = decoder.read_i32()?;\n                let offset = decoder.read_i32()?;\n                offsets.insert(key, offset);\n            }", "            let offsets = (0..count)\n                .map(|_| Ok((decoder.read_i32()?, decoder.read_i32()?)))\n                .collect::<Result<BTreeMap<i32, i32>>>()?;"))
rf("code-groups",
   (P + "code.rs", "    let insn = match op_code {\n", "    if let Some(insn) = parse_simple(op_code) {\n        return Ok((at + 1, insn));\n    }\n\n    let insn = match op_code {\n"),
   (P + "code.rs", "/// Parses a single instruction and then returns its end", "/// Instructions without operands\nfn parse_simple(op_code: u8) -> Option<Instruction> {\n    use self::Instruction::*;\n    const LOADS: &[u8] = &[0x1A, 0x1B, 0x1C, 0x1D];\n    if LOADS.contains(&op_code) {\n        return Some(match op_code & 3 {\n            2 => ILoad0,\n            3 => ILoad1,\n            0 => ILoad2,\n            _ => ILoad3,\n        });\n    }\n    Some(match op_code {\n        0x00 => NOP,\n        0x57 => Pop,\n        0xB1 => Return,\n        _ => return None,\n    })\n}\n\n/// Parses a single instruction and then returns its end"))
rf("attr-name-ref",
   (P + "mod.rs", "        let name = constant_pool.get_utf8(name_index)?;\n", "        let name = match *constant_pool.get(name_index)? {\n            Item::UTF8(ref name) => name.as_str(),\n            _ => return Err(Error::InvalidCPItem(name_index)),\n        };\n"),
   (P + "mod.rs", "match name.as_ref() {", "match name {"))
rf("attr-bytes-first",
   (P + "mod.rs", "            \"Signature\" => {\n                let index = attr_decoder.read_u16()?;\n                Attribute::Signature(index)\n            }", "            \"Signature\" => attr_decoder.read_u16().map(Attribute::Signature)?,"),
   (P + "mod.rs", "            \"RuntimeVisibleAnnotations\" => {\n                let annotations = parse_annotations(&mut attr_decoder)?;\n                Attribute::RuntimeVisibleAnnotations(annotations)\n            }\n            \"RuntimeInvisibleAnnotations\" => {\n                let annotations = parse_annotations(&mut attr_decoder)?;\n                Attribute::RuntimeInvisibleAnnotations(annotations)\n            }", "            \"RuntimeVisibleAnnotations\" | \"RuntimeInvisibleAnnotations\" => {\n                let visible = name.starts_with(\"RuntimeV\");\n                let annotations = parse_annotations(&mut attr_decoder)?;\n                if visible {\n                    Attribute::RuntimeVisibleAnnotations(annotations)\n                } else {\n                    Attribute::RuntimeInvisibleAnnotations(annotations)\n                }\n            }"))
rf("frames-ranges",
   (P + "method.rs", "            0...63 => StackMapFrame::Same {\n                offset_delta: u16::from(frame_type),\n            },", "            t if t < 64 => StackMapFrame::Same {\n                offset_delta: u16::from(t & 0x3F),\n            },"),
   (P + "method.rs", "                offset_delta: u16::from(frame_type) - 64,", "                offset_delta: u16::from(frame_type & 0x3F),"),
   (P + "method.rs", "                let local_count = decoder.read_u16()? as usize;\n                let mut locals = Vec::new();\n                for _ in 0..local_count {\n                    locals.push(parse_verification_type(decoder)?);\n                }\n\n                let stack_size = decoder.read_u16()? as usize;\n                let mut stack = Vec::new();\n                for _ in 0..stack_size {\n                    stack.push(parse_verification_type(decoder)?);\n                }\n", "                let locals = parse_verification_types(decoder)?;\n                let stack = parse_verification_types(decoder)?;\n"),
   (P + "method.rs", "/// Parses a verification type.\n", "fn parse_verification_types(decoder: &mut Decoder) -> Result<Vec<VerificationType>> {\n    let mut left = decoder.read_u16()?;\n    let mut types = vec![];\n    while left != 0 {\n        types.push(parse_verification_type(decoder)?);\n        left -= 1;\n    }\n    Ok(types)\n}\n\n/// Parses a verification type.\n"))
rf("element-index-kind",
   (P + "annotation.rs", "        b'B' => Ok(ElementValue::Byte(decoder.read_u16()?)),\n        b'S' => Ok(ElementValue::Short(decoder.read_u16()?)),\n", "        b'B' | b'S' => {\n            let index = decoder.read_u16()?;\n            Ok(if tag == b'B' { ElementValue::Byte(index) } else { ElementValue::Short(index) })\n        }\n"),
   (P + "annotation.rs", "        0x40 => LocalVariable(parse_local_variable(decoder)?),\n        0x41 => ResourceVariable(parse_local_variable(decoder)?),", "        tag @ 0x40...0x41 => {\n            let table = parse_local_variable(decoder)?;\n            if tag & 1 == 0 {\n                LocalVariable(table)\n            } else {\n                ResourceVariable(table)\n            }\n        }"))
rf("pool-entry-api",
   ("basic/constpool.rs", "        if let Some(&index) = self.by_entry.get(&item) {\n            return Ok(index);\n        }\n\n        self.append(item)", "        let known = self.by_entry.get(&item).map(|index| *index);\n        match known {\n            Some(index) => Ok(index),\n            None => self.append(item),\n        }"),
   ("basic/constpool.rs", "        if index != 0 && index < self.len() {\n            if let Some(ref item) = self.by_index[index as usize - 1] {\n                return Ok(item);\n            }\n        }\n\n        Err(Error::InvalidCPItem(index))", "        (index as usize)\n            .checked_sub(1)\n            .and_then(|i| self.by_index.get(i))\n            .and_then(|slot| slot.as_ref())\n            .map(|item| &**item)\n            .ok_or(Error::InvalidCPItem(index))"))
rf("item-eq-discriminant",
   ("basic/constpool.rs", "            (&Item::Float(f1), &Item::Float(f2)) => f1.to_bits() == f2.to_bits(),", "            (&Item::Float(ref f1), &Item::Float(ref f2)) => f1.to_bits().cmp(&f2.to_bits()) == ::std::cmp::Ordering::Equal,"),
   ("basic/constpool.rs", "            (&Item::UTF8(ref str1), &Item::UTF8(ref str2)) => *str1 == *str2,", "            (&Item::UTF8(ref str1), &Item::UTF8(ref str2)) => str1.len() == str2.len() && str1.bytes().zip(str2.bytes()).all(|(a, b)| a == b),"))
rf("types-bytes",
   ("types.rs", "                // after the primitive tag no chars may be\n                if chars.count() != 0 {", "                // after the primitive tag no chars may be\n                if chars.next().is_some() {"),
   ("types.rs", "        let mut name = String::with_capacity((desc.len() - dimensions as usize).max(2) - 2);", "        let mut name = String::new();"))
rf("flags-helper",
   (P + "mod.rs", "    let access_flags = AccessFlags::from_bits_truncate(decoder.read_u16()?);\n\n    let name", "    let access_flags = read_flags(&mut decoder)?;\n\n    let name"),
   (P + "mod.rs", "/// Parses all fields and their attributes\n", "fn read_flags(decoder: &mut Decoder) -> Result<AccessFlags> {\n    let bits = decoder.read_u16()?;\n    Ok(AccessFlags::from_bits_truncate(bits))\n}\n\n/// Parses all fields and their attributes\n"))

rf("names-table",
   (P + "mod.rs", "        let attribute = match name.as_ref() {\n            \"AnnotationDefault\" => {", "        const NAMES: [(&str, u8); 3] = [(\"Deprecated\", 1), (\"Signature\", 2), (\"Synthetic\", 3)];\n        let simple = NAMES\n            .binary_search_by(|&(n, _)| n.cmp(name.as_str()))\n            .ok()\n            .map(|i| NAMES[i].1);\n        let attribute = match name.as_ref() {\n            _ if simple == Some(1) => Attribute::Deprecated,\n            _ if simple == Some(3) => Attribute::Synthetic,\n            _ if simple.is_some() => attr_decoder.read_u16().map(Attribute::Signature)?,\n            \"AnnotationDefault\" => {"),
   (P + "mod.rs", "            \"Deprecated\" => Attribute::Deprecated,\n", ""),
   (P + "mod.rs", "            \"Synthetic\" => Attribute::Synthetic,\n", ""),
   (P + "mod.rs", "            \"Signature\" => {\n                let index = attr_decoder.read_u16()?;\n                Attribute::Signature(index)\n            }\n", ""))
rf("decode-io-read",
   (P + "decode.rs", "use byteorder::{BigEndian, ByteOrder};\n", "use byteorder::{BigEndian, ReadBytesExt};\n"),
   (P + "decode.rs", "        Ok(BigEndian::read_u16(self.read_bytes(2)?))", "        self.read_bytes(2)?.read_u16::<BigEndian>().map_err(Error::IO)"),
   (P + "decode.rs", "        Ok(BigEndian::read_u32(self.read_bytes(4)?))", "        self.read_bytes(4)?.read_u32::<BigEndian>().map_err(Error::IO)"),
   (P + "decode.rs", "        Ok(BigEndian::read_u64(self.read_bytes(8)?))", "        use std::io::{Cursor, Read};\n        let mut b = [0; 8];\n        Cursor::new(self.read_bytes(8)?).read_exact(&mut b).map_err(Error::IO)?;\n        Ok(u64::from_be_bytes(b))"))
rf("types-find",
   ("types.rs", "        // read the string char by char, not bytes\n", "        let invalid = |at| Err(Error::InvalidDescriptor { desc: desc.to_owned(), at });\n        let inner = desc.trim_start_matches('[');\n        let dims = desc.len() - inner.len();\n        if dims > 255 {\n            return invalid(255);\n        }\n        if let Some(name) = inner.strip_prefix('L') {\n            return match name.find(';') {\n                Some(end) if end > 0 && end + 1 == name.len() => Ok(TypeDescriptor::new(dims as u8, Type::Reference(name[..end].to_string()))),\n                _ => invalid(dims),\n            };\n        }\n        if inner.chars().count() > 1 {\n            return invalid(dims);\n        }\n        // read the string char by char, not bytes\n"))
rf("types-split",
   ("types.rs", "        let mut chars = desc.chars();\n        let mut i = 0;\n\n        // avoid code duplication\n        macro_rules! err {\n            () => {{\n                return Err(Error::InvalidDescriptor {\n                    desc: desc.to_owned(),\n                    at: i,\n                });\n            }}\n        }\n\n        match chars.next() {\n            Some('(') => {}", "        let fail = || Error::InvalidDescriptor { desc: desc.to_owned(), at: 0 };\n        if desc.as_bytes().first() == Some(&b'(') {\n            let mut rest = &desc[1..];\n            let mut all = Vec::new();\n            loop {\n                if let Some(ret) = rest.strip_prefix(')') {\n                    if all.len() > 255 {\n                        return Err(fail());\n                    }\n                    if ret == \"V\" {\n                        return Ok(MethodDescriptor::new(all, None));\n                    }\n                    let ret = ret.parse::<TypeDescriptor>().map_err(|_| fail())?;\n                    return Ok(MethodDescriptor::new(all, Some(ret)));\n                }\n                let tag = rest.find(|c| c != '[').ok_or_else(&fail)?;\n                let end = if rest.as_bytes()[tag] == b'L' {\n                    rest.find(';').ok_or_else(&fail)? + 1\n                } else {\n                    tag + rest[tag..].chars().next().map_or(1, |c| c.len_utf8())\n                };\n                let (one, next) = rest.split_at(end);\n                all.push(one.parse().map_err(|_: Error| fail())?);\n                rest = next;\n            }\n        }\n\n        let mut chars = desc.chars();\n        let mut i = 0;\n\n        // avoid code duplication\n        macro_rules! err {\n            () => {{\n                return Err(Error::InvalidDescriptor {\n                    desc: desc.to_owned(),\n                    at: i,\n                });\n            }}\n        }\n\n        match chars.next() {\n            Some('(') => {}"))
rf("display-string",
   ("types.rs", "        f.write_str(&\"[\".repeat(self.dimensions as usize))?;", "        for _ in 0..self.dimensions {\n            write!(f, \"{}\", '[')?;\n        }"),
   ("types.rs", "        f.write_char('(')?;\n        for param in &self.params {\n            param.fmt(f)?;\n        }\n        f.write_char(')')?;\n        if let Some(ref ret) = self.return_type {\n            ret.fmt(f)\n        } else {\n            f.write_char('V')\n        }", "        let params: String = self.params.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(\"\");\n        let ret = self.return_type.as_ref().map_or_else(|| String::from(\"V\"), |r| format!(\"{}\", r));\n        write!(f, \"({}){}\", params, ret)"))
rf("pool-iter-find",
   ("basic/constpool.rs", "        if let Some(rc_item) = self.iter.next() {\n            self.index += 1;\n            if let Some(ref item) = *rc_item {\n                Some((self.index, item))\n            } else {\n                self.next()\n            }\n        } else {\n            None\n        }", "        let index = &mut self.index;\n        self.iter\n            .by_ref()\n            .map(|entry| {\n                *index += 1;\n                entry.as_ref().map(|item| (*index, &**item))\n            })\n            .find_map(|x| x)"))
rf("pool-arc",
   ("basic/constpool.rs", "use std::rc::Rc;\n", "use std::sync::Arc as Rc;\n"))
rf("pool-owned",
   ("basic/constpool.rs", "        let rc_item = Rc::new(item);\n\n        self.by_index.push(Some(Rc::clone(&rc_item)));\n        if double {\n            self.by_index.push(None);\n        }\n        self.length += size;\n        // equal items are found under their first index\n        self.by_entry.entry(rc_item).or_insert(index);", "        let shared: Rc<Item> = Rc::from(Box::new(item));\n        self.length = index.checked_add(size).ok_or(Error::CPTooLarge)?;\n        self.by_index.extend([Some(shared.clone()), None].iter().take(size as usize).cloned());\n        if !self.by_entry.contains_key(&*shared) {\n            self.by_entry.insert(shared, index);\n        }"))
rf("lookup-collect",
   (P + "code.rs", "            let mut offsets = BTreeMap::new();\n            for _ in 0..count {\n                let key = decoder.read_i32()?;\n                let offset = decoder.read_i32()?;\n                offsets.insert(key, offset);\n            }\n", "            let offsets = (0..count)\n                .map(|_| Ok((decoder.read_i32()?, decoder.read_i32()?)))\n                .collect::<Result<BTreeMap<i32, i32>>>()?;\n"))
rf("tables-chunks",
   (P + "code.rs", "    let exception_count = decoder.read_u16()?;\n    let mut exceptions = Vec::new();\n    for _ in 0..exception_count {\n        let start = decoder.read_u16()?;\n        let end = decoder.read_u16()?;\n        let handler = decoder.read_u16()?;\n        let catch_type = decoder.read_u16()?;\n        exceptions.push(Exception {\n            start,\n            end,\n            handler,\n            catch_type,\n        });\n    }\n", "    let exception_count = usize::from(decoder.read_u16()?);\n    let word = |b: &[u8]| u16::from_be_bytes([b[0], b[1]]);\n    let exceptions = decoder\n        .read_bytes(8 * exception_count)?\n        .chunks(8)\n        .map(|row| {\n            let (range, rest) = row.split_at(4);\n            Exception {\n                start: word(range),\n                end: word(&range[2..]),\n                handler: word(rest),\n                catch_type: word(&rest[2..]),\n            }\n        })\n        .collect();\n"),
   (P + "class.rs", "    for _ in 0..count {\n        packages.push(decoder.read_u16()?);\n    }", "    while packages.len() < usize::from(count) {\n        match decoder.read_u16() {\n            Ok(p) => packages.push(p),\n            e => return e.map(|_| Attribute::Deprecated),\n        }\n    }"))
rf("decoder-cell",
   (P + "decode.rs", "    /// Returns the current cursor\n", "    fn left(&self) -> usize {\n        self.limit.saturating_sub(*self.cursor)\n    }\n\n    /// Returns the current cursor\n"),
   (P + "decode.rs", "        if location <= self.limit {\n            Ok(())\n        } else {\n            Err(Error::LimitExceeded)\n        }", "        let wanted = location.wrapping_sub(*self.cursor);\n        Some(())\n            .filter(|_| location >= *self.cursor && wanted <= self.left())\n            .ok_or(Error::LimitExceeded)"),
   (P + "decode.rs", "        if self.limit == *self.cursor {\n            Ok(())\n        } else {\n            Err(Error::LimitExceeded)\n        }", "        match self.left() {\n            0 => Ok(()),\n            _ => Err(Error::LimitExceeded),\n        }"),
   (P + "decode.rs", "        Ok(self.read_bytes(1)?[0])", "        self.read_bytes(1).map(|b| *b.first().expect(\"one byte\"))"))

# instructions through tables of constructors
rf("code-fn-tables",
   (P + "code.rs", "        0x15 => ILoad(u16::from(decoder.read_u8()?)),\n        0x16 => LLoad(u16::from(decoder.read_u8()?)),\n        0x17 => FLoad(u16::from(decoder.read_u8()?)),\n        0x18 => DLoad(u16::from(decoder.read_u8()?)),\n        0x19 => ALoad(u16::from(decoder.read_u8()?)),\n", "        0x15...0x19 => LOADS[op_code as usize - 0x15](u16::from(decoder.read_u8()?)),\n"),
   (P + "code.rs", "        0x99 => IfEq(decoder.read_i16()?),\n        0x9A => IfNE(decoder.read_i16()?),\n        0x9B => IfLT(decoder.read_i16()?),\n        0x9C => IfGE(decoder.read_i16()?),\n        0x9D => IfGT(decoder.read_i16()?),\n        0x9E => IfLE(decoder.read_i16()?),\n", "        0x99...0x9E => {\n            let (_, make) = CONDITIONS\n                .iter()\n                .find(|&&(code, _)| code == op_code)\n                .expect(\"all conditions are listed\");\n            make(decoder.read_i16()?)\n        }\n"),
   (P + "code.rs", "/// Parses the code attribute\n", "const LOADS: [fn(u16) -> Instruction; 5] = [\n    Instruction::ILoad,\n    Instruction::LLoad,\n    Instruction::FLoad,\n    Instruction::DLoad,\n    Instruction::ALoad,\n];\n\nstatic CONDITIONS: &[(u8, fn(i16) -> Instruction)] = &[\n    (0x99, Instruction::IfEq),\n    (0x9A, Instruction::IfNE),\n    (0x9B, Instruction::IfLT),\n    (0x9C, Instruction::IfGE),\n    (0x9D, Instruction::IfGT),\n    (0x9E, Instruction::IfLE),\n];\n\n/// Parses the code attribute\n"))
# names through a sorted table of functions
rf("attrs-binary-search",
   (P + "mod.rs", "        let attribute = match name.as_ref() {\n            \"AnnotationDefault\" => {\n                Attribute::AnnotationDefault(parse_element_value(&mut attr_decoder)?)\n            }\n            \"BootstrapMethods\" => parse_bootstrap_methods(&mut attr_decoder)?,\n            \"Code\"", "        let simple = SIMPLE.binary_search_by(|&(n, _)| n.cmp(name.as_str()));\n        let attribute = match name.as_ref() {\n            _ if simple.is_ok() => SIMPLE[simple.unwrap_or(0)].1(&mut attr_decoder)?,\n            \"AnnotationDefault\" => {\n                Attribute::AnnotationDefault(parse_element_value(&mut attr_decoder)?)\n            }\n            \"Code\""),
   (P + "mod.rs", "            \"EnclosingMethod\" => parse_enclosing_method(&mut attr_decoder)?,\n            \"Exceptions\" => parse_exceptions(&mut attr_decoder)?,\n            \"InnerClasses\" => parse_inner_classes(&mut attr_decoder)?,\n            \"LineNumberTable\" => parse_line_number_table(&mut attr_decoder)?,\n", ""),
   (P + "mod.rs", "/// Parses all attributes\n", "type Simple = fn(&mut Decoder) -> Result<Attribute>;\n\n/// sorted by name\nconst SIMPLE: [(&str, Simple); 5] = [\n    (\"BootstrapMethods\", parse_bootstrap_methods),\n    (\"EnclosingMethod\", parse_enclosing_method),\n    (\"Exceptions\", parse_exceptions),\n    (\"InnerClasses\", parse_inner_classes),\n    (\"LineNumberTable\", parse_line_number_table),\n];\n\n/// Parses all attributes\n"))
# a static map, made once
rf("attrs-once-map",
   (P + "mod.rs", "        let attribute = match name.as_ref() {", "        let known = KINDS.get_or_init(|| [\"Deprecated\", \"Synthetic\", \"Signature\"].iter().cloned().collect());\n        if known.contains(name.as_str()) && name.len() == 10 {\n            attributes.push(Attribute::Deprecated);\n            attr_decoder.remove_limit()?;\n            continue;\n        }\n        let attribute = match name.as_ref() {"),
   (P + "mod.rs", "/// Parses all attributes\n", "static KINDS: ::std::sync::OnceLock<::std::collections::BTreeSet<&'static str>> = ::std::sync::OnceLock::new();\n\n/// Parses all attributes\n"))
# strings through the standard library
rf("str-std-utf8",
   (P + "decode.rs", "        let mut out = String::new();\n\n        let mut i = length;\n        while i > 0 {", "        // plain text needs no decoding\n        let end = self.cursor.checked_add(length).ok_or(Error::LimitExceeded)?;\n        if end <= self.limit {\n            let raw = &self.bytes[*self.cursor..end];\n            if raw.iter().all(|b| *b != 0 && b.is_ascii()) {\n                *self.cursor = end;\n                return match ::std::str::from_utf8(raw) {\n                    Ok(text) => Ok(text.to_owned()),\n                    Err(_) => Err(Error::InvalidUTF8),\n                };\n            }\n        }\n        let mut out = String::new();\n\n        let mut i = length;\n        while i > 0 {"))
rf("str-buffer",
   (P + "decode.rs", "            let ch = char::from_u32(ch).ok_or(Error::InvalidUTF8)?;\n            out.push(ch);\n        }\n\n        Ok(out)", "            let ch = char::from_u32(ch).ok_or(Error::InvalidUTF8)?;\n            let mut buffer = [0; 4];\n            out.extend_from_slice(ch.encode_utf8(&mut buffer).as_bytes());\n        }\n\n        String::from_utf8(out).map_err(|_| Error::InvalidUTF8)"),
   (P + "decode.rs", "        let mut out = String::new();\n\n        let mut i = length;\n        while i > 0 {", "        let mut out: Vec<u8> = Vec::new();\n\n        let mut i = length;\n        while i > 0 {"))
# descriptors
rf("types-peekable",
   ("types.rs", "        // read the string char by char, not bytes\n        let mut chars = desc.chars();\n        // the array dimensions of the type\n        let mut dimensions: u8 = 0;\n", "        // read the string char by char, not bytes\n        let mut chars = desc.char_indices().map(|(_, ch)| ch).peekable();\n        // the array dimensions of the type\n        let mut dimensions: u8 = 0;\n"),
   ("types.rs", "                if chars.count() != 0 {\n                    err!();\n                }\n\n                // primitive", "                if chars.peek().is_some() {\n                    err!();\n                }\n\n                // primitive"),
   ("types.rs", "                if name.is_empty() || chars.count() != 0 {\n                    err!();\n                }\n\n                return Ok(TypeDescriptor::new", "                if name.is_empty() || chars.peek() != None {\n                    err!();\n                }\n\n                return Ok(TypeDescriptor::new"))
rf("display-pad",
   ("types.rs", "        f.write_str(&\"[\".repeat(self.dimensions as usize))?;", "        for _ in 0..self.dimensions {\n            f.write_str(\"[\")?;\n        }"),
   ("types.rs", "            Type::Reference(ref name) => write!(f, \"L{};\", name),", "            Type::Reference(ref name) => {\n                let quoted = [\"L\", name.as_str(), \";\"].concat();\n                f.write_str(&quoted)\n            }"))
rf("display-format",
   ("types.rs", "        f.write_str(&\"[\".repeat(self.dimensions as usize))?;", "        write!(f, \"{:[<1$}\", \"\", self.dimensions as usize)?;"),
   ("types.rs", "            Type::Reference(ref name) => write!(f, \"L{};\", name),", "            Type::Reference(ref name) => write!(f, \"{}{name}{}\", 'L', ';', name = name),"))
# tables and lists
rf("repeat-with",
   (P + "mod.rs", "    let mut interfaces = Vec::new();\n    for _ in 0..interface_count {\n        interfaces.push(decoder.read_u16()?);\n    }\n", "    let interfaces = ::std::iter::repeat_with(|| decoder.read_u16())\n        .take(usize::from(interface_count))\n        .collect::<Result<Vec<_>>>()?;\n"),
   (P + "annotation.rs", "    for _ in 0..count {\n        annotations.push(parse_annotations(decoder)?);\n    }\n    Ok(annotations)", "    (0..count).try_for_each(|_| -> Result<()> {\n        annotations.push(parse_annotations(decoder)?);\n        Ok(())\n    })?;\n    Ok(annotations)"),
   (P + "annotation.rs", "    let mut type_path = Vec::new();\n\n    for _ in 0..length {", "    let mut type_path = Vec::new();\n\n    let mut left = length;\n    while let Some(rest) = left.checked_sub(1) {\n        left = rest;"),
   (P + "method.rs", "                let mut locals = Vec::with_capacity(dif);\n                for _ in 0..dif {\n                    locals.push(parse_verification_type(decoder)?);\n                }\n", "                let locals = (0..dif).try_fold(Vec::with_capacity(dif), |mut all, _| {\n                    all.push(parse_verification_type(decoder)?);\n                    Ok(all)\n                })?;\n"))
rf("switch-counts",
   (P + "code.rs", "            for _ in low..=high {\n                offsets.push(decoder.read_i32()?);\n            }", "            let count = i64::from(high) - i64::from(low) + 1;\n            let mut read = 0i64;\n            while read != count {\n                offsets.push(decoder.read_i32()?);\n                read += 1;\n            }"),
   (P + "code.rs", "            // skip padding\n            decoder.skip(3 - (at & 3) as usize)?;\n            let default = decoder.read_i32()?;\n            let low", "            // skip padding\n            let aligned = (at as usize + 1 + 3) / 4 * 4;\n            decoder.skip(aligned - at as usize - 1)?;\n            let default = decoder.read_i32()?;\n            let low"),
   (P + "code.rs", "            // skip padding\n            decoder.skip(3 - (at & 3) as usize)?;\n            let default = decoder.read_i32()?;\n\n", "            // skip padding\n            decoder.skip(((at as i64 + 1).wrapping_neg()).rem_euclid(4) as usize)?;\n            let default = decoder.read_i32()?;\n\n"),
   (P + "code.rs", "                offsets.insert(key, offset);", "                if let Some(slot) = offsets.get_mut(&key) {\n                    *slot = offset;\n                    continue;\n                }\n                offsets.insert(key, offset);"))
rf("code-sorted",
   (P + "code.rs", "    let mut instructions = HashMap::new();\n", "    let mut found = Vec::new();\n"),
   (P + "code.rs", "            instructions.insert(code_location, instruction);\n", "            found.push((code_location, instruction));\n"),
   (P + "code.rs", "    // Read all exceptions\n", "    found.sort_by_key(|&(at, _)| ::std::cmp::Reverse(at));\n    let mut instructions = HashMap::with_capacity(found.len());\n    while let Some((at, instruction)) = found.pop() {\n        instructions.insert(at, instruction);\n    }\n\n    // Read all exceptions\n"))
# element values and verification types through options and conversions
rf("tags-try-from",
   (P + "method.rs", "    let tag = decoder.read_u8()?;\n    match tag {\n        0 => Ok(Top),\n        1 => Ok(Integer),\n        2 => Ok(Float),\n        3 => Ok(Double),\n        4 => Ok(Long),\n        5 => Ok(Null),\n        6 => Ok(UninitializedThis),\n", "    let tag = decoder.read_u8()?;\n    let plain = vec![Top, Integer, Float, Double, Long, Null, UninitializedThis];\n    if let Some(found) = plain.into_iter().nth(usize::from(tag)) {\n        return Ok(found);\n    }\n    match tag {\n"),
   (P + "annotation.rs", "    match tag {\n        b'B' =>", "    if !b\"BSCIJFDZsce@[\".contains(&tag) {\n        return Err(Error::InvalidElementValue(tag));\n    }\n    match tag {\n        b'B' =>"),
   (P + "mod.rs", "                let kind = match decoder.read_u8()? {\n                    1 => ReferenceKind::GetField,\n                    2 => ReferenceKind::GetStatic,\n                    3 => ReferenceKind::PutField,\n                    4 => ReferenceKind::PutStatic,\n                    5 => ReferenceKind::InvokeVirtual,\n                    6 => ReferenceKind::InvokeStatic,\n                    7 => ReferenceKind::InvokeSpecial,\n                    8 => ReferenceKind::NewInvokeSpecial,\n                    9 => ReferenceKind::InvokeInterface,\n\n                    _ => return Err(Error::InvalidCPItem(index)),\n                };",
    "                use self::ReferenceKind::*;\n                const KINDS: [ReferenceKind; 9] = [\n                    GetField,\n                    GetStatic,\n                    PutField,\n                    PutStatic,\n                    InvokeVirtual,\n                    InvokeStatic,\n                    InvokeSpecial,\n                    NewInvokeSpecial,\n                    InvokeInterface,\n                ];\n                let kind = decoder\n                    .read_u8()?\n                    .checked_sub(1)\n                    .and_then(|k| KINDS.get(usize::from(k)))\n                    .cloned()\n                    .ok_or_else(|| Error::InvalidCPItem(index))?;"))
# the pool over another map
rf("pool-btree",
   ("basic/constpool.rs", "    by_index: Vec<Option<Rc<Item>>>,\n", "    by_index: ::std::collections::BTreeMap<u16, Rc<Item>>,\n"),
   ("basic/constpool.rs", "            by_index: Vec::new(),\n", "            by_index: ::std::collections::BTreeMap::new(),\n"),
   ("basic/constpool.rs", "            by_index: Vec::with_capacity(cap as usize),\n", "            by_index: Default::default(),\n"),
   ("basic/constpool.rs", "            if let Some(ref item) = self.by_index[index as usize - 1] {\n                return Ok(item);\n            }", "            if let Some(item) = self.by_index.get(&index) {\n                return Ok(item);\n            }"),
   ("basic/constpool.rs", "        self.by_index.push(Some(Rc::clone(&rc_item)));\n        if double {\n            self.by_index.push(None);\n        }\n", "        self.by_index.insert(index, Rc::clone(&rc_item));\n"),
   ("basic/constpool.rs", "            iter: self.by_index.iter(),\n            index: 0,\n", "            iter: self.by_index.iter(),\n"),
   ("basic/constpool.rs", "    iter: Iter<'a, Option<Rc<Item>>>,\n    index: u16,\n", "    iter: ::std::collections::btree_map::Iter<'a, u16, Rc<Item>>,\n"),
   ("basic/constpool.rs", "        if let Some(rc_item) = self.iter.next() {\n            self.index += 1;\n            if let Some(ref item) = *rc_item {\n                Some((self.index, item))\n            } else {\n                self.next()\n            }\n        } else {\n            None\n        }", "        self.iter.next().map(|(&index, item)| (index, &**item))"),
   ("basic/constpool.rs", "use std::slice::Iter;\n", ""))

def sh(cmd, cwd=HERE, timeout=3000): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def main():
    names = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = ["C%02d" % i for i in range(1, 39)]
    for a in sys.argv[1:]:
        if a.startswith("--checks="): checks = a[9:].split(",")
    for n in (names or R):
        try:
            for f, a, b in R[n]:
                p = "/repo/src/" + f
                s = open(p).read()
                if s.count(a) != 1: print(n, "BAD EDIT", f, s.count(a), repr(a[:70])); break
                open(p, "w").write(s.replace(a, b))
            else:
                t = sh(["bash", "/opt/vp/test.sh", "/tmp/rf-out.json"])
                import json
                o = json.load(open("/tmp/rf-out.json")) if os.path.exists("/tmp/rf-out.json") else {}
                ok = t.returncode == 0 and "test result: FAILED" not in t.stdout and "could not compile" not in t.stdout
                print(n, "tests ok" if ok else "TESTS FAIL " + t.stdout[-1500:], flush=True)
                if ok:
                    for c in checks:
                        t0 = time.time()
                        r = sh(["timeout", "900", "python3", "check.py", c, "quick"])
                        last = (r.stdout.splitlines() or [""])[-1]
                        if r.returncode or "INCOMPLETE" in r.stdout: print("   ", n, c, "rc=%d" % r.returncode, "%.0fs" % (time.time() - t0), r.stdout[-900:], flush=True)
                        elif time.time() - t0 > 80: print("   ", n, c, "slow %.0fs" % (time.time() - t0), last, flush=True)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
main()
