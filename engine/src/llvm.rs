//! Reads a bitcode module with the toolchain's libLLVM, prepares it and translates it to `ir`.
use crate::ir::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;

type V = *mut c_void;
type T = *mut c_void;
type B = *mut c_void;
type M = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, out: *mut V, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcode2(b: V, out: *mut M) -> c_int;
    fn LLVMGetFirstFunction(m: M) -> V;
    fn LLVMGetNextFunction(f: V) -> V;
    fn LLVMGetFirstGlobal(m: M) -> V;
    fn LLVMGetNextGlobal(f: V) -> V;
    fn LLVMGetFirstGlobalAlias(m: M) -> V;
    fn LLVMGetNextGlobalAlias(f: V) -> V;
    fn LLVMAliasGetAliasee(v: V) -> V;
    fn LLVMGetValueName2(v: V, n: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: V) -> c_int;
    fn LLVMSetLinkage(v: V, l: c_int);
    fn LLVMSetVisibility(v: V, l: c_int);
    fn LLVMAddFunction(m: M, n: *const c_char, t: T) -> V;
    fn LLVMGlobalGetValueType(v: V) -> T;
    fn LLVMReplaceAllUsesWith(a: V, b: V);
    fn LLVMDeleteFunction(v: V);
    fn LLVMGetEnumAttributeAtIndex(f: V, i: c_uint, k: c_uint) -> V;
    fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
    fn LLVMCreateEnumAttribute(c: V, k: c_uint, v: u64) -> V;
    fn LLVMAddAttributeAtIndex(f: V, i: c_uint, a: V);
    fn LLVMRemoveEnumAttributeAtIndex(f: V, i: c_uint, k: c_uint);
    fn LLVMGetModuleContext(m: M) -> V;
    fn LLVMRunPasses(m: M, p: *const c_char, tm: V, o: V) -> V;
    fn LLVMGetErrorMessage(e: V) -> *const c_char;
    fn LLVMCreatePassBuilderOptions() -> V;
    fn LLVMGetModuleDataLayout(m: M) -> V;
    fn LLVMABISizeOfType(d: V, t: T) -> u64;
    fn LLVMOffsetOfElement(d: V, t: T, i: c_uint) -> u64;
    fn LLVMGetTypeKind(t: T) -> c_int;
    fn LLVMGetIntTypeWidth(t: T) -> c_uint;
    fn LLVMGetElementType(t: T) -> T;
    fn LLVMGetArrayLength2(t: T) -> u64;
    fn LLVMGetVectorSize(t: T) -> c_uint;
    fn LLVMCountStructElementTypes(t: T) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: T, i: c_uint) -> T;
    fn LLVMTypeOf(v: V) -> T;
    fn LLVMGetValueKind(v: V) -> c_int;
    fn LLVMIsNull(v: V) -> c_int;
    fn LLVMIsUndef(v: V) -> c_int;
    fn LLVMIsAConstantFP(v: V) -> V;
    fn LLVMIsAInlineAsm(v: V) -> V;
    fn LLVMConstIntGetZExtValue(v: V) -> u64;
    fn LLVMConstRealGetDouble(v: V, l: *mut c_int) -> f64;
    fn LLVMPrintValueToString(v: V) -> *mut c_char;
    fn LLVMDisposeMessage(v: *mut c_char);
    fn LLVMGetAggregateElement(v: V, i: c_uint) -> V;
    fn LLVMGetConstOpcode(v: V) -> c_int;
    fn LLVMGetNumOperands(v: V) -> c_int;
    fn LLVMGetOperand(v: V, i: c_uint) -> V;
    fn LLVMGetGEPSourceElementType(v: V) -> T;
    fn LLVMGetInitializer(v: V) -> V;
    fn LLVMIsGlobalConstant(v: V) -> c_int;
    fn LLVMCountParams(f: V) -> c_uint;
    fn LLVMGetParam(f: V, i: c_uint) -> V;
    fn LLVMGetFirstBasicBlock(f: V) -> B;
    fn LLVMGetNextBasicBlock(b: B) -> B;
    fn LLVMGetFirstInstruction(b: B) -> V;
    fn LLVMGetNextInstruction(v: V) -> V;
    fn LLVMGetInstructionOpcode(v: V) -> c_int;
    fn LLVMGetICmpPredicate(v: V) -> c_int;
    fn LLVMGetFCmpPredicate(v: V) -> c_int;
    fn LLVMIsABranchInst(v: V) -> V;
    fn LLVMIsATerminatorInst(v: V) -> V;
    fn LLVMIsConditional(v: V) -> c_int;
    fn LLVMGetCondition(v: V) -> V;
    fn LLVMGetNumSuccessors(v: V) -> c_uint;
    fn LLVMGetSuccessor(v: V, i: c_uint) -> B;
    fn LLVMGetSwitchDefaultDest(v: V) -> B;
    fn LLVMGetSwitchCaseValue(v: V, i: c_uint) -> V;
    fn LLVMCountIncoming(v: V) -> c_uint;
    fn LLVMGetIncomingValue(v: V, i: c_uint) -> V;
    fn LLVMGetIncomingBlock(v: V, i: c_uint) -> B;
    fn LLVMGetAllocatedType(v: V) -> T;
    fn LLVMGetCalledValue(v: V) -> V;
    fn LLVMGetNumArgOperands(v: V) -> c_uint;
    fn LLVMGetNumIndices(v: V) -> c_uint;
    fn LLVMGetIndices(v: V) -> *const c_uint;
    fn LLVMGetNumMaskElements(v: V) -> c_uint;
    fn LLVMGetMaskValue(v: V, i: c_uint) -> c_int;
    fn LLVMGetAtomicRMWBinOp(v: V) -> c_int;
    fn LLVMGetNormalDest(v: V) -> B;
    fn LLVMPrintModuleToFile(m: M, f: *const c_char, e: *mut *mut c_char) -> c_int;
}

pub fn name_of(v: V) -> String {
    let mut n = 0usize;
    unsafe {
        let p = LLVMGetValueName2(v, &mut n);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
    }
}

fn attr_kind(n: &str) -> c_uint { unsafe { LLVMGetEnumAttributeKindForName(n.as_ptr() as *const c_char, n.len()) } }
const FNIDX: c_uint = c_uint::MAX;

/// The crate a v0-mangled symbol is defined in, crudely: first identifier after the crate root `C`.
pub fn is_ours(name: &str) -> bool {
    // non-generic items and closures of the crate under test: first path root is jbcrs
    if !name.starts_with("_RN") { return false; }
    match first_crate(name) { Some(c) => c == "jbcrs", None => false }
}
pub fn first_crate(name: &str) -> Option<&str> {
    // find "C" followed by optional "s<base62>_" then "<len><ident>"
    let b = name.as_bytes();
    let mut i = 2;
    while i < b.len() {
        if b[i] == b'C' {
            let mut j = i + 1;
            if j < b.len() && b[j] == b's' {
                j += 1;
                while j < b.len() && b[j] != b'_' { j += 1 }
                j += 1;
            }
            let s = j;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { n = n * 10 + (b[j] - b'0') as usize; j += 1 }
            if j > s && j + n <= b.len() {
                return Some(&name[j..j + n]);
            }
        }
        i += 1;
    }
    None
}

/// Very small demangler: the identifiers of a v0 symbol, joined.
pub fn pretty(name: &str) -> String {
    if !name.starts_with("_R") { return name.to_string(); }
    let b = name.as_bytes();
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator or back reference
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1 }
            if j < b.len() && b[j] == b'_' && j - i < 16 { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() {
            let mut n = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() && n < 1000 { n = n * 10 + (b[j] - b'0') as usize; j += 1 }
            if j < b.len() && b[j] == b'_' { j += 1 }
            if n > 0 && j + n <= b.len() { out.push(&name[j..j + n]); i = j + n; continue; }
            i = j;
            continue;
        }
        i += 1;
    }
    out.join("::")
}

pub struct Loaded { pub m: M, dl: V, fidx: HashMap<V, u32>, gidx: HashMap<V, u32>, alias: HashMap<V, V>, tys: HashMap<T, Ty> }

unsafe fn externalize(m: M, f: V, newname: &str) {
    let ft = LLVMGlobalGetValueType(f);
    let cn = CString::new(newname).unwrap();
    let d = LLVMAddFunction(m, cn.as_ptr(), ft);
    let nr = attr_kind("noreturn");
    if !LLVMGetEnumAttributeAtIndex(f, FNIDX, nr).is_null() {
        LLVMAddAttributeAtIndex(d, FNIDX, LLVMCreateEnumAttribute(LLVMGetModuleContext(m), nr, 0));
    }
    LLVMReplaceAllUsesWith(f, d);
    LLVMDeleteFunction(f);
}

/// Loads the module, cuts it at the environment boundary, keeps what the entries reach and simplifies it.
pub fn load(path: &str, passes: &str, dump: Option<&str>) -> Loaded {
    unsafe {
        let p = CString::new(path).unwrap();
        let mut buf: V = std::ptr::null_mut();
        let mut msg: *mut c_char = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 { panic!("cannot read {}", path); }
        let mut m: M = std::ptr::null_mut();
        if LLVMParseBitcode2(buf, &mut m) != 0 { panic!("cannot parse {}", path); }
        let ctx = LLVMGetModuleContext(m);
        let nr = attr_kind("noreturn");
        let noinline = attr_kind("noinline");
        let alwaysinline = attr_kind("alwaysinline");
        let inlinehint = attr_kind("inlinehint");
        // 1. environment boundary
        let mut f = LLVMGetFirstFunction(m);
        let mut cut = vec![];
        while !f.is_null() {
            let next = LLVMGetNextFunction(f);
            if LLVMIsDeclaration(f) == 0 {
                let n = name_of(f);
                let krate = first_crate(&n).unwrap_or("");
                let std_crate = matches!(krate, "core" | "alloc" | "std" | "hashbrown" | "panic_unwind" | "panic_abort");
                if n.contains("13DefaultHasher") && n.contains("4hash6Hasher") && !n.contains("_RNvY") && n.starts_with("_RNvX") {
                    for (suf, to) in [("6Hasher5write", "ext.hash.write"), ("6Hasher9write_str", "ext.hash.write_str"), ("6Hasher6finish", "ext.hash.finish")] {
                        if n.ends_with(suf) { cut.push((f, to.to_string())); }
                    }
                } else if n.ends_with("20hashmap_random_keys") || n.contains("hashmap_random_keys") {
                    cut.push((f, "ext.random_keys".to_string()));
                } else if n.contains("7___rustc12___rust_alloc") || n.ends_with("___rust_alloc") { cut.push((f, "ext.alloc".into()));
                } else if n.ends_with("___rust_dealloc") { cut.push((f, "ext.dealloc".into()));
                } else if n.ends_with("___rust_realloc") { cut.push((f, "ext.realloc".into()));
                } else if n.ends_with("___rust_alloc_zeroed") { cut.push((f, "ext.alloc_zeroed".into()));
                } else if n.ends_with("___rust_no_alloc_shim_is_unstable_v2") { cut.push((f, "ext.nop".into()));
                } else if std_crate && !LLVMGetEnumAttributeAtIndex(f, FNIDX, nr).is_null() {
                    cut.push((f, format!("ext.panic.{}", n)));
                }
                if is_ours(&n) {
                    LLVMRemoveEnumAttributeAtIndex(f, FNIDX, alwaysinline);
                    LLVMRemoveEnumAttributeAtIndex(f, FNIDX, inlinehint);
                    LLVMAddAttributeAtIndex(f, FNIDX, LLVMCreateEnumAttribute(ctx, noinline, 0));
                }
            }
            f = next;
        }
        for (f, n) in cut { externalize(m, f, &n); }
        // 2. internalize everything but the entries
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            if LLVMIsDeclaration(f) == 0 {
                let n = name_of(f);
                if !n.starts_with("h_") { LLVMSetVisibility(f, 0); LLVMSetLinkage(f, 8); }
            }
            f = LLVMGetNextFunction(f);
        }
        let mut g = LLVMGetFirstGlobal(m);
        while !g.is_null() {
            if LLVMIsDeclaration(g) == 0 && !name_of(g).starts_with("llvm.") { LLVMSetVisibility(g, 0); LLVMSetLinkage(g, 8); }
            g = LLVMGetNextGlobal(g);
        }
        // llvm.used keeps things alive; harmless
        let ps = CString::new(passes).unwrap();
        let e = LLVMRunPasses(m, ps.as_ptr(), std::ptr::null_mut(), LLVMCreatePassBuilderOptions());
        if !e.is_null() { panic!("passes: {}", CStr::from_ptr(LLVMGetErrorMessage(e)).to_string_lossy()); }
        if let Some(d) = dump {
            let c = CString::new(d).unwrap();
            LLVMPrintModuleToFile(m, c.as_ptr(), &mut msg);
        }
        let dl = LLVMGetModuleDataLayout(m);
        let mut l = Loaded { m, dl, fidx: HashMap::new(), gidx: HashMap::new(), alias: HashMap::new(), tys: HashMap::new() };
        let mut f = LLVMGetFirstFunction(m);
        let mut n = 0;
        while !f.is_null() { l.fidx.insert(f, n); n += 1; f = LLVMGetNextFunction(f); }
        let mut g = LLVMGetFirstGlobal(m);
        let mut n = 1; // object 0 is never valid
        while !g.is_null() { l.gidx.insert(g, n); n += 1; g = LLVMGetNextGlobal(g); }
        let mut a = LLVMGetFirstGlobalAlias(m);
        while !a.is_null() { l.alias.insert(a, LLVMAliasGetAliasee(a)); a = LLVMGetNextGlobalAlias(a); }
        l
    }
}

impl Loaded {
    fn ty(&mut self, t: T) -> Ty {
        if let Some(x) = self.tys.get(&t) { return x.clone(); }
        let r = unsafe {
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                1 => Ty::Int(16),
                2 => Ty::Int(32),
                3 => Ty::Int(64),
                5 => Ty::Int(128),
                8 => Ty::Int(LLVMGetIntTypeWidth(t)),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut f = vec![];
                    for i in 0..n { let e = self.ty(LLVMStructGetTypeAtIndex(t, i)); f.push((e, LLVMOffsetOfElement(self.dl, t, i))); }
                    Ty::Struct(Rc::new(f), LLVMABISizeOfType(self.dl, t))
                }
                11 => { let et = LLVMGetElementType(t); let e = self.ty(et); Ty::Arr(Rc::new(e), LLVMGetArrayLength2(t), LLVMABISizeOfType(self.dl, et)) }
                12 => Ty::Int(64),
                13 => { let et = LLVMGetElementType(t); let e = self.ty(et); Ty::Vec(Rc::new(e), LLVMGetVectorSize(t)) }
                _ => Ty::Void,
            }
        };
        self.tys.insert(t, r.clone());
        r
    }
    fn print(v: V) -> String { unsafe { let p = LLVMPrintValueToString(v); let s = CStr::from_ptr(p).to_string_lossy().into_owned(); LLVMDisposeMessage(p); s } }

    fn konst(&mut self, v: V) -> Val {
        unsafe {
            let ty = self.ty(LLVMTypeOf(v));
            if LLVMIsNull(v) != 0 || LLVMIsUndef(v) != 0 { return ty.zero(); }
            let kind = if !LLVMIsAConstantFP(v).is_null() { 119 } else { LLVMGetValueKind(v) };
            match kind {
                5 => Val::C(FN_BASE + 16 * self.fidx[&v] as u64),
                6 => { let a = self.alias[&v]; self.konst(a) }
                8 => Val::C(addr_of(self.gidx[&v], 0)),
                18 => {
                    if ty.bits() <= 64 { Val::C(LLVMConstIntGetZExtValue(v)) } else {
                        let s = Self::print(v);
                        let n = s.split(' ').last().unwrap().trim();
                        Val::W(n.parse::<i128>().map(|x| x as u128).or_else(|_| n.parse::<u128>()).expect("wide const"))
                    }
                }
                119 => {
                    let mut l = 0;
                    let d = LLVMConstRealGetDouble(v, &mut l);
                    if ty.bits() == 32 { Val::C((d as f32).to_bits() as u64) } else { Val::C(d.to_bits()) }
                }
                14 | 15 => ty.zero(),
                11 | 12 | 13 | 16 | 17 => {
                    let n = match &ty { Ty::Vec(_, n) => *n as u64, Ty::Arr(_, n, _) => *n, Ty::Struct(f, _) => f.len() as u64, _ => 0 };
                    let mut out = Vec::with_capacity(n as usize);
                    for i in 0..n { let e = LLVMGetAggregateElement(v, i as c_uint); out.push(self.konst(e)); }
                    Val::A(Rc::new(out))
                }
                10 => {
                    let op = LLVMGetConstOpcode(v);
                    let a = self.konst(LLVMGetOperand(v, 0));
                    let c = |x: &Val| if let Val::C(k) = x { *k } else { panic!("const expr operand") };
                    match op {
                        29 => {
                            let (base, terms) = self.gep_parts(v);
                            let mut r = c(&a).wrapping_add(base as u64);
                            for (s, o, w) in terms {
                                if let Opnd::K(k) = o { r = r.wrapping_add((s as u64).wrapping_mul(crate::expr::sext64(c(&k), w) as u64)) } else { panic!("gep const") }
                            }
                            Val::C(r)
                        }
                        39 | 40 | 41 | 60 | 69 => { Val::C(c(&a) & crate::expr::mask(ty.bits())) }
                        30 => Val::C(c(&a) & crate::expr::mask(ty.bits())),
                        8 => { let b = self.konst(LLVMGetOperand(v, 1)); Val::C(c(&a).wrapping_add(c(&b)) & crate::expr::mask(ty.bits())) }
                        10 => { let b = self.konst(LLVMGetOperand(v, 1)); Val::C(c(&a).wrapping_sub(c(&b)) & crate::expr::mask(ty.bits())) }
                        25 => { let b = self.konst(LLVMGetOperand(v, 1)); Val::C(c(&a) ^ c(&b)) }
                        _ => panic!("const expr opcode {} in {}", op, Self::print(v)),
                    }
                }
                _ if ty == Ty::Void => Val::C(0), // metadata
                k => panic!("constant kind {} {}", k, Self::print(v)),
            }
        }
    }

    /// constant offset and scaled variable terms of a GEP (instruction or constant expression)
    fn gep_parts_with(&mut self, v: V, mut opn: impl FnMut(&mut Self, V) -> Opnd) -> (i64, Vec<(i64, Opnd, u32)>) {
        unsafe {
            let n = LLVMGetNumOperands(v) as u32;
            let mut t = LLVMGetGEPSourceElementType(v);
            let mut off = 0i64;
            let mut terms = vec![];
            for i in 1..n {
                let o = LLVMGetOperand(v, i);
                let w = { let t = self.ty(LLVMTypeOf(o)); match t { Ty::Int(w) => w, _ => panic!("vector gep") } };
                if i > 1 && LLVMGetTypeKind(t) == 10 {
                    let k = LLVMConstIntGetZExtValue(o) as u32;
                    off += LLVMOffsetOfElement(self.dl, t, k) as i64;
                    t = LLVMStructGetTypeAtIndex(t, k);
                    continue;
                }
                let stride = if i == 1 { LLVMABISizeOfType(self.dl, t) } else { t = LLVMGetElementType(t); LLVMABISizeOfType(self.dl, t) } as i64;
                match opn(self, o) {
                    Opnd::K(Val::C(k)) => off = off.wrapping_add(stride.wrapping_mul(crate::expr::sext64(k, w))),
                    x => terms.push((stride, x, w)),
                }
            }
            (off, terms)
        }
    }
    fn gep_parts(&mut self, v: V) -> (i64, Vec<(i64, Opnd, u32)>) {
        self.gep_parts_with(v, |l, o| Opnd::K(l.konst(o)))
    }

    fn write_const(&self, ty: &Ty, v: &Val, out: &mut [u8], off: u64) {
        match (ty, v) {
            (Ty::Int(_), Val::C(k)) => { let n = ty.size() as usize; out[off as usize..off as usize + n].copy_from_slice(&k.to_le_bytes()[..n]) }
            (Ty::Int(_), Val::W(k)) => { let n = ty.size() as usize; out[off as usize..off as usize + n].copy_from_slice(&k.to_le_bytes()[..n]) }
            (Ty::Arr(e, _, s), Val::A(x)) => for (i, y) in x.iter().enumerate() { self.write_const(e, y, out, off + i as u64 * s) },
            (Ty::Vec(e, _), Val::A(x)) => for (i, y) in x.iter().enumerate() { self.write_const(e, y, out, off + i as u64 * e.size()) },
            (Ty::Struct(f, _), Val::A(x)) => for (y, (t, o)) in x.iter().zip(f.iter()) { self.write_const(t, y, out, off + o) },
            _ => panic!("write_const"),
        }
    }

    pub fn program(&mut self) -> Program {
        unsafe {
            let mut globals = vec![];
            let mut gs = vec![];
            let mut g = LLVMGetFirstGlobal(self.m);
            while !g.is_null() { gs.push(g); g = LLVMGetNextGlobal(g); }
            for g in gs {
                let name = name_of(g);
                let ty = self.ty(LLVMGlobalGetValueType(g));
                let mut data = vec![0u8; ty.size() as usize];
                if LLVMIsDeclaration(g) == 0 && !name.starts_with("llvm.") {
                    let v = self.konst(LLVMGetInitializer(g));
                    self.write_const(&ty, &v, &mut data, 0);
                }
                globals.push(Global { name, size: ty.size(), data, konst: LLVMIsGlobalConstant(g) != 0 });
            }
            let mut funcs = vec![];
            let mut fnames = vec![];
            let mut entry = HashMap::new();
            let mut f = LLVMGetFirstFunction(self.m);
            let mut our_blocks = 0;
            while !f.is_null() {
                let name = name_of(f);
                let idx = funcs.len() as u32;
                fnames.push(name.clone());
                if LLVMIsDeclaration(f) != 0 { funcs.push(None) } else {
                    if name.starts_with("h_") { entry.insert(name.clone(), idx); }
                    let mut fun = self.func(f, name, idx);
                    if fun.ours { fun.block_base = our_blocks; our_blocks += fun.blocks.len() as u32; }
                    funcs.push(Some(fun));
                }
                f = LLVMGetNextFunction(f);
            }
            Program { funcs, fnames, entry, globals, our_blocks }
        }
    }

    unsafe fn func(&mut self, f: V, name: String, idx: u32) -> Func {
        let mut slots: HashMap<V, u32> = HashMap::new();
        let np = LLVMCountParams(f);
        for i in 0..np { slots.insert(LLVMGetParam(f, i), i); }
        let mut n = np;
        let mut bidx: HashMap<B, u32> = HashMap::new();
        let mut b = LLVMGetFirstBasicBlock(f);
        let mut order = vec![];
        while !b.is_null() {
            bidx.insert(b, order.len() as u32);
            order.push(b);
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() { slots.insert(i, n); n += 1; i = LLVMGetNextInstruction(i); }
            b = LLVMGetNextBasicBlock(b);
        }
        let mut blocks = vec![];
        for b in order {
            let mut blk = Block { insts: vec![], phis: vec![] };
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                if LLVMGetInstructionOpcode(i) == 44 {
                    let mut inc = vec![];
                    for k in 0..LLVMCountIncoming(i) {
                        let o = self.opnd(LLVMGetIncomingValue(i, k), &slots);
                        inc.push((bidx[&LLVMGetIncomingBlock(i, k)], o));
                    }
                    blk.phis.push((slots[&i], inc));
                } else {
                    self.inst(i, &slots, &bidx, &mut blk.insts);
                }
                i = LLVMGetNextInstruction(i);
            }
            blocks.push(blk);
        }
        let ours = is_ours(&name);
        Func { name, idx, nparams: np, nslots: n, blocks, ours, block_base: 0 }
    }

    fn opnd(&mut self, v: V, slots: &HashMap<V, u32>) -> Opnd {
        if let Some(s) = slots.get(&v) { Opnd::R(*s) } else { Opnd::K(self.konst(v)) }
    }

    unsafe fn inst(&mut self, i: V, slots: &HashMap<V, u32>, bidx: &HashMap<B, u32>, out: &mut Vec<Inst>) {
        let d = slots[&i];
        let op = LLVMGetInstructionOpcode(i);
        macro_rules! o { ($k:expr) => { self.opnd(LLVMGetOperand(i, $k), slots) } }
        macro_rules! t { ($k:expr) => { self.ty(LLVMTypeOf(LLVMGetOperand(i, $k))) } }
        let ty = self.ty(LLVMTypeOf(i));
        let unsup = |out: &mut Vec<Inst>| out.push(Inst::Unsupported(Self::print(i).into()));
        if op == 1 {
            let r = if LLVMGetNumOperands(i) == 0 { None } else { Some(o!(0)) };
            out.push(Inst::Ret(r));
            return;
        }
        if !LLVMIsABranchInst(i).is_null() {
            if LLVMGetNumSuccessors(i) == 2 && LLVMIsConditional(i) != 0 {
                let c = self.opnd(LLVMGetCondition(i), slots);
                out.push(Inst::CondBr(c, bidx[&LLVMGetSuccessor(i, 0)], bidx[&LLVMGetSuccessor(i, 1)]));
            } else {
                out.push(Inst::Br(bidx[&LLVMGetSuccessor(i, 0)]));
            }
            return;
        }
        match op {
            3 => {
                let c = o!(0);
                let w = t!(0).bits();
                let mut cases = vec![];
                for k in 1..LLVMGetNumSuccessors(i) {
                    let cv = LLVMGetSwitchCaseValue(i, k);
                    cases.push((LLVMConstIntGetZExtValue(cv), bidx[&LLVMGetSuccessor(i, k)]));
                }
                out.push(Inst::Switch(c, w, bidx[&LLVMGetSwitchDefaultDest(i)], cases));
            }
            7 => out.push(Inst::Unreachable),
            8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=25 => {
                let b = match op { 8 => BinOp::Add, 10 => BinOp::Sub, 12 => BinOp::Mul, 14 => BinOp::UDiv, 15 => BinOp::SDiv, 17 => BinOp::URem, 18 => BinOp::SRem,
                    20 => BinOp::Shl, 21 => BinOp::LShr, 22 => BinOp::AShr, 23 => BinOp::And, 24 => BinOp::Or, _ => BinOp::Xor };
                let (x, y) = (o!(0), o!(1));
                out.push(Inst::Bin(b, ty, d, x, y));
            }
            26 => {
                let sz = LLVMABISizeOfType(self.dl, LLVMGetAllocatedType(i));
                let n = o!(0);
                out.push(Inst::Alloca(d, sz, n));
            }
            27 => { let p = o!(0); out.push(Inst::Load(ty, d, p)); }
            28 => { let v = o!(0); let p = o!(1); let t = t!(0); out.push(Inst::Store(t, v, p)); }
            29 => {
                let base = o!(0);
                let (off, terms) = self.gep_parts_with(i, |l, v| l.opnd(v, slots));
                if let Ty::Vec(..) = ty { unsup(out); } else { out.push(Inst::Gep(d, base, off, terms)); }
            }
            30 | 31 | 32 => {
                let (x, f) = (o!(0), t!(0));
                out.push(Inst::Cast(match op { 30 => CastOp::Trunc, 31 => CastOp::ZExt, _ => CastOp::SExt }, f, ty, d, x));
            }
            39 | 40 | 69 => {
                let (x, f) = (o!(0), t!(0));
                if let (Ty::Int(a), Ty::Int(b)) = (&f, &ty) {
                    let c = if a > b { CastOp::Trunc } else if a < b { CastOp::ZExt } else { CastOp::Same };
                    out.push(Inst::Cast(c, f, ty, d, x));
                } else { unsup(out); }
            }
            41 => { let (x, f) = (o!(0), t!(0)); out.push(Inst::BitCast(f, ty, d, x)); }
            42 => {
                let p = match LLVMGetICmpPredicate(i) { 32 => Pred::Eq, 33 => Pred::Ne, 34 => Pred::Ugt, 35 => Pred::Uge, 36 => Pred::Ult, 37 => Pred::Ule, 38 => Pred::Sgt, 39 => Pred::Sge, 40 => Pred::Slt, _ => Pred::Sle };
                let (x, y, f) = (o!(0), o!(1), t!(0));
                out.push(Inst::Cmp(p, f, d, x, y));
            }
            43 => {
                let (x, y, f) = (o!(0), o!(1), t!(0));
                out.push(Inst::FCmp(LLVMGetFCmpPredicate(i) as u32, f, d, x, y));
            }
            9 | 11 | 13 | 16 | 19 | 66 | 33..=38 => {
                let f = t!(0);
                let a = (0..LLVMGetNumOperands(i) as c_uint).map(|k| o!(k)).collect();
                out.push(Inst::Fp(op, f, ty, d, a));
            }
            45 | 5 => {
                let na = LLVMGetNumArgOperands(i);
                let cv = LLVMGetCalledValue(i);
                let kind = LLVMGetValueKind(cv);
                let mut args = vec![];
                let mut atys = vec![];
                let cname = if kind == 5 { name_of(cv) } else { String::new() };
                let skip = cname.starts_with("llvm.dbg") || cname.starts_with("llvm.lifetime") || cname.starts_with("llvm.experimental.noalias") || cname == "llvm.assume" || cname.starts_with("llvm.invariant") || cname == "llvm.donothing" || cname.starts_with("llvm.prefetch");
                if !skip {
                    for k in 0..na { args.push(o!(k)); atys.push(t!(k)); }
                    let callee = if kind == 5 {
                        if LLVMIsDeclaration(cv) != 0 { Callee::Ext(cname.into()) } else { Callee::Fn(self.fidx[&cv]) }
                    } else if !LLVMIsAInlineAsm(cv).is_null() { Callee::Ext("asm".into()) }
                    else { Callee::Ptr(self.opnd(cv, slots)) };
                    out.push(Inst::Call(if ty == Ty::Void { None } else { Some(d) }, ty, callee, args, atys));
                }
                if op == 5 { out.push(Inst::Br(bidx[&LLVMGetNormalDest(i)])); }
            }
            46 => {
                let vc = matches!(t!(0), Ty::Vec(..));
                let (c, x, y) = (o!(0), o!(1), o!(2));
                out.push(Inst::Select(ty, vc, d, c, x, y));
            }
            50 => { let (x, y) = (o!(0), o!(1)); out.push(Inst::ExtractElt(d, x, y)); }
            51 => { let (x, y, z) = (o!(0), o!(1), o!(2)); out.push(Inst::InsertElt(d, x, y, z)); }
            52 => {
                let (x, y) = (o!(0), o!(1));
                let mask = (0..LLVMGetNumMaskElements(i)).map(|k| LLVMGetMaskValue(i, k)).collect();
                out.push(Inst::Shuffle(d, x, y, mask, ty));
            }
            53 => {
                let idx = std::slice::from_raw_parts(LLVMGetIndices(i), LLVMGetNumIndices(i) as usize).to_vec();
                let x = o!(0);
                out.push(Inst::ExtractValue(d, x, idx));
            }
            54 => {
                let idx = std::slice::from_raw_parts(LLVMGetIndices(i), LLVMGetNumIndices(i) as usize).to_vec();
                let (x, y) = (o!(0), o!(1));
                out.push(Inst::InsertValue(d, x, y, idx));
            }
            68 => { let x = o!(0); out.push(Inst::Copy(d, x)); }
            55 => {}
            56 => { let (p, x, y, t) = (o!(0), o!(1), o!(2), t!(1)); out.push(Inst::CmpXchg(t, d, p, x, y)); }
            57 => {
                let r = match LLVMGetAtomicRMWBinOp(i) { 0 => RmwOp::Xchg, 1 => RmwOp::Add, 2 => RmwOp::Sub, 3 => RmwOp::And, 5 => RmwOp::Or, 6 => RmwOp::Xor, _ => { unsup(out); return } };
                let (p, x) = (o!(0), o!(1));
                out.push(Inst::Rmw(r, ty, d, p, x));
            }
            58 | 59 => out.push(Inst::Unreachable), // resume, landingpad: never executed (no unwinding)
            _ => unsup(out),
        }
        let _ = LLVMIsATerminatorInst;
    }
}
