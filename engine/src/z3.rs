//! Minimal binding to Z3's C API and the translation of expressions to Z3 terms.
use crate::expr::*;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {}", m.to_string_lossy());
    std::process::exit(3);
}

pub struct Z3 {
    c: P,
    s: P,
    bv: FxMap<u32, P>,   // expression -> bit-vector term
    bl: FxMap<u32, P>,   // width-1 expression -> boolean term
    sorts: FxMap<u32, P>,
    stack: Vec<E>,       // constraints currently asserted, one scope each
    pub time_ns: u128,
    pub checks: u64,
    /// directory to write queries to as SMT-LIB, and how many queries lie between two written
    pub log: Option<(String, u64)>,
}

pub enum Sat { Unsat, Sat(Vec<(u32, u64)>), Unknown }

pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let t = format!("{}\0", rlimit);
            Z3_set_param_value(cfg, b"rlimit\0".as_ptr() as *const c_char, t.as_ptr() as *const c_char);
            Z3_set_param_value(cfg, b"timeout\0".as_ptr() as *const c_char, b"60000\0".as_ptr() as *const c_char);
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, bv: Default::default(), bl: Default::default(), sorts: Default::default(), stack: vec![], time_ns: 0, checks: 0, log: None }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        if let Some(p) = self.sorts.get(&w) { return *p; }
        let p = unsafe { Z3_mk_bv_sort(self.c, w) };
        self.sorts.insert(w, p);
        p
    }
    fn boolean(&mut self, e: E) -> P {
        if let Some(p) = self.bl.get(&e.0) { return *p; }
        let n = node(e);
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Const => if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Eq if width(n.a) == 1 => { let a = self.boolean(n.a); let b = self.boolean(n.b); Z3_mk_eq(c, a, b) }
                Op::Eq => { let a = self.term(n.a); let b = self.term(n.b); Z3_mk_eq(c, a, b) }
                Op::Ult => { let a = self.term(n.a); let b = self.term(n.b); Z3_mk_bvult(c, a, b) }
                Op::Ule => { let a = self.term(n.a); let b = self.term(n.b); Z3_mk_bvule(c, a, b) }
                Op::Slt => { let a = self.term(n.a); let b = self.term(n.b); Z3_mk_bvslt(c, a, b) }
                Op::Sle => { let a = self.term(n.a); let b = self.term(n.b); Z3_mk_bvsle(c, a, b) }
                Op::And => { let v = [self.boolean(n.a), self.boolean(n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.boolean(n.a), self.boolean(n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor => {
                    let a = self.boolean(n.a);
                    if as_const(n.b) == Some(1) { Z3_mk_not(c, a) } else { let b = self.boolean(n.b); Z3_mk_xor(c, a, b) }
                }
                Op::Ite => { let a = self.boolean(n.a); let b = self.boolean(n.b); let d = self.boolean(n.c); Z3_mk_ite(c, a, b, d) }
                _ => { let t = self.term(e); let s = self.sort(1); let one = Z3_mk_unsigned_int64(c, 1, s); Z3_mk_eq(c, t, one) }
            }
        };
        self.bl.insert(e.0, p);
        p
    }
    fn term(&mut self, e: E) -> P {
        if let Some(p) = self.bv.get(&e.0) { return *p; }
        let n = node(e);
        let c = self.c;
        let boolish = n.w == 1 && matches!(n.op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::And | Op::Or | Op::Xor | Op::Ite);
        let p = unsafe {
            if boolish {
                let b = self.boolean(e);
                let s = self.sort(1);
                let one = Z3_mk_unsigned_int64(c, 1, s);
                let zero = Z3_mk_unsigned_int64(c, 0, s);
                Z3_mk_ite(c, b, one, zero)
            } else {
                match n.op {
                    Op::Const => { let s = self.sort(n.w); Z3_mk_unsigned_int64(c, n.k, s) }
                    Op::Var => { let s = self.sort(n.w); let y = Z3_mk_int_symbol(c, n.k as c_int); Z3_mk_const(c, y, s) }
                    Op::Ite => { let a = self.boolean(n.a); let b = self.term(n.b); let d = self.term(n.c); Z3_mk_ite(c, a, b, d) }
                    Op::ZExt => { let a = self.term(n.a); Z3_mk_zero_ext(c, n.w - width(n.a), a) }
                    Op::SExt => { let a = self.term(n.a); Z3_mk_sign_ext(c, n.w - width(n.a), a) }
                    Op::Extract => { let a = self.term(n.a); Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a) }
                    op => {
                        let a = self.term(n.a);
                        let b = self.term(n.b);
                        match op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::Concat => Z3_mk_concat(c, a, b),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        self.bv.insert(e.0, p);
        p
    }
    /// Decide the conjunction of `cs`; on sat, values of `vs` (width-8 inputs or wider variables).
    pub fn check(&mut self, cs: &[E], vs: &[u32]) -> Sat {
        let t0 = std::time::Instant::now();
        self.checks += 1;
        // keep the common prefix of asserted constraints
        let mut k = 0;
        while k < self.stack.len() && k < cs.len() && self.stack[k] == cs[k] { k += 1 }
        unsafe {
            let drop = self.stack.len() - k;
            if drop > 0 { Z3_solver_pop(self.c, self.s, drop as c_uint); self.stack.truncate(k); }
            for e in &cs[k..] {
                let b = self.boolean(*e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, b);
                self.stack.push(*e);
            }
            let pre = match &self.log { Some((d, n)) if self.checks % n == 0 => {
                let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                let f = format!("{}/{}-{}", d, std::process::id(), self.checks);
                let _ = std::fs::write(format!("{}.open", f), format!("{}(check-sat)\n", t));
                Some(f)
            } _ => None };
            let r = Z3_solver_check(self.c, self.s);
            if let Some(f) = pre { let _ = std::fs::rename(format!("{}.open", f), format!("{}.{}.smt2", f, match r { 1 => "sat", -1 => "unsat", _ => "unknown" })); }
            let res = match r {
                -1 => Sat::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = Vec::with_capacity(vs.len());
                    for v in vs {
                        let t = self.term(var(*v, VARW));
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        assert!(Z3_model_eval(self.c, m, t, true, &mut o));
                        assert!(Z3_get_numeral_uint64(self.c, o, &mut val));
                        out.push((*v, val));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Sat::Sat(out)
                }
                _ => Sat::Unknown,
            };
            self.time_ns += t0.elapsed().as_nanos();
            res
        }
    }
}
/// All input variables are bytes.
pub const VARW: u32 = 8;
