//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::state::*;
use crate::z3::{Sat, Z3};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub enum End { Done, Assume, Violated, Stopped, Yield, Error(String) }
enum Res { Next, Jump, End(End) }

#[derive(Clone, Debug)]
pub struct Violation { pub task: usize, pub kind: String, pub msg: String, pub input: Vec<u8>, pub trace: Vec<String> }

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub assumed_away: u64, pub violated: u64,
    pub steps: u64, pub forks: u64,
    pub sat: u64, pub unsat: u64, pub cached: u64,
    pub asserts_const: u64, pub asserts_solver: u64,
    pub solver_ns: u64, pub max_depth: u64, pub max_vars: u64, pub max_live: u64,
}

pub struct Exec {
    pub p: &'static Program,
    pub z3: Z3,
    pub cache: HashMap<Box<[u32]>, Option<Rc<Vec<(u32, u8)>>>>,
    pub work: Vec<State>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub errors: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub asserts: BTreeMap<String, u64>,
    pub cover: Vec<u64>, // blocks of the crate under test
    pub task: usize,
    pub max_violations: usize,
    pub samples: Vec<(usize, Vec<u8>, Vec<String>)>,
    pub task_paths: u64,
    /// violations of the current task in this process
    pub task_violated: u64,
    pub gcells: Vec<Rc<Obj>>,
    pub names: Rc<HashMap<u32, String>>,
    pub deadline: std::time::Instant,
    memo: FxMap<u32, u128>,
    pub trace: bool,
    /// set when enough is known
    pub stop: Option<&'static std::sync::atomic::AtomicU64>,
    pub slice: std::time::Instant,
    /// errors per task
    pub bad: BTreeMap<usize, u64>,
}

pub fn ev(v: &Val, w: u32) -> E {
    match v {
        Val::C(k) => if w <= 64 { konst(*k, w) } else { zext(konst(*k, 64), w) },
        Val::W(k) => concat(konst((*k >> 64) as u64, w - 64), konst(*k as u64, 64)),
        Val::S(e) => *e,
        Val::A(_) => panic!("aggregate as scalar"),
    }
}
pub fn mk(e: E) -> Val {
    let n = node(e);
    if n.op == Op::Const { return Val::C(n.k); }
    if n.w > 64 {
        // concrete wide values
        if vars(e).is_empty() {
            let mut m = FxMap::default();
            let v = eval(e, &|_| 0, &mut m);
            return Val::W(v);
        }
    }
    Val::S(e)
}
fn wide(v: &Val) -> Option<u128> { match v { Val::C(k) => Some(*k as u128), Val::W(k) => Some(*k), _ => None } }
fn m128(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
fn s128(v: u128, w: u32) -> i128 { ((v << (128 - w)) as i128) >> (128 - w) }
fn of128(v: u128, w: u32) -> Val { if w <= 64 { Val::C(v as u64 & mask(w)) } else { Val::W(v & m128(w)) } }

fn op_of(b: BinOp) -> Op {
    match b { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::UDiv => Op::UDiv, BinOp::SDiv => Op::SDiv, BinOp::URem => Op::URem, BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor }
}

pub fn bin_val(b: BinOp, w: u32, x: &Val, y: &Val) -> Val {
    if let (Val::C(p), Val::C(q)) = (x, y) {
        if w <= 64 { if let Some(r) = fold(op_of(b), w, *p, *q) { return Val::C(r); } else { return Val::C(0); } }
    }
    if w > 64 {
        if let (Some(p), Some(q)) = (wide(x), wide(y)) {
            let r = match b {
                BinOp::Add => p.wrapping_add(q), BinOp::Sub => p.wrapping_sub(q), BinOp::Mul => p.wrapping_mul(q),
                BinOp::UDiv => p.checked_div(q).unwrap_or(0), BinOp::URem => p.checked_rem(q).unwrap_or(0),
                BinOp::SDiv => s128(p, w).checked_div(s128(q, w)).unwrap_or(0) as u128, BinOp::SRem => s128(p, w).checked_rem(s128(q, w)).unwrap_or(0) as u128,
                BinOp::And => p & q, BinOp::Or => p | q, BinOp::Xor => p ^ q,
                BinOp::Shl => if q >= w as u128 { 0 } else { p << q }, BinOp::LShr => if q >= w as u128 { 0 } else { p >> q },
                BinOp::AShr => if q >= w as u128 { 0 } else { (s128(p, w) >> q) as u128 },
            };
            return of128(r, w);
        }
    }
    mk(bin(op_of(b), ev(x, w), ev(y, w)))
}
pub fn cmp_val(p: Pred, w: u32, x: &Val, y: &Val) -> Val {
    if let (Some(a), Some(b)) = (wide(x), wide(y)) {
        let r = match p {
            Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
            Pred::Sgt => s128(a, w) > s128(b, w), Pred::Sge => s128(a, w) >= s128(b, w), Pred::Slt => s128(a, w) < s128(b, w), Pred::Sle => s128(a, w) <= s128(b, w),
        };
        return Val::C(r as u64);
    }
    let (a, b) = (ev(x, w), ev(y, w));
    mk(match p {
        Pred::Eq => bin(Op::Eq, a, b), Pred::Ne => not(bin(Op::Eq, a, b)),
        Pred::Ugt => bin(Op::Ult, b, a), Pred::Uge => bin(Op::Ule, b, a), Pred::Ult => bin(Op::Ult, a, b), Pred::Ule => bin(Op::Ule, a, b),
        Pred::Sgt => bin(Op::Slt, b, a), Pred::Sge => bin(Op::Sle, b, a), Pred::Slt => bin(Op::Slt, a, b), Pred::Sle => bin(Op::Sle, a, b),
    })
}
pub fn cast_val(c: CastOp, f: u32, t: u32, x: &Val) -> Val {
    if let Some(k) = wide(x) {
        return match c { CastOp::Trunc | CastOp::ZExt | CastOp::Same => of128(k, t), CastOp::SExt => of128(s128(k, f) as u128, t) };
    }
    let e = ev(x, f);
    mk(match c { CastOp::Trunc => extract(e, 0, t), CastOp::ZExt => zext(e, t), CastOp::SExt => sext(e, t), CastOp::Same => e })
}
fn fp_val(op: i32, f: u32, t: u32, v: &[Val]) -> Option<Val> {
    use crate::fp;
    if let (Val::C(x), Some(Val::C(y))) = (&v[0], v.get(1)) { return fp::arith(op, f, *x, *y).map(Val::C); }
    if v.len() != 1 || f > 64 || t > 64 { return None; }
    let e = ev(&v[0], f);
    let fl = |w: u32| w == 32 || w == 64;
    Some(mk(match op {
        66 if fl(f) => fp::neg(e),
        33 | 34 if fl(f) => fp::to_int(e, op == 34, t),
        35 | 36 if fl(t) => fp::from_int(e, op == 36, t),
        37 if (f, t) == (64, 32) => fp::trunc(e),
        38 if (f, t) == (32, 64) => fp::ext(e),
        _ => return None,
    }))
}
fn elt(t: &Ty) -> (u32, u32) { if let Ty::Vec(e, n) = t { (e.bits(), *n) } else { panic!("vector type expected, got {:?}", t) } }
fn arr(v: &Val) -> &Vec<Val> { if let Val::A(a) = v { a } else { panic!("aggregate expected, got {:?}", v) } }

impl Exec {
    // ---------------------------------------------------------------- solver
    fn eval_model(&mut self, st: &State, e: E) -> u64 {
        if let Some(k) = as_const(e) { return k; }
        self.memo.clear();
        let m = st.model.clone();
        eval(e, &|v| m[v as usize] as u64, &mut self.memo) as u64
    }
    fn is_true(&mut self, st: &State, e: E) -> bool { self.eval_model(st, e) != 0 }

    /// Is path condition and `c` satisfiable? On sat, the updated model.
    fn sat(&mut self, st: &State, c: E) -> Result<Option<Rc<Vec<u8>>>, End> {
        if let Some(k) = as_const(c) { return Ok(if k != 0 { Some(st.model.clone()) } else { None }); }
        if st.is_fixed(c) { return Ok(if self.is_true(st, c) { Some(st.model.clone()) } else { None }); }
        let mut cs: Vec<E> = vec![];
        let mut vs: Vec<u32> = vars(c).to_vec();
        for g in st.touching(c) { cs.extend(&st.groups[g].cs); vs.extend(&st.groups[g].vars); }
        // a syntactic hit needs no solver
        let neg = not(c);
        if cs.contains(&neg) { self.stats.cached += 1; return Ok(None); }
        cs.push(c);
        vs.sort_unstable();
        vs.dedup();
        let key: Box<[u32]> = cs.iter().map(|e| e.0).collect();
        let r = if let Some(r) = self.cache.get(&key) { self.stats.cached += 1; r.clone() } else {
            self.hurry()?;
            let t0 = self.z3.time_ns;
            let r = match self.z3.check(&cs, &vs) {
                Sat::Unsat => { self.stats.unsat += 1; None }
                Sat::Sat(m) => { self.stats.sat += 1; Some(Rc::new(m.into_iter().map(|(v, x)| (v, x as u8)).collect::<Vec<_>>())) }
                Sat::Unknown => return Err(End::Error("solver gave no answer within its resource limit".into())),
            };
            self.stats.solver_ns += (self.z3.time_ns - t0) as u64;
            self.cache.insert(key, r.clone());
            r
        };
        Ok(r.map(|m| {
            let mut n: Vec<u8> = (*st.model).clone();
            for (v, x) in m.iter() { n[*v as usize] = *x }
            Rc::new(n)
        }))
    }
    fn hurry(&self) -> Result<(), End> {
        if self.stop.map_or(false, |s| s.load(std::sync::atomic::Ordering::SeqCst) != 0) { return Err(End::Stopped); }
        if std::time::Instant::now() > self.deadline { return Err(End::Error("time limit".into())); }
        Ok(())
    }
    /// Decide a branch; forks when both sides are possible. Returns the side this state takes.
    fn branch(&mut self, st: &mut State, c: E) -> Result<bool, End> {
        if let Some(k) = as_const(c) { return Ok(k != 0); }
        let side = self.is_true(st, c);
        if st.is_fixed(c) { return Ok(side); }
        let (mine, other) = if side { (c, not(c)) } else { (not(c), c) };
        if let Some(m) = self.sat(st, other)? {
            let mut alt = st.clone();
            alt.add(other);
            alt.model = m;
            alt.forks += 1;
            self.stats.forks += 1;
            self.work.push(alt); // re-executes the same instruction and then decides the other way
            st.add(mine);
            st.forks += 1;
        }
        Ok(side)
    }
    /// A concrete value for e; the other values are explored by forked states.
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> Result<u64, End> {
        let e = match v { Val::C(k) => return Ok(*k), Val::W(k) => return Ok(*k as u64), Val::S(e) => *e, _ => panic!("conc") };
        let k = self.eval_model(st, e);
        if st.is_fixed(e) { return Ok(k); }
        let eq = bin(Op::Eq, e, konst(k, w));
        let ne = not(eq);
        if let Some(m) = self.sat(st, ne)? {
            let mut alt = st.clone();
            alt.add(ne);
            alt.model = m;
            alt.forks += 1;
            self.stats.forks += 1;
            self.work.push(alt);
            st.add(eq);
            st.forks += 1;
        }
        Ok(k)
    }

    // ---------------------------------------------------------------- memory
    fn split(&self, a: u64) -> (u32, i64) { ((a >> 32) as u32, (a & 0xffff_ffff) as i64 - BIAS as i64) }

    fn obj<'a>(&self, st: &'a State, a: u64, n: u64) -> Result<(&'a Rc<Obj>, usize), End> {
        let (id, off) = self.split(a);
        match st.heap.get(id) {
            Some(o) if off >= 0 && (off as u64 + n <= o.data.len() as u64 || o.symsize.is_some()) => Ok((o, off as usize)),
            Some(o) => Err(End::Error(format!("out-of-bounds access: object {} ({:?}, {} bytes) offset {} length {}", id, o.kind, o.data.len(), off, n))),
            None => Err(End::Error(format!("access to no object: {:#x} length {}", a, n))),
        }
    }
    fn obj_mut<'a>(&self, st: &'a mut State, a: u64, n: u64) -> Result<(&'a mut Obj, usize), End> {
        let (id, off) = self.split(a);
        match st.heap.get_mut(id) {
            Some(o) => {
                if o.konst { return Err(End::Error("write to a constant".into())); }
                if off >= 0 && off as u64 + n <= o.data.len() as u64 { return Ok((o, off as usize)); }
                if off >= 0 && o.symsize.is_some() && off as u64 + n < (1 << 28) { o.ensure(off as usize + n as usize); return Ok((o, off as usize)); }
                Err(End::Error(format!("out-of-bounds write: object {} ({:?}, {} bytes) offset {} length {}", id, o.kind, o.data.len(), off, n)))
            }
            None => Err(End::Error(format!("write to no object: {:#x} length {}", a, n))),
        }
    }
    fn load_int(&self, st: &State, a: u64, w: u32) -> Result<Val, End> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = self.obj(st, a, n as u64)?;
        if o.sym.is_empty() || (off + n <= o.sym.len() && o.sym[off..off + n].iter().all(|x| *x == CONC)) {
            let mut b = [0u8; 16];
            for i in 0..n { if off + i < o.data.len() { b[i] = o.data[off + i] } }
            let v = u128::from_le_bytes(b);
            return Ok(of128(v, w));
        }
        let mut e = o.byte(off);
        for i in 1..n { e = concat(o.byte(off + i), e); }
        Ok(mk(if w % 8 != 0 { extract(e, 0, w) } else { e }))
    }
    fn load(&self, st: &State, a: u64, t: &Ty) -> Result<Val, End> {
        Ok(match t {
            Ty::Void => Val::C(0),
            Ty::Int(w) => self.load_int(st, a, *w)?,
            Ty::Vec(e, n) => {
                let s = e.size();
                if e.bits() == 1 { return Err(End::Error("load of a bit vector".into())); }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n { v.push(self.load(st, a + i as u64 * s, e)?) }
                Val::A(Rc::new(v))
            }
            Ty::Arr(e, n, s) => {
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n { v.push(self.load(st, a + i * s, e)?) }
                Val::A(Rc::new(v))
            }
            Ty::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for (t, o) in f.iter() { v.push(self.load(st, a + o, t)?) }
                Val::A(Rc::new(v))
            }
        })
    }
    fn store(&self, st: &mut State, a: u64, t: &Ty, v: &Val) -> Result<(), End> {
        match t {
            Ty::Void => {}
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as usize;
                let (o, off) = self.obj_mut(st, a, n as u64)?;
                match v {
                    Val::C(_) | Val::W(_) => {
                        let b = wide(v).unwrap().to_le_bytes();
                        o.data[off..off + n].copy_from_slice(&b[..n]);
                        if !o.sym.is_empty() { for x in &mut o.sym[off..off + n] { *x = CONC } }
                    }
                    Val::S(e) => {
                        let e = if *w % 8 != 0 { zext(*e, n as u32 * 8) } else { *e };
                        for i in 0..n {
                            let b = extract(e, i as u32 * 8, 8);
                            if let Some(k) = as_const(b) {
                                o.data[off + i] = k as u8;
                                if !o.sym.is_empty() { o.sym[off + i] = CONC }
                            } else { o.set_sym(off + i, b) }
                        }
                    }
                    Val::A(_) => return Err(End::Error("store of aggregate as scalar".into())),
                }
            }
            Ty::Vec(e, _) => {
                if e.bits() == 1 { return Err(End::Error("store of a bit vector".into())); }
                let s = e.size();
                for (i, x) in arr(v).iter().enumerate() { self.store(st, a + i as u64 * s, e, x)? }
            }
            Ty::Arr(e, _, s) => for (i, x) in arr(v).iter().enumerate() { self.store(st, a + i as u64 * s, e, x)? },
            Ty::Struct(f, _) => for (x, (t, o)) in arr(v).iter().zip(f.iter()) { self.store(st, a + o, t, x)? },
        }
        Ok(())
    }
    fn copy(&self, st: &mut State, d: u64, s: u64, n: u64) -> Result<(), End> {
        st.steps += n / 16; // moving memory is work, too
        if n == 0 { return Ok(()); }
        let (data, sym) = {
            let (o, off) = self.obj(st, s, n)?;
            let n = n as usize;
            let mut data = vec![0u8; n];
            let avail = o.data.len().saturating_sub(off).min(n);
            data[..avail].copy_from_slice(&o.data[off..off + avail]);
            let sym = if o.sym.is_empty() { None } else {
                let mut sy = vec![CONC; n];
                sy[..avail].copy_from_slice(&o.sym[off..off + avail]);
                if sy.iter().all(|x| *x == CONC) { None } else { Some(sy) }
            };
            (data, sym)
        };
        let (o, off) = self.obj_mut(st, d, n)?;
        let n = n as usize;
        o.data[off..off + n].copy_from_slice(&data);
        match sym {
            Some(sy) => { if o.sym.is_empty() { o.sym = vec![CONC; o.data.len()] } o.sym[off..off + n].copy_from_slice(&sy); }
            None => if !o.sym.is_empty() { for x in &mut o.sym[off..off + n] { *x = CONC } },
        }
        Ok(())
    }
    fn cmp_mem(&self, st: &State, a: u64, b: u64, n: u64, order: bool) -> Result<Val, End> {
        if n == 0 { return Ok(Val::C(0)); }
        let (x, xo) = self.obj(st, a, n)?;
        let (y, yo) = self.obj(st, b, n)?;
        let n = n as usize;
        let mut acc = konst(0, 32);
        if !order {
            let mut eq = tru();
            for i in 0..n {
                eq = bin(Op::And, eq, bin(Op::Eq, x.byte(xo + i), y.byte(yo + i)));
                if as_const(eq) == Some(0) { return Ok(Val::C(1)); }
            }
            return Ok(mk(ite(eq, konst(0, 32), konst(1, 32))));
        }
        for i in (0..n).rev() {
            let (p, q) = (x.byte(xo + i), y.byte(yo + i));
            acc = ite(bin(Op::Eq, p, q), acc, ite(bin(Op::Ult, p, q), konst(0xffff_ffff, 32), konst(1, 32)));
        }
        Ok(mk(acc))
    }
    fn bytes_at(&self, st: &State, a: u64, n: u64) -> Result<Vec<u8>, End> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.obj(st, a, n)?;
        Ok(o.data[off..off + n as usize].to_vec())
    }
    fn text(&self, st: &State, a: u64, n: u64) -> String { self.bytes_at(st, a, n).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default() }

    // ---------------------------------------------------------------- reports
    fn violation(&mut self, st: &State, model: &[u8], kind: &str, msg: String) {
        let mut trace: Vec<String> = vec![];
        for f in st.frames.iter().map(|f| f.f).chain(std::iter::once(st.top.f)) { trace.push(crate::llvm::pretty(&f.name)); }
        if trace.len() > 40 { let n = trace.len(); trace.drain(20..n - 20); }
        self.stats.violated += 1;
        self.task_violated += 1;
        if self.violations.iter().filter(|v| v.task == self.task && v.kind == kind && v.msg == msg).count() < 2 {
            self.violations.push(Violation { task: self.task, kind: kind.into(), msg, input: model[..st.nvars as usize].to_vec(), trace });
        }
    }

    // ---------------------------------------------------------------- run
    pub fn start(&mut self, entry: u32, case: u64) {
        let f: &'static Func = self.p.funcs[entry as usize].as_ref().unwrap();
        let mut heap = Heap::new();
        heap.skip();
        for g in &self.p.globals {
            let mut o = Obj::new(0, Kind::Global);
            o.data = g.data.clone();
            o.konst = g.konst;
            heap.add(o);
        }
        let mut slots = vec![Val::C(0); f.nslots as usize];
        if f.nparams > 0 { slots[0] = Val::C(case); }
        let st = State {
            top: Frame { f, block: 0, ip: 0, slots, allocas: vec![], ret: None },
            frames: vec![], heap, groups: vec![], vgroup: Rc::new(vec![]), nvars: 0, fixed: Rc::new(vec![]), model: Rc::new(vec![]),
            live: 0, live_sym: None, peak: 0, budget: None, depth_limit: 0, step_limit: 0, hash_mode: 0, forks: 0, steps: 0, reached: vec![],
        };
        self.work.push(st);
    }

    /// Runs one state to its end, or puts it back when its time slice is over.
    pub fn run(&mut self, mut st: State, slice: std::time::Instant) {
        self.enter_block(&st);
        self.slice = slice;
        let mut ticks = 0u32;
        let end = loop {
            match self.step(&mut st) {
                Ok(Res::Next) => st.top.ip += 1,
                Ok(Res::Jump) => self.enter_block(&st),
                Err(End::Yield) => { self.work.push(st); return; }
                Ok(Res::End(e)) | Err(e) => break e,
            }
            st.steps += 1;
            if st.step_limit != 0 && st.steps > st.step_limit {
                let m = st.model.clone();
                self.violation(&st, &m, "steps", "does not terminate within the step limit".into());
                break End::Violated;
            }
            ticks += 1;
            if ticks & 0x1ff == 0 {
                if self.stop.map_or(false, |s| s.load(std::sync::atomic::Ordering::SeqCst) != 0) { break End::Stopped; }
                let now = std::time::Instant::now();
                if now > self.deadline { break End::Error("time limit".into()); }
                if now > slice { self.work.push(st); return; }
            }
        };
        self.stats.steps += st.steps;
        self.stats.max_vars = self.stats.max_vars.max(st.nvars as u64);
        self.stats.max_live = self.stats.max_live.max(st.peak);
        match end {
            End::Done => {
                self.stats.paths += 1;
                self.task_paths += 1;
                // completed paths to run natively: the first, then ever sparser
                if self.task_paths.is_power_of_two() && self.samples.len() < 4096 && st.nvars < 100_000 {
                    self.samples.push((self.task, st.model[..st.nvars as usize].to_vec(), st.reached.iter().map(|r| r.to_string()).collect()));
                }
            }
            End::Assume => self.stats.assumed_away += 1,
            End::Violated | End::Stopped | End::Yield => {}
            End::Error(e) => {
                *self.bad.entry(self.task).or_insert(0) += 1;
                let at = crate::llvm::pretty(&st.top.f.name);
                let mut tr: Vec<String> = st.frames.iter().rev().take(4).map(|f| crate::llvm::pretty(&f.f.name)).collect();
                tr.insert(0, at);
                *self.errors.entry(format!("{} in {}", e, tr.join(" < "))).or_insert(0) += 1;
            }
        }
    }
    #[inline]
    fn enter_block(&mut self, st: &State) {
        if st.top.f.ours {
            let b = (st.top.f.block_base + st.top.block) as usize;
            self.cover[b / 64] |= 1 << (b % 64);
        }
    }

    #[inline]
    fn opv<'a>(st: &'a State, o: &'a Opnd) -> &'a Val { match o { Opnd::R(i) => &st.top.slots[*i as usize], Opnd::K(v) => v } }
    #[inline]
    fn set(st: &mut State, d: u32, v: Val) { st.top.slots[d as usize] = v }

    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.top.block;
        let b = &st.top.f.blocks[to as usize];
        if b.phis.len() == 1 {
            let (d, inc) = &b.phis[0];
            let v = inc.iter().find(|(p, _)| *p == from).map(|(_, o)| Self::opv(st, o).clone()).expect("phi");
            Self::set(st, *d, v);
        } else if !b.phis.is_empty() {
            let vs: Vec<Val> = b.phis.iter().map(|(_, inc)| inc.iter().find(|(p, _)| *p == from).map(|(_, o)| Self::opv(st, o).clone()).expect("phi")).collect();
            for ((d, _), v) in b.phis.iter().zip(vs) { Self::set(st, *d, v); }
        }
        st.top.block = to;
        st.top.ip = 0;
    }

    fn step(&mut self, st: &mut State) -> Result<Res, End> {
        let f: &'static Func = st.top.f;
        let inst: &'static Inst = &f.blocks[st.top.block as usize].insts[st.top.ip as usize];
        match inst {
            Inst::Bin(b, t, d, x, y) => {
                let (p, q) = (Self::opv(st, x), Self::opv(st, y));
                let r = match t {
                    Ty::Int(w) => bin_val(*b, *w, p, q),
                    _ => { let (w, _) = elt(t); Val::A(Rc::new(arr(p).iter().zip(arr(q)).map(|(a, c)| bin_val(*b, w, a, c)).collect())) }
                };
                Self::set(st, *d, r);
            }
            Inst::Cmp(pr, t, d, x, y) => {
                let (p, q) = (Self::opv(st, x), Self::opv(st, y));
                let r = match t {
                    Ty::Int(w) => cmp_val(*pr, *w, p, q),
                    _ => { let (w, _) = elt(t); Val::A(Rc::new(arr(p).iter().zip(arr(q)).map(|(a, c)| cmp_val(*pr, w, a, c)).collect())) }
                };
                Self::set(st, *d, r);
            }
            Inst::Cast(c, from, to, d, x) => {
                let p = Self::opv(st, x);
                let r = match to {
                    Ty::Int(w) => cast_val(*c, from.bits(), *w, p),
                    _ => { let (w, _) = elt(to); let (fw, _) = elt(from); Val::A(Rc::new(arr(p).iter().map(|a| cast_val(*c, fw, w, a)).collect())) }
                };
                Self::set(st, *d, r);
            }
            Inst::FCmp(pr, t, d, x, y) => {
                let (p, q) = (Self::opv(st, x), Self::opv(st, y));
                let r = match t {
                    Ty::Int(w) => mk(crate::fp::cmp(*pr, ev(p, *w), ev(q, *w))),
                    _ => { let (w, _) = elt(t); Val::A(Rc::new(arr(p).iter().zip(arr(q)).map(|(a, c)| mk(crate::fp::cmp(*pr, ev(a, w), ev(c, w)))).collect())) }
                };
                Self::set(st, *d, r);
            }
            Inst::Fp(op, from, to, d, xs) => {
                let v: Vec<Val> = xs.iter().map(|o| Self::opv(st, o).clone()).collect();
                let r = match (from, to) {
                    (Ty::Int(f), Ty::Int(t)) => fp_val(*op, *f, *t, &v),
                    _ => {
                        let ((f, _), (t, n)) = (elt(from), elt(to));
                        (0..n as usize).map(|i| fp_val(*op, f, t, &v.iter().map(|x| arr(x)[i].clone()).collect::<Vec<_>>())).collect::<Option<Vec<_>>>().map(|x| Val::A(Rc::new(x)))
                    }
                };
                match r { Some(r) => Self::set(st, *d, r), None => return Err(End::Error("unsupported: floating-point arithmetic on an unknown value".into())) }
            }
            Inst::BitCast(from, to, d, x) => {
                let p = Self::opv(st, x).clone();
                let r = if from == to { p } else { Self::bitcast(from, to, &p) };
                Self::set(st, *d, r);
            }
            Inst::Select(t, vc, d, c, x, y) => {
                // a choice between two known lengths, offsets or addresses: both are followed separately, so that what depends on them stays known
                if let (Ty::Int(64), Val::S(c), Val::C(p), Val::C(q)) = (t, Self::opv(st, c), Self::opv(st, x), Self::opv(st, y)) {
                    let (c, p, q) = (*c, *p, *q);
                    if p != q {
                        let side = self.branch(st, c)?;
                        Self::set(st, *d, Val::C(if side { p } else { q }));
                        return Ok(Res::Next);
                    }
                }
                let r = if *vc {
                    let (w, _) = elt(t);
                    let (c, p, q) = (arr(Self::opv(st, c)), arr(Self::opv(st, x)), arr(Self::opv(st, y)));
                    Val::A(Rc::new((0..c.len()).map(|i| sel(w, &c[i], &p[i], &q[i])).collect()))
                } else {
                    match Self::opv(st, c) {
                        Val::C(k) => if *k & 1 != 0 { Self::opv(st, x).clone() } else { Self::opv(st, y).clone() },
                        c => { let c = c.clone(); sel_ty(t, &c, Self::opv(st, x), Self::opv(st, y)) }
                    }
                };
                Self::set(st, *d, r);
            }
            Inst::Load(t, d, p) => {
                let a = Self::opv(st, p).clone();
                let r = match a {
                    Val::C(a) => self.load(st, a, t)?,
                    Val::S(e) => self.load_sym(st, e, t)?,
                    _ => return Err(End::Error("load from aggregate".into())),
                };
                Self::set(st, *d, r);
            }
            Inst::Store(t, v, p) => {
                let a = Self::opv(st, p).clone();
                let a = self.conc(st, &a, 64)?;
                let v = Self::opv(st, v).clone();
                self.store(st, a, t, &v)?;
            }
            Inst::Gep(d, b, off, terms) => {
                let r = match Self::opv(st, b) {
                    Val::C(k) if terms.iter().all(|(_, o, _)| matches!(Self::opv(st, o), Val::C(_))) => {
                        let mut r = k.wrapping_add(*off as u64);
                        for (s, o, w) in terms { if let Val::C(k) = Self::opv(st, o) { r = r.wrapping_add((*s as u64).wrapping_mul(sext64(*k, *w) as u64)) } }
                        Val::C(r)
                    }
                    b => {
                        let mut r = bin(Op::Add, ev(b, 64), konst(*off as u64, 64));
                        for (s, o, w) in terms {
                            let i = sext(ev(Self::opv(st, o), *w), 64);
                            r = bin(Op::Add, r, bin(Op::Mul, i, konst(*s as u64, 64)));
                        }
                        mk(r)
                    }
                };
                Self::set(st, *d, r);
            }
            Inst::Alloca(d, sz, n) => {
                let n = match Self::opv(st, n) { Val::C(k) => *k, _ => return Err(End::Error("symbolic alloca".into())) };
                let id = st.heap.add(Obj::new(sz * n, Kind::Stack));
                st.top.allocas.push(id);
                Self::set(st, *d, Val::C(addr_of(id, 0)));
            }
            Inst::ExtractValue(d, x, idx) => {
                let mut v = Self::opv(st, x).clone();
                for i in idx { v = arr(&v)[*i as usize].clone(); }
                Self::set(st, *d, v);
            }
            Inst::InsertValue(d, x, y, idx) => {
                let v = Self::opv(st, x).clone();
                let y = Self::opv(st, y).clone();
                let r = insert(v, &y, idx);
                Self::set(st, *d, r);
            }
            Inst::ExtractElt(d, x, i) => {
                let i = Self::opv(st, i).clone();
                let i = self.conc(st, &i, 64)?;
                let v = arr(Self::opv(st, x))[i as usize].clone();
                Self::set(st, *d, v);
            }
            Inst::InsertElt(d, x, y, i) => {
                let i = Self::opv(st, i).clone();
                let i = self.conc(st, &i, 64)?;
                let mut v = arr(Self::opv(st, x)).clone();
                v[i as usize] = Self::opv(st, y).clone();
                Self::set(st, *d, Val::A(Rc::new(v)));
            }
            Inst::Shuffle(d, x, y, m, t) => {
                let (w, _) = elt(t);
                let (a, b) = (arr(Self::opv(st, x)), arr(Self::opv(st, y)));
                let z = Ty::Int(w).zero();
                let v = m.iter().map(|k| if *k < 0 { z.clone() } else if (*k as usize) < a.len() { a[*k as usize].clone() } else { b[*k as usize - a.len()].clone() }).collect();
                Self::set(st, *d, Val::A(Rc::new(v)));
            }
            Inst::Copy(d, x) => { let v = Self::opv(st, x).clone(); Self::set(st, *d, v); }
            Inst::Rmw(op, t, d, p, x) => {
                let a = Self::opv(st, p).clone();
                let a = self.conc(st, &a, 64)?;
                let old = self.load(st, a, t)?;
                let x = Self::opv(st, x).clone();
                let w = t.bits();
                let new = match op { RmwOp::Xchg => x, RmwOp::Add => bin_val(BinOp::Add, w, &old, &x), RmwOp::Sub => bin_val(BinOp::Sub, w, &old, &x),
                    RmwOp::And => bin_val(BinOp::And, w, &old, &x), RmwOp::Or => bin_val(BinOp::Or, w, &old, &x), RmwOp::Xor => bin_val(BinOp::Xor, w, &old, &x) };
                self.store(st, a, t, &new)?;
                Self::set(st, *d, old);
            }
            Inst::CmpXchg(t, d, p, x, y) => {
                let a = Self::opv(st, p).clone();
                let a = self.conc(st, &a, 64)?;
                let old = self.load(st, a, t)?;
                let eq = cmp_val(Pred::Eq, t.bits(), &old, Self::opv(st, x));
                let ok = self.conc(st, &eq, 1)?;
                if ok != 0 { let y = Self::opv(st, y).clone(); self.store(st, a, t, &y)?; }
                Self::set(st, *d, Val::A(Rc::new(vec![old, Val::C(ok)])));
            }
            Inst::Br(b) => { self.jump(st, *b); return Ok(Res::Jump); }
            Inst::CondBr(c, t, e) => {
                let side = match Self::opv(st, c) { Val::C(k) => *k & 1 != 0, Val::S(c) => { let c = *c; self.branch(st, c)? } _ => return Err(End::Error("branch".into())) };
                self.jump(st, if side { *t } else { *e });
                return Ok(Res::Jump);
            }
            Inst::Switch(v, w, def, cases) => {
                let to = match Self::opv(st, v) {
                    Val::C(k) => cases.iter().find(|(c, _)| c == k).map(|(_, b)| *b).unwrap_or(*def),
                    Val::S(e) => { let e = *e; self.switch(st, e, *w, *def, cases)? }
                    _ => return Err(End::Error("switch".into())),
                };
                self.jump(st, to);
                return Ok(Res::Jump);
            }
            Inst::Call(d, t, callee, args, atys) => return self.call(st, *d, t, callee, args, atys),
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| Self::opv(st, o).clone());
                for a in std::mem::take(&mut st.top.allocas) { st.heap.free(a) }
                let ret = st.top.ret;
                match st.frames.pop() {
                    None => return Ok(Res::End(End::Done)),
                    Some(fr) => {
                        st.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        if let (Some(d), Some(v)) = (ret, v) { Self::set(st, d, v); }
                        // ip still points at the call
                    }
                }
            }
            Inst::Unreachable => return Err(End::Error("unreachable code reached".into())),
            Inst::Unsupported(s) => return Err(End::Error(format!("unsupported: {}", s))),
        }
        Ok(Res::Next)
    }

    fn switch(&mut self, st: &mut State, e: E, w: u32, def: u32, cases: &'static [(u64, u32)]) -> Result<u32, End> {
        // condition of each distinct target
        let mut conds: Vec<(u32, E)> = vec![];
        let mut pos: FxMap<u32, usize> = Default::default();
        let mut anydef = tru();
        for (k, b) in cases {
            let c = bin(Op::Eq, e, konst(*k, w));
            anydef = bin(Op::And, anydef, not(c));
            if *b == def { continue; }
            if let Some(i) = pos.get(b) { conds[*i].1 = bin(Op::Or, conds[*i].1, c); } else { pos.insert(*b, conds.len()); conds.push((*b, c)); }
        }
        // the default also takes the cases that jump to it
        for (k, b) in cases { if *b == def { anydef = bin(Op::Or, anydef, bin(Op::Eq, e, konst(*k, w))); } }
        conds.push((def, anydef));
        let mut mine = None;
        for (b, c) in &conds { if self.is_true(st, *c) { mine = Some((*b, *c)); break; } }
        let (mb, mc) = mine.ok_or_else(|| End::Error("switch without target".into()))?;
        let mut forked = false;
        for (b, c) in conds.iter().rev() {
            if *b == mb { continue; }
            if let Some(m) = self.sat(st, *c)? {
                let mut alt = st.clone();
                alt.add(*c);
                alt.model = m;
                alt.forks += 1;
                self.stats.forks += 1;
                self.jump(&mut alt, *b);
                self.work.push(alt);
                forked = true;
            }
        }
        if forked { st.add(mc); st.forks += 1; }
        Ok(mb)
    }

    fn load_sym(&mut self, st: &mut State, e: E, t: &Ty) -> Result<Val, End> {
        if let Ty::Int(w) = t {
            // collect the feasible addresses; one object only
            let mut vals: Vec<u64> = vec![];
            let mut excl = tru();
            let mut done = false;
            while vals.len() < 300 {
                // an instruction without effects: it can be taken up again, and finds the answers so far in the cache
                if std::time::Instant::now() > self.slice { return Err(End::Yield); }
                match self.sat(st, excl)? {
                    None => { done = true; break; }
                    Some(m) => {
                        self.memo.clear();
                        let a = eval(e, &|v| m[v as usize] as u64, &mut self.memo) as u64;
                        vals.push(a);
                        if vals[0] >> 32 != a >> 32 { break; }
                        excl = bin(Op::And, excl, not(bin(Op::Eq, e, konst(a, 64))));
                    }
                }
            }
            if done && !vals.is_empty() {
                let mut r: Option<E> = None;
                for a in &vals {
                    let v = ev(&self.load_int(st, *a, *w)?, *w);
                    r = Some(match r { None => v, Some(x) => ite(bin(Op::Eq, e, konst(*a, 64)), v, x) });
                }
                return Ok(mk(r.unwrap()));
            }
        }
        let a = self.conc(st, &Val::S(e), 64)?;
        self.load(st, a, t)
    }

    fn bitcast(from: &Ty, to: &Ty, v: &Val) -> Val {
        // through a little-endian bit string
        fn flat(t: &Ty, v: &Val, out: &mut Vec<(E, u32)>) {
            match t { Ty::Int(w) => out.push((ev(v, *w), *w)), Ty::Vec(e, _) => for x in arr(v) { flat(e, x, out) }, _ => panic!("bitcast") }
        }
        let mut parts = vec![];
        flat(from, v, &mut parts);
        let take = |lo: u32, w: u32| -> E {
            let mut r: Option<E> = None;
            let mut p = 0;
            for (e, pw) in &parts {
                let (a, b) = (p.max(lo), (p + pw).min(lo + w));
                if a < b { let x = extract(*e, a - p, b - a); r = Some(match r { None => x, Some(l) => concat(x, l) }); }
                p += pw;
            }
            r.unwrap()
        };
        match to {
            Ty::Int(w) => mk(take(0, *w)),
            Ty::Vec(e, n) => { let w = e.bits(); Val::A(Rc::new((0..*n).map(|i| mk(take(i * w, w))).collect())) }
            _ => panic!("bitcast"),
        }
    }

    // ---------------------------------------------------------------- calls
    fn call(&mut self, st: &mut State, d: Option<u32>, t: &'static Ty, callee: &'static Callee, args: &'static [Opnd], atys: &'static [Ty]) -> Result<Res, End> {
        let (idx, name): (Option<u32>, &str) = match callee {
            Callee::Fn(i) => (Some(*i), ""),
            Callee::Ext(n) => (None, n),
            Callee::Ptr(p) => {
                let a = Self::opv(st, p).clone();
                let a = self.conc(st, &a, 64)?;
                if a < FN_BASE { return Err(End::Error(format!("call of a non-function {:#x}", a))); }
                let i = ((a - FN_BASE) / 16) as usize;
                if i >= self.p.funcs.len() { return Err(End::Error("call of a non-function".into())); }
                if self.p.funcs[i].is_some() { (Some(i as u32), "") } else { (None, self.p.fnames[i].as_str()) }
            }
        };
        if let Some(i) = idx {
            let f: &'static Func = self.p.funcs[i as usize].as_ref().unwrap();
            let mut slots = vec![Val::C(0); f.nslots as usize];
            for (k, a) in args.iter().take(f.nparams as usize).enumerate() { slots[k] = Self::opv(st, a).clone(); }
            let depth = st.frames.len() as u64 + 2;
            if depth > self.stats.max_depth { self.stats.max_depth = depth; }
            if st.depth_limit != 0 && depth > st.depth_limit as u64 {
                let m = st.model.clone();
                self.violation(st, &m, "depth", format!("call depth exceeds {}", st.depth_limit));
                return Ok(Res::End(End::Violated));
            }
            if depth > 100_000 { return Err(End::Error("call depth".into())); }
            let old = std::mem::replace(&mut st.top, Frame { f, block: 0, ip: 0, slots, allocas: vec![], ret: d });
            st.frames.push(Rc::new(old));
            return Ok(Res::Jump);
        }
        let a: Vec<Val> = args.iter().map(|o| Self::opv(st, o).clone()).collect();
        let r = self.external(st, name, &a, atys, t)?;
        match r {
            Ok(v) => { if let Some(d) = d { Self::set(st, d, v); } Ok(Res::Next) }
            Err(e) => Ok(Res::End(e)),
        }
    }

    fn alloc(&mut self, st: &mut State, size: &Val, old: u64) -> Result<Result<u64, End>, End> {
        if let Some(b) = st.budget {
            // would the live heap exceed the budget?
            match size {
                Val::C(n) if st.live_sym.is_none() => {
                    if st.live - old + n > b {
                        let m = st.model.clone();
                        self.violation(st, &m, "memory", format!("live heap of {} bytes exceeds {}", st.live - old + n, b));
                        return Ok(Err(End::Violated));
                    }
                }
                _ => {
                    let tot = bin(Op::Add, bin(Op::Add, st.live_sym.unwrap_or(konst(0, 64)), konst(st.live - old, 64)), ev(size, 64));
                    let over = bin(Op::Ult, konst(b, 64), tot);
                    if let Some(m) = self.sat(st, over)? {
                        self.memo.clear();
                        let v = eval(tot, &|v| m[v as usize] as u64, &mut self.memo) as u64;
                        self.violation(st, &m, "memory", format!("live heap of {} bytes exceeds {}", v, b));
                        let ok = not(over);
                        match self.sat(st, ok)? { None => return Ok(Err(End::Violated)), Some(m) => { st.add(ok); st.model = m; } }
                    }
                }
            }
        }
        let id = match size {
            Val::C(n) => {
                if *n > (1 << 28) { return Err(End::Error(format!("allocation of {} bytes", n))); }
                st.live = st.live - old + n;
                st.peak = st.peak.max(st.live);
                st.heap.add(Obj::new(*n, Kind::Heap))
            }
            v => {
                st.live -= old;
                let e = ev(v, 64);
                st.live_sym = Some(match st.live_sym { None => e, Some(x) => bin(Op::Add, x, e) });
                let mut o = Obj::new(0, Kind::Heap);
                o.symsize = Some(e);
                st.heap.add(o)
            }
        };
        Ok(Ok(addr_of(id, 0)))
    }
    fn dealloc(&mut self, st: &mut State, a: u64) -> Result<(), End> {
        let (id, off) = self.split(a);
        match st.heap.get(id) {
            Some(o) if off == 0 && o.kind == Kind::Heap => {
                match o.symsize {
                    Some(e) => { st.live_sym = st.live_sym.map(|x| bin(Op::Sub, x, e)); if st.live_sym.and_then(as_const) == Some(0) { st.live_sym = None } }
                    None => st.live -= o.data.len() as u64,
                }
                st.heap.free(id);
                Ok(())
            }
            _ => Err(End::Error(format!("bad free of {:#x}", a))),
        }
    }

    fn external(&mut self, st: &mut State, name: &str, a: &[Val], atys: &'static [Ty], t: &'static Ty) -> Result<Result<Val, End>, End> {
        let unit = Val::C(0);
        macro_rules! c { ($i:expr) => { self.conc(st, &a[$i], 64)? } }
        // harness interface
        match name {
            "sym_bytes" => {
                let (p, n) = (c!(0), c!(1));
                let base = st.nvars;
                st.nvars += n as u32;
                Rc::make_mut(&mut st.vgroup).resize(st.nvars as usize, u32::MAX);
                Rc::make_mut(&mut st.model).resize(st.nvars as usize, 0);
                if n > 0 {
                    let (o, off) = self.obj_mut(st, p, n)?;
                    for i in 0..n as usize { o.set_sym(off + i, var(base + i as u32, 8)); }
                }
                return Ok(Ok(unit));
            }
            "sym_assume" => {
                let e = extract(ev(&a[0], atys[0].bits()), 0, 1);
                if !self.is_true(st, e) {
                    match self.sat(st, e)? { None => return Ok(Err(End::Assume)), Some(m) => st.model = m }
                }
                st.add(e);
                return Ok(Ok(unit));
            }
            "sym_assert" => {
                let e = extract(ev(&a[0], atys[0].bits()), 0, 1);
                let (p, n) = (c!(1), c!(2));
                let msg = self.text(st, p, n);
                *self.asserts.entry(msg.clone()).or_insert(0) += 1;
                if as_const(e) == Some(1) { self.stats.asserts_const += 1; return Ok(Ok(unit)); }
                self.stats.asserts_solver += 1;
                let ne = not(e);
                let bad = if self.is_true(st, ne) { Some(st.model.clone()) } else { self.sat(st, ne)? };
                if let Some(m) = bad {
                    self.violation(st, &m, "assert", msg);
                    return Ok(Err(End::Violated));
                }
                return Ok(Ok(unit));
            }
            "sym_reach" => {
                let (p, n) = (c!(0), c!(1));
                let msg = self.text(st, p, n);
                *self.reach.entry(msg.clone()).or_insert(0) += 1;
                st.reached.push(msg.into());
                return Ok(Ok(unit));
            }
            "sym_budget" => { let b = c!(0); st.budget = if b == 0 { None } else { Some(st.live + b) }; return Ok(Ok(unit)); }
            "sym_depth_limit" => { let b = c!(0); st.depth_limit = if b == 0 { 0 } else { st.frames.len() as u32 + 1 + b as u32 }; return Ok(Ok(unit)); }
            "sym_step_limit" => { let b = c!(0); st.step_limit = if b == 0 { 0 } else { st.steps + b }; return Ok(Ok(unit)); }
            "sym_hash_mode" => { let b = c!(0); st.hash_mode = b as u8; return Ok(Ok(unit)); }
            "sym_concretize" => { let b = c!(0); return Ok(Ok(Val::C(b))); }
            _ => {}
        }
        if let Some(n) = name.strip_prefix("ext.") {
            if let Some(p) = n.strip_prefix("panic.") {
                let m = st.model.clone();
                let what = crate::llvm::pretty(p);
                if what.contains("handle_alloc_error") || what.contains("capacity_overflow") {
                    self.violation(st, &m, "panic", format!("allocation failure: {}", what));
                } else {
                    self.violation(st, &m, "panic", format!("panic: {}", what));
                }
                return Ok(Err(End::Violated));
            }
            return match n {
                "alloc" | "alloc_zeroed" => match self.alloc(st, &a[0], 0)? { Ok(p) => Ok(Ok(Val::C(p))), Err(e) => Ok(Err(e)) },
                "dealloc" => { let p = c!(0); self.dealloc(st, p)?; Ok(Ok(unit)) }
                "realloc" => {
                    // ptr, old size, align, new size
                    let p = c!(0);
                    let (id, _) = self.split(p);
                    let (oldlen, oldsym) = match st.heap.get(id) { Some(o) => (o.data.len() as u64, o.symsize), None => return Err(End::Error("realloc of no object".into())) };
                    let q = match self.alloc(st, &a[3], if oldsym.is_some() { 0 } else { oldlen })? { Ok(q) => q, Err(e) => return Ok(Err(e)) };
                    if oldsym.is_none() { st.live += oldlen; } // dealloc below subtracts it
                    let n = match &a[3] { Val::C(k) => oldlen.min(*k), _ => oldlen };
                    self.copy(st, q, p, n)?;
                    self.dealloc(st, p)?;
                    Ok(Ok(Val::C(q)))
                }
                "nop" => Ok(Ok(unit)),
                "random_keys" => Ok(Ok(t.zero())),
                "hash.write" | "hash.write_str" => {
                    if st.hash_mode == 1 {
                        let (h, p, n) = (c!(0), c!(1), c!(2));
                        st.steps += n / 4;
                        let mut x = match self.load_int(st, h, 64)? { Val::C(k) => k, _ => 0 };
                        if n > 0 {
                            let (o, off) = self.obj(st, p, n)?;
                            for i in 0..n as usize {
                                let b = if !o.sym.is_empty() && o.sym[off + i] != CONC { 0 } else { o.data[off + i] };
                                x = (x.rotate_left(5) ^ (b as u64 + 1)).wrapping_mul(0x9e3779b97f4a7c15);
                            }
                        }
                        self.store(st, h, &Ty::Int(64), &Val::C(x))?;
                    }
                    Ok(Ok(unit))
                }
                "hash.finish" => {
                    if st.hash_mode == 1 {
                        let h = c!(0);
                        return Ok(Ok(match self.load_int(st, h, 64)? { Val::C(k) => Val::C(k ^ (k >> 29)), _ => Val::C(0) }));
                    }
                    Ok(Ok(Val::C(0)))
                }
                _ => Err(End::Error(format!("external {}", name))),
            };
        }
        match name {
            "memcmp" | "bcmp" => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                return Ok(Ok(self.cmp_mem(st, p, q, n, name == "memcmp")?));
            }
            // registers the destructor of a thread-local value: no thread ends here
            "__cxa_thread_atexit_impl" => return Ok(Ok(unit)),
            "memcpy" | "memmove" => { let (p, q, n) = (c!(0), c!(1), c!(2)); self.copy(st, p, q, n)?; return Ok(Ok(Val::C(p))); }
            _ => {}
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            if n.starts_with("memcpy") || n.starts_with("memmove") {
                let (p, q, k) = (c!(0), c!(1), c!(2));
                self.copy(st, p, q, k)?;
                return Ok(Ok(unit));
            }
            if n.starts_with("memset") {
                let (p, k) = (c!(0), c!(2));
                if k == 0 { return Ok(Ok(unit)); }
                st.steps += k / 16;
                let v = a[1].clone();
                let (o, off) = self.obj_mut(st, p, k)?;
                match v {
                    Val::C(b) => {
                        for x in &mut o.data[off..off + k as usize] { *x = b as u8 }
                        if !o.sym.is_empty() { for x in &mut o.sym[off..off + k as usize] { *x = CONC } }
                    }
                    Val::S(e) => for i in 0..k as usize { o.set_sym(off + i, e) },
                    _ => return Err(End::Error("memset".into())),
                }
                return Ok(Ok(unit));
            }
            let w = match atys.get(0) { Some(Ty::Int(w)) => *w, _ => 0 };
            let base = n.split('.').next().unwrap();
            let two = n.splitn(3, '.').take(2).collect::<Vec<_>>().join(".");
            match two.as_str() {
                "threadlocal.address" => return Ok(Ok(a[0].clone())),
                // either answer is right
                "is.constant" => return Ok(Ok(Val::C(0))),
                // unknown
                "objectsize" => return Ok(Ok(if c!(1) & 1 != 0 { Val::C(0) } else { Val::C(mask(t.bits())) })),
                "x86.sse2" if n.starts_with("x86.sse2.pmovmskb") => {
                    let mut r = konst(0, 32);
                    for (i, x) in arr(&a[0]).iter().enumerate() {
                        r = bin(Op::Or, r, bin(Op::Shl, zext(extract(ev(x, 8), 7, 1), 32), konst(i as u64, 32)));
                    }
                    return Ok(Ok(mk(r)));
                }
                "sadd.with" | "uadd.with" | "ssub.with" | "usub.with" | "smul.with" | "umul.with" => {
                    let signed = base.starts_with('s');
                    let op = match &base[1..] { "add" => BinOp::Add, "sub" => BinOp::Sub, _ => BinOp::Mul };
                    let r = bin_val(op, w, &a[0], &a[1]);
                    if op == BinOp::Mul && w > 64 { return Err(End::Error("wide multiplication".into())); }
                    // overflow: compare with the result in a wider type
                    let ww = if op == BinOp::Mul { 2 * w } else { w + 1 };
                    let ov = if let (Some(x), Some(y), true) = (wide(&a[0]), wide(&a[1]), ww <= 128) {
                        let (x, y) = if signed { (s128(x, w), s128(y, w)) } else { (x as i128, y as i128) };
                        let full = match op { BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), _ => x.wrapping_mul(y) };
                        let rr = wide(&r).unwrap();
                        let back = if signed { s128(rr, w) } else { rr as i128 };
                        Val::C((full != back) as u64)
                    } else {
                        let (x, y) = (ev(&a[0], w), ev(&a[1], w));
                        let mulc = op == BinOp::Mul && !signed;
                        if op == BinOp::Add && !signed { mk(bin(Op::Ult, ev(&r, w), x)) }
                        else if op == BinOp::Sub && !signed { mk(bin(Op::Ult, x, y)) }
                        else if mulc && as_const(y).map_or(false, |k| k != 0) {
                            mk(bin(Op::Ult, konst(mask(w) / as_const(y).unwrap(), w), x))
                        } else {
                            let (xx, yy) = if signed { (sext(x, ww), sext(y, ww)) } else { (zext(x, ww), zext(y, ww)) };
                            let full = bin(op_of(op), xx, yy);
                            let back = if signed { sext(ev(&r, w), ww) } else { zext(ev(&r, w), ww) };
                            mk(not(bin(Op::Eq, full, back)))
                        }
                    };
                    return Ok(Ok(Val::A(Rc::new(vec![r, ov]))));
                }
                "vector.reduce" => {
                    let (w, _) = elt(&atys[0]);
                    if let Some(p) = match n.split('.').nth(2).unwrap() { "umax" => Some(Pred::Ugt), "umin" => Some(Pred::Ult), "smax" => Some(Pred::Sgt), "smin" => Some(Pred::Slt), _ => None } {
                        let v = arr(&a[0]);
                        let mut r = v[0].clone();
                        for x in &v[1..] { r = sel(w, &cmp_val(p, w, &r, x), &r, x); }
                        return Ok(Ok(r));
                    }
                    let op = match n.split('.').nth(2).unwrap() { "add" => BinOp::Add, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "mul" => BinOp::Mul, _ => return Err(End::Error(format!("external {}", name))) };
                    let v = arr(&a[0]);
                    let mut r = v[0].clone();
                    for x in &v[1..] { r = bin_val(op, w, &r, x); }
                    return Ok(Ok(r));
                }
                _ => {}
            }
            // element-wise intrinsics
            let scalar = |w: u32, a: &[Val]| -> Option<Val> {
                Some(match base {
                    "umin" => sel(w, &cmp_val(Pred::Ult, w, &a[0], &a[1]), &a[0], &a[1]),
                    "umax" => sel(w, &cmp_val(Pred::Ugt, w, &a[0], &a[1]), &a[0], &a[1]),
                    "smin" => sel(w, &cmp_val(Pred::Slt, w, &a[0], &a[1]), &a[0], &a[1]),
                    "smax" => sel(w, &cmp_val(Pred::Sgt, w, &a[0], &a[1]), &a[0], &a[1]),
                    "abs" => sel(w, &cmp_val(Pred::Slt, w, &a[0], &of128(0, w)), &bin_val(BinOp::Sub, w, &of128(0, w), &a[0]), &a[0]),
                    "expect" => a[0].clone(),
                    "fabs" => mk(crate::fp::abs(ev(&a[0], w))),
                    "copysign" => mk(crate::fp::copysign(ev(&a[0], w), ev(&a[1], w))),
                    "ptrmask" => bin_val(BinOp::And, w, &a[0], &a[1]),
                    "usub" => sel(w, &cmp_val(Pred::Ult, w, &a[0], &a[1]), &of128(0, w), &bin_val(BinOp::Sub, w, &a[0], &a[1])),
                    "uadd" => { let r = bin_val(BinOp::Add, w, &a[0], &a[1]); sel(w, &cmp_val(Pred::Ult, w, &r, &a[0]), &of128(u128::MAX, w), &r) }
                    "bswap" => {
                        let nb = w / 8;
                        if let Some(k) = wide(&a[0]) {
                            let b = k.to_le_bytes();
                            let mut r = 0u128;
                            for i in 0..nb { r = (r << 8) | b[i as usize] as u128 }
                            of128(r, w)
                        } else {
                            let e = ev(&a[0], w);
                            let mut r = extract(e, 0, 8);
                            for i in 1..nb { r = concat(r, extract(e, i * 8, 8)); }
                            mk(r)
                        }
                    }
                    "bitreverse" => {
                        if let Some(k) = wide(&a[0]) { of128((k << (128 - w)).reverse_bits(), w) } else {
                            let e = ev(&a[0], w);
                            let mut r = extract(e, 0, 1);
                            for i in 1..w { r = concat(r, extract(e, i, 1)); }
                            mk(r)
                        }
                    }
                    "sadd" | "ssub" => {
                        let r = bin_val(if base == "sadd" { BinOp::Add } else { BinOp::Sub }, w, &a[0], &a[1]);
                        let (min, zero) = (of128(1u128 << (w - 1), w), of128(0, w));
                        let max = of128((1u128 << (w - 1)) - 1, w);
                        let (x, y) = (cmp_val(Pred::Slt, w, &a[0], &zero), cmp_val(Pred::Slt, w, &a[1], &zero));
                        let z = cmp_val(Pred::Slt, w, &r, &zero);
                        // overflow: operands of equal (for -: different) signs and a result of another sign than the first
                        let same = cmp_val(if base == "sadd" { Pred::Eq } else { Pred::Ne }, 1, &x, &y);
                        let ov = bin_val(BinOp::And, 1, &same, &cmp_val(Pred::Ne, 1, &x, &z));
                        sel(w, &ov, &sel(w, &x, &min, &max), &r)
                    }
                    "ctpop" => {
                        if let Some(k) = wide(&a[0]) { of128(k.count_ones() as u128, w) } else {
                            let e = ev(&a[0], w);
                            let mut r = konst(0, w);
                            for i in 0..w { r = bin(Op::Add, r, zext(extract(e, i, 1), w)); }
                            mk(r)
                        }
                    }
                    "ctlz" => {
                        if let Some(k) = wide(&a[0]) { of128((k << (128 - w)).leading_zeros().min(w) as u128, w) } else {
                            let e = ev(&a[0], w);
                            let mut r = konst(w as u64, w);
                            for i in 0..w { r = ite(extract(e, i, 1), konst((w - 1 - i) as u64, w), r); }
                            mk(r)
                        }
                    }
                    "cttz" => {
                        if let Some(k) = wide(&a[0]) { of128(k.trailing_zeros().min(w) as u128, w) } else {
                            let e = ev(&a[0], w);
                            let mut r = konst(w as u64, w);
                            for i in (0..w).rev() { r = ite(extract(e, i, 1), konst(i as u64, w), r); }
                            mk(r)
                        }
                    }
                    "fshl" | "fshr" => {
                        let k = bin_val(BinOp::URem, w, &a[2], &of128(w as u128, w));
                        let (hi, lo) = (&a[0], &a[1]);
                        let inv = bin_val(BinOp::Sub, w, &of128(w as u128, w), &k);
                        // shifts by w give 0 in our semantics
                        if base == "fshl" { bin_val(BinOp::Or, w, &bin_val(BinOp::Shl, w, hi, &k), &bin_val(BinOp::LShr, w, lo, &inv)) }
                        else { bin_val(BinOp::Or, w, &bin_val(BinOp::Shl, w, hi, &inv), &bin_val(BinOp::LShr, w, lo, &k)) }
                    }
                    _ => return None,
                })
            };
            if matches!(base, "fptosi" | "fptoui") && n.contains(".sat.") {
                if let (Some(Ty::Int(f)), Ty::Int(tw)) = (atys.get(0), t) {
                    if matches!(f, 32 | 64) && *tw <= 64 { return Ok(Ok(mk(crate::fp::to_int(ev(&a[0], *f), base == "fptosi", *tw)))); }
                }
            }
            if base == "is" && n.starts_with("is.fpclass") {
                if let (Some(Ty::Int(f)), Val::C(k)) = (atys.get(0), &a[1]) { return Ok(Ok(mk(crate::fp::class(ev(&a[0], *f), *k)))); }
            }
            if base == "scmp" || base == "ucmp" {
                let s = base == "scmp";
                let tw = t.bits();
                let lt = cmp_val(if s { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1]);
                let gt = cmp_val(if s { Pred::Sgt } else { Pred::Ugt }, w, &a[0], &a[1]);
                return Ok(Ok(sel(tw, &lt, &of128(u128::MAX, tw), &sel(tw, &gt, &Val::C(1), &Val::C(0)))));
            }
            match atys.get(0) {
                Some(Ty::Int(_)) => if let Some(v) = scalar(w, a) { return Ok(Ok(v)); },
                Some(Ty::Vec(e, n)) => {
                    let w = e.bits();
                    let mut out = vec![];
                    for i in 0..*n as usize {
                        let xs: Vec<Val> = a.iter().map(|v| if let Val::A(x) = v { x[i].clone() } else { v.clone() }).collect();
                        match scalar(w, &xs) { Some(v) => out.push(v), None => return Err(End::Error(format!("external {}", name))) }
                    }
                    return Ok(Ok(Val::A(Rc::new(out))));
                }
                _ => {}
            }
        }
        Err(End::Error(format!("external {}", name)))
    }
    pub fn new(p: &'static Program, z3: Z3, deadline: std::time::Instant) -> Exec {
        Exec {
            p, z3, cache: HashMap::new(), work: vec![], stats: Stats::default(), violations: vec![], errors: BTreeMap::new(), reach: BTreeMap::new(), asserts: BTreeMap::new(),
            cover: vec![0; p.our_blocks as usize / 64 + 1], task: 0, max_violations: 20, samples: vec![], task_paths: 0, task_violated: 0, gcells: vec![], names: Rc::new(HashMap::new()), deadline, memo: Default::default(), trace: false, stop: None, slice: deadline, bad: BTreeMap::new(),
        }
    }
}

fn sel(w: u32, c: &Val, x: &Val, y: &Val) -> Val {
    match c {
        Val::C(k) => if *k & 1 != 0 { x.clone() } else { y.clone() },
        c => mk(ite(ev(c, 1), ev(x, w), ev(y, w))),
    }
}
fn sel_ty(t: &Ty, c: &Val, x: &Val, y: &Val) -> Val {
    match t {
        Ty::Void => Val::C(0),
        Ty::Int(w) => sel(*w, c, x, y),
        Ty::Vec(e, _) | Ty::Arr(e, _, _) => Val::A(Rc::new(arr(x).iter().zip(arr(y)).map(|(p, q)| sel_ty(e, c, p, q)).collect())),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().enumerate().map(|(i, (t, _))| sel_ty(t, c, &arr(x)[i], &arr(y)[i])).collect())),
    }
}
fn insert(v: Val, y: &Val, idx: &[u32]) -> Val {
    if idx.is_empty() { return y.clone(); }
    let mut a = match v { Val::A(a) => a, _ => panic!("insertvalue into scalar") };
    let m = Rc::make_mut(&mut a);
    let inner = std::mem::replace(&mut m[idx[0] as usize], Val::C(0));
    m[idx[0] as usize] = insert(inner, y, &idx[1..]);
    Val::A(a)
}
