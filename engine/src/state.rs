//! Symbolic states: memory, frames, path condition.
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

pub const CONC: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Global, Stack, Heap }

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<u32>,        // empty, or one entry per byte: CONC or an expression of width 8
    pub symsize: Option<E>,   // allocation of symbolic size: `data` grows on demand
    pub kind: Kind,
    pub konst: bool,
}
impl Obj {
    pub fn new(size: u64, kind: Kind) -> Obj { Obj { data: vec![0; size as usize], sym: vec![], symsize: None, kind, konst: false } }
    pub fn ensure(&mut self, end: usize) {
        if end > self.data.len() {
            self.data.resize(end, 0);
            if !self.sym.is_empty() { self.sym.resize(end, CONC) }
        }
    }
    pub fn set_sym(&mut self, i: usize, e: E) {
        if self.sym.is_empty() { self.sym = vec![CONC; self.data.len()] }
        self.sym[i] = e.0;
    }
    pub fn byte(&self, i: usize) -> E {
        if !self.sym.is_empty() && self.sym[i] != CONC { E(self.sym[i]) } else { konst(self.data[i] as u64, 8) }
    }
}

const CH: usize = 64;
type Chunk = Rc<Vec<Option<Rc<Obj>>>>;
#[derive(Clone)]
pub struct Heap { chunks: Vec<Chunk>, next: u32, none: Chunk }
impl Heap {
    pub fn new() -> Heap { let none = Rc::new(vec![None; CH]); Heap { chunks: vec![], next: 0, none } }
    pub fn add(&mut self, o: Obj) -> u32 {
        let id = self.next;
        self.next += 1;
        let c = id as usize / CH;
        if c >= self.chunks.len() { self.chunks.push(self.none.clone()) }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(o));
        id
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?[id as usize % CH].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        Rc::make_mut(c)[id as usize % CH].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, id: u32) {
        let ci = id as usize / CH;
        let c = Rc::make_mut(&mut self.chunks[ci]);
        c[id as usize % CH] = None;
        if c.iter().all(|x| x.is_none()) { self.chunks[ci] = self.none.clone(); }
    }
    pub fn skip(&mut self) { self.next += 1; let c = (self.next as usize - 1) / CH; if c >= self.chunks.len() { self.chunks.push(self.none.clone()) } }
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub block: u32,
    pub ip: u32,
    pub slots: Vec<Val>,
    pub allocas: Vec<u32>,
    pub ret: Option<u32>,
}

pub struct Group { pub vars: Vec<u32>, pub cs: Vec<E> }

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub frames: Vec<Rc<Frame>>, // callers
    pub heap: Heap,
    pub groups: Vec<Rc<Group>>,
    pub vgroup: Rc<Vec<u32>>, // variable -> group index or u32::MAX
    pub nvars: u32,
    /// variables that the path condition equates with a constant: the model's value is their only one
    pub fixed: Rc<Vec<bool>>,
    pub model: Rc<Vec<u8>>,
    pub live: u64,
    pub live_sym: Option<E>, // 64 bit
    pub peak: u64,
    pub budget: Option<u64>,
    pub depth_limit: u32,
    pub step_limit: u64,
    pub hash_mode: u8,
    pub forks: u32,
    pub reached: Vec<Rc<str>>,
    pub steps: u64,
}

impl State {
    /// indices of the groups that share variables with e
    pub fn touching(&self, e: E) -> Vec<usize> {
        let mut g: Vec<usize> = vars(e).iter().filter_map(|v| { let g = self.vgroup[*v as usize]; if g == u32::MAX { None } else { Some(g as usize) } }).collect();
        g.sort_unstable();
        g.dedup();
        g
    }
    /// e has one value left: so have the variables it is put together from
    fn fix(&mut self, e: E) {
        let n = node(e);
        match n.op {
            Op::Var => { let i = n.k as usize; let f = Rc::make_mut(&mut self.fixed); if f.len() <= i { f.resize(i + 1, false) } f[i] = true; }
            Op::Concat => { self.fix(n.a); self.fix(n.b); }
            Op::ZExt | Op::SExt => self.fix(n.a),
            _ => {}
        }
    }
    pub fn is_fixed(&self, e: E) -> bool { !self.fixed.is_empty() && vars(e).iter().all(|v| self.fixed.get(*v as usize) == Some(&true)) }
    pub fn add(&mut self, e: E) {
        if as_const(e) == Some(1) { return; }
        let n = node(e);
        if n.op == Op::And && n.w == 1 { self.add(n.a); self.add(n.b); return; }
        let ts = self.touching(e);
        if n.op == Op::Eq && (as_const(n.a).is_some() || as_const(n.b).is_some()) { self.fix(if as_const(n.a).is_some() { n.b } else { n.a }); }
        if ts.len() == 1 && self.groups[ts[0]].cs.contains(&e) && vars(e).iter().all(|v| self.vgroup[*v as usize] == ts[0] as u32) { return; }
        let mut vs: Vec<u32> = vars(e).to_vec();
        let mut cs = vec![];
        for t in &ts { vs.extend(&self.groups[*t].vars); cs.extend(&self.groups[*t].cs); }
        vs.sort_unstable();
        vs.dedup();
        cs.push(e);
        let gi = if let Some(t) = ts.first() { *t } else { self.groups.push(Rc::new(Group { vars: vec![], cs: vec![] })); self.groups.len() - 1 };
        let vg = Rc::make_mut(&mut self.vgroup);
        for v in &vs { vg[*v as usize] = gi as u32; }
        for t in ts.iter().skip(1) { self.groups[*t] = Rc::new(Group { vars: vec![], cs: vec![] }); }
        self.groups[gi] = Rc::new(Group { vars: vs, cs });
    }
}
