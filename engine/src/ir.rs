//! The executable form of an LLVM function.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),            // concrete, width <= 64
    W(u128),           // concrete, width 65..=128
    S(E),              // symbolic
    A(Rc<Vec<Val>>),   // struct, array or vector
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),              // also pointers (64) and floats (by bits)
    Vec(Rc<Ty>, u32),
    Arr(Rc<Ty>, u64, u64), // element, count, stride
    Struct(Rc<Vec<(Ty, u64)>>, u64), // fields with offsets, size
}
impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, _ => panic!("bits of {:?}", self) } }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            Ty::Vec(t, n) => if let Ty::Int(1) = **t { ((*n + 7) / 8) as u64 } else { t.size() * *n as u64 },
            Ty::Arr(_, n, s) => n * s,
            Ty::Struct(_, s) => *s,
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Void => Val::C(0),
            Ty::Int(w) => if *w <= 64 { Val::C(0) } else { Val::W(0) },
            Ty::Vec(t, n) => Val::A(Rc::new(vec![t.zero(); *n as usize])),
            Ty::Arr(t, n, _) => Val::A(Rc::new(vec![t.zero(); *n as usize])),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|(t, _)| t.zero()).collect())),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, Same }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ext(Rc<str>), Ptr(Opnd) }

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, u32, Opnd, Opnd),
    Cmp(Pred, Ty, u32, Opnd, Opnd),
    Cast(CastOp, Ty, Ty, u32, Opnd),
    FCmp(u32, Ty, u32, Opnd, Opnd),
    /// LLVM opcode, operand type, result type
    Fp(i32, Ty, Ty, u32, Vec<Opnd>),
    BitCast(Ty, Ty, u32, Opnd),
    Select(Ty, bool, u32, Opnd, Opnd, Opnd), // bool: vector condition
    Load(Ty, u32, Opnd),
    Store(Ty, Opnd, Opnd), // value, pointer
    Gep(u32, Opnd, i64, Vec<(i64, Opnd, u32)>),
    Alloca(u32, u64, Opnd),
    Call(Option<u32>, Ty, Callee, Vec<Opnd>, Vec<Ty>),
    ExtractValue(u32, Opnd, Vec<u32>),
    InsertValue(u32, Opnd, Opnd, Vec<u32>),
    ExtractElt(u32, Opnd, Opnd),
    InsertElt(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<i32>, Ty),
    Copy(u32, Opnd),
    Rmw(RmwOp, Ty, u32, Opnd, Opnd), // pointer, value
    CmpXchg(Ty, u32, Opnd, Opnd, Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, u32, Vec<(u64, u32)>), // value, width, default, cases
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(Rc<str>),
}

#[derive(Debug)]
pub struct Block {
    pub insts: Vec<Inst>,
    /// phi nodes: destination and, per predecessor block, the incoming value
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub idx: u32,
    pub nparams: u32,
    pub nslots: u32,
    pub blocks: Vec<Block>,
    pub ours: bool, // defined by the crate under test
    pub block_base: u32, // for coverage
}

pub struct Global { pub name: String, pub size: u64, pub data: Vec<u8>, pub konst: bool }

pub struct Program {
    pub funcs: Vec<Option<Func>>,
    pub fnames: Vec<String>,
    pub entry: std::collections::HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub our_blocks: u32,
}

// Address layout: object id in the high 32 bits, offset (plus a bias) in the low 32.
pub const BIAS: u64 = 0x1_0000;
pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;
pub fn addr_of(obj: u32, off: u64) -> u64 { ((obj as u64) << 32) + BIAS + off }
