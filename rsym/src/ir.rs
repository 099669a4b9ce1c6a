//! Internal instruction set.
use crate::expr::*;
use std::rc::Rc;

pub const FN_WINDOW: u64 = 1;
pub const GLOB_BASE: u64 = 2;

#[derive(Clone, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Agg(Rc<AggTy>),
    Unsupported(i32),
}
#[derive(Debug)]
pub struct AggTy {
    pub size: u64,
    pub fields: Vec<(u64, Ty)>,
    pub vec: bool,
}
impl Ty {
    #[inline]
    pub fn w(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            _ => panic!("width of non-int type {self:?}"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(u64),
    E(E),
    Agg(Vec<Opd>),
    Bad(String),
}
impl Opd {
    pub fn to_e(&self, w: u32) -> E {
        match self {
            Opd::C(c) => cst(w, *c),
            Opd::E(e) => *e,
            _ => panic!("operand"),
        }
    }
    pub fn c64(&self) -> Option<u64> {
        match self {
            Opd::C(c) => Some(*c),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZTrunc,
    SExt,
    Bitcast,
}

#[derive(Debug)]
pub struct Call {
    pub dst: u32,
    pub ret: Ty,
    pub callee: Opd,
    pub args: Vec<Opd>,
    pub atys: Vec<Ty>,
}

#[derive(Debug)]
pub enum Inst {
    Ret(Option<Opd>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { c: Opd, w: u32, cases: Vec<(E, Option<u64>, u32)>, def: u32 },
    Unreachable,
    Bin { op: Bin, dst: u32, ty: Ty, a: Opd, b: Opd },
    Alloca { dst: u32, size: u64, n: Opd },
    Load { dst: u32, ty: Ty, size: u64, p: Opd },
    Store { ty: Ty, size: u64, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: u64, idx: Vec<(Opd, u32, u64)> },
    Cast { k: Cast, dst: u32, from: Ty, to: Ty, a: Opd },
    Icmp { dst: u32, pred: u8, ty: Ty, a: Opd, b: Opd },
    Call(Box<Call>),
    Select { dst: u32, ty: Ty, c: Opd, a: Opd, b: Opd, vc: bool },
    ExtractElt { dst: u32, v: Opd, i: Opd, iw: u32 },
    InsertElt { dst: u32, v: Opd, e: Opd, i: Opd, iw: u32 },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Vec<i32> },
    ExtractVal { dst: u32, v: Opd, ix: Vec<u32> },
    InsertVal { dst: u32, v: Opd, e: Opd, ix: Vec<u32> },
    CmpXchg { dst: u32, ty: Ty, size: u64, p: Opd, c: Opd, n: Opd },
    Rmw { dst: u32, op: i32, ty: Ty, size: u64, p: Opd, v: Opd },
    Copy { dst: u32, a: Opd },
    Bad(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub defined: bool,
    pub params: Vec<Ty>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub hook: u32, // index+1 of an engine hook
    pub merge: bool,
}
impl Func {
    pub fn empty(name: String) -> Func {
        Func { name, defined: false, params: vec![], nregs: 0, blocks: vec![], hook: 0, merge: false }
    }
}
pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub external: bool,
}
#[derive(Default)]
pub struct Program {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub nconst: usize,
}
