//! Internal representation of the LLVM module.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Type {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, Box<Type>),
    Vector(u64, Box<Type>),
    Struct(Vec<Type>, bool),
    Label,
    Metadata,
    Token,
    Named(String),
    Func,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Type {
    pub fn size_align(&self) -> (u64, u64) {
        match self {
            Type::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                if b <= 1 { (1, 1) }
                else if b <= 2 { (2, 2) }
                else if b <= 4 { (4, 4) }
                else if b <= 8 { (8, 8) }
                else { (align_up(b, 16), 16) }
            }
            Type::Ptr => (8, 8),
            Type::Float => (4, 4),
            Type::Double => (8, 8),
            Type::Array(n, t) => {
                let (s, a) = t.size_align();
                (align_up(s, a) * n, a)
            }
            Type::Vector(n, t) => {
                let bits = t.bits() as u64 * n;
                let s = (bits + 7) / 8;
                let p = s.next_power_of_two();
                (p, p)
            }
            Type::Struct(ts, packed) => {
                let mut off = 0;
                let mut al = 1;
                for t in ts {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    off = align_up(off, a) + s;
                    al = al.max(a);
                }
                (align_up(off, al), al)
            }
            _ => (0, 1),
        }
    }
    /// Bytes written by a store of this type.
    pub fn store_size(&self) -> u64 {
        match self {
            Type::Int(w) => ((*w as u64) + 7) / 8,
            Type::Vector(n, t) => (t.bits() as u64 * n + 7) / 8,
            _ => self.size_align().0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        let (s, a) = self.size_align();
        align_up(s, a)
    }
    pub fn bits(&self) -> u32 {
        match self {
            Type::Int(w) => *w,
            Type::Ptr | Type::Double => 64,
            Type::Float => 32,
            Type::Vector(n, t) => t.bits() * *n as u32,
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Type::Struct(ts, packed) => {
                let mut off = 0;
                for (j, t) in ts.iter().enumerate() {
                    let (s, a) = t.size_align();
                    let a = if *packed { 1 } else { a };
                    off = align_up(off, a);
                    if j == i {
                        return off;
                    }
                    off += s;
                }
                off
            }
            Type::Array(_, t) => t.alloc_size() * i as u64,
            Type::Vector(_, t) => (t.bits() as u64 / 8) * i as u64,
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn field_type(&self, i: usize) -> &Type {
        match self {
            Type::Struct(ts, _) => &ts[i],
            Type::Array(_, t) => t,
            Type::Vector(_, t) => t,
            _ => panic!("field_type of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Type::Struct(..) | Type::Array(..) | Type::Vector(..))
    }
    pub fn field_count(&self) -> usize {
        match self {
            Type::Struct(ts, _) => ts.len(),
            Type::Array(n, _) => *n as usize,
            Type::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// Constant, before global addresses are resolved.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Agg(Vec<(Type, Const)>),
    Bytes(Vec<u8>),
    Global(String),
    Gep(Type, Box<Const>, Vec<i64>),
    PtrToInt(Box<Const>, u32),
    IntToPtr(Box<Const>),
    Bin(BinOp, u32, Box<Const>, Box<Const>),
    Trunc(Box<Const>, u32),
    Splat(Type, Box<Const>),
}

/// Constant with addresses resolved.
#[derive(Clone, Debug)]
pub enum RConst {
    I(u64),
    W(u128),
    Agg(Vec<RConst>),
}

#[derive(Clone, Copy, Debug)]
pub enum Opnd {
    Reg(u32),
    Imm(u64),
    Const(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ICmp { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FCmp { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, UIToFP, SIToFP, FPToUI, FPToSI, FPExt, FPTrunc }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Or, Xor, Nand, UMax, UMin, Max, Min }

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Indirect(Opnd),
    Extern(u32),
}

#[derive(Clone, Debug)]
pub enum Op {
    Bin(BinOp, u32, Opnd, Opnd),
    VBin(BinOp, u32, Opnd, Opnd),
    FNeg(u32, Opnd),
    ICmp(ICmp, u32, Opnd, Opnd),
    VICmp(ICmp, u32, Opnd, Opnd),
    FCmp(FCmp, u32, Opnd, Opnd),
    Cast(Cast, Type, Opnd, Type),
    Select(Opnd, Opnd, Opnd, u32),
    Load(Type, Opnd),
    Store(Type, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, i64, u32)>),
    Alloca(u64, u64, Option<Opnd>),
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(Opnd, Opnd, Vec<u32>),
    ExtractElement(Opnd, Opnd),
    InsertElement(Opnd, Opnd, Opnd),
    Shuffle(Opnd, Opnd, Vec<i32>, usize),
    Freeze(Opnd),
    Call(Callee, Vec<Opnd>, Type, Option<u32>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u32, Opnd, u32, Vec<(u64, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Rmw(RmwOp, u32, Opnd, Opnd),
    CmpXchg(u32, Opnd, Opnd, Opnd),
    Fence,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: u32,
    pub dbg: u32,
    pub op: Op,
}

pub const NOREG: u32 = u32::MAX;

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Clone, Debug, Default)]
pub struct Function {
    pub name: String,
    pub nparams: usize,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub consts: Vec<RConst>,
    pub is_panic: bool,
    pub id: u32,
    pub ret: Type0,
}

#[derive(Clone, Debug, Default)]
pub struct Type0(pub Option<Type>);

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub ty: Type,
    pub init: Option<Const>,
    pub constant: bool,
    pub align: u64,
}

#[derive(Default)]
pub struct Module {
    pub text: &'static str,
    pub types: HashMap<String, Type>,
    pub globals: Vec<Global>,
    pub global_ids: HashMap<String, u32>,
    pub functions: Vec<FuncSlot>,
    pub function_ids: HashMap<String, u32>,
    pub externs: Vec<String>,
    pub extern_ids: HashMap<String, u32>,
    pub aliases: HashMap<String, Const>,
    /// Debug metadata nodes, unparsed.
    pub dbg: HashMap<u32, &'static str>,
    pub global_data: Vec<Vec<u8>>,
}

pub struct FuncSlot {
    pub name: String,
    pub header: &'static str,
    pub body: &'static str,
    pub parsed: std::sync::OnceLock<Function>,
}

// Address space layout: the high 32 bits are an object number.
// 1 .. G : globals; FUNC_BASE + i: functions; EXT_BASE + i: externs; then heap and stack objects.
pub const FUNC_BASE: u64 = 0x4000_0000;
pub const EXT_BASE: u64 = 0x5000_0000;

impl Module {
    pub fn global_addr(&self, name: &str) -> Option<u64> {
        if let Some(i) = self.global_ids.get(name) {
            return Some((*i as u64 + 1) << 32);
        }
        if let Some(i) = self.function_ids.get(name) {
            return Some((FUNC_BASE + *i as u64) << 32);
        }
        if let Some(c) = self.aliases.get(name) {
            return self.resolve(&Type::Ptr, c).and_then(|r| match r { RConst::I(a) => Some(a), _ => None });
        }
        if let Some(i) = self.extern_ids.get(name) {
            return Some((EXT_BASE + *i as u64) << 32);
        }
        None
    }

    pub fn resolve_type(&self, t: &Type) -> Type {
        match t {
            Type::Named(n) => match self.types.get(n) {
                Some(t) => self.resolve_type(t),
                None => Type::Struct(vec![], false),
            },
            Type::Array(n, t) => Type::Array(*n, Box::new(self.resolve_type(t))),
            Type::Vector(n, t) => Type::Vector(*n, Box::new(self.resolve_type(t))),
            Type::Struct(ts, p) => Type::Struct(ts.iter().map(|t| self.resolve_type(t)).collect(), *p),
            t => t.clone(),
        }
    }

    pub fn zero(&self, t: &Type) -> RConst {
        match t {
            Type::Int(w) if *w > 64 => RConst::W(0),
            Type::Array(..) | Type::Vector(..) | Type::Struct(..) =>
                RConst::Agg((0..t.field_count()).map(|i| self.zero(t.field_type(i))).collect()),
            _ => RConst::I(0),
        }
    }

    pub fn resolve(&self, t: &Type, c: &Const) -> Option<RConst> {
        Some(match c {
            Const::Int(v) => {
                let w = t.bits();
                if w > 64 { RConst::W(mask128(*v, w)) } else { RConst::I(mask128(*v, w) as u64) }
            }
            Const::Undef | Const::Zero => self.zero(t),
            Const::Agg(vs) => RConst::Agg(vs.iter().map(|(t, c)| self.resolve(t, c)).collect::<Option<Vec<_>>>()?),
            Const::Bytes(b) => RConst::Agg(b.iter().map(|b| RConst::I(*b as u64)).collect()),
            Const::Global(n) => RConst::I(self.global_addr(n)?),
            Const::Gep(t, base, idx) => {
                let b = match self.resolve(&Type::Ptr, base)? { RConst::I(a) => a, _ => return None };
                let off = gep_const_offset(&self.resolve_type(t), idx);
                RConst::I(b.wrapping_add(off as u64))
            }
            Const::PtrToInt(c, w) => match self.resolve(&Type::Ptr, c)? {
                RConst::I(a) => if *w > 64 { RConst::W(a as u128) } else { RConst::I(mask128(a as u128, *w) as u64) },
                _ => return None,
            },
            Const::IntToPtr(c) => self.resolve(&Type::Int(64), c)?,
            Const::Trunc(c, w) => match self.resolve(&Type::Int(64), c)? {
                RConst::I(a) => RConst::I(mask128(a as u128, *w) as u64),
                _ => return None,
            },
            Const::Bin(op, w, a, b) => {
                let a = match self.resolve(&Type::Int(*w), a)? { RConst::I(a) => a, _ => return None };
                let b = match self.resolve(&Type::Int(*w), b)? { RConst::I(a) => a, _ => return None };
                let r = match op {
                    BinOp::Add => a.wrapping_add(b),
                    BinOp::Sub => a.wrapping_sub(b),
                    BinOp::And => a & b,
                    BinOp::Or => a | b,
                    BinOp::Xor => a ^ b,
                    _ => return None,
                };
                RConst::I(mask128(r as u128, *w) as u64)
            }
            Const::Splat(et, c) => match t {
                Type::Vector(n, _) => {
                    let v = self.resolve(et, c)?;
                    RConst::Agg(vec![v; *n as usize])
                }
                _ => return None,
            },
        })
    }
}

pub fn gep_const_offset(t: &Type, idx: &[i64]) -> i64 {
    let mut off = 0i64;
    let mut cur = t.clone();
    for (i, &x) in idx.iter().enumerate() {
        if i == 0 {
            off += x * cur.alloc_size() as i64;
        } else {
            match &cur {
                Type::Struct(..) => {
                    off += cur.field_offset(x as usize) as i64;
                    cur = cur.field_type(x as usize).clone();
                }
                Type::Array(_, e) | Type::Vector(_, e) => {
                    let e = (**e).clone();
                    off += e.alloc_size() as i64 * x;
                    cur = e;
                }
                _ => panic!("gep into {:?}", cur),
            }
        }
    }
    off
}

pub fn mask128(v: u128, w: u32) -> u128 {
    if w >= 128 { v } else { v & ((1u128 << w) - 1) }
}

pub fn mask64(v: u64, w: u32) -> u64 {
    if w >= 64 { v } else { v & ((1u64 << w) - 1) }
}
