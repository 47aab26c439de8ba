//! Intermediate representation written by the rustc driver and read by the analyser.
use serde::{Deserialize, Serialize};

pub type TyId = u32;
pub type FnId = u32;
pub type AllocId = u32;

#[derive(Serialize, Deserialize, Default)]
pub struct Program {
    pub config: String,
    pub types: Vec<TyInfo>,
    pub fns: Vec<FnInfo>,
    pub allocs: Vec<AllocInfo>,
    pub roots: Vec<FnId>,
    /// crate-local items of pic_scale seen by the compiler: (path, file, line)
    pub notes: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TyInfo {
    pub name: String,
    pub kind: TyKind,
    pub size: Option<u64>,
    pub align: u64,
    pub tag: Option<TagInfo>,
    /// field offsets of tuples and closures
    pub offs: Vec<u64>,
    /// enum with a single inhabited variant and no tag
    pub single: Option<u32>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct TagInfo {
    pub offset: u64,
    pub size: u64,
    /// None: the tag is the discriminant; Some: (untagged variant, first niche variant, last niche variant, niche_start)
    pub niche: Option<(u32, u32, u32, u128)>,
    pub ptr: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum TyKind {
    Bool,
    Char,
    Int { signed: bool, bits: u32, ptr_sized: bool },
    Float { bits: u32 },
    Ptr { to: TyId, mutable: bool, is_ref: bool },
    Slice(TyId),
    Array(TyId, u64),
    Str,
    Tuple(Vec<TyId>),
    /// struct/enum/union; variants with fields
    /// `drops`: the type has a Drop impl of its own
    Adt { path: String, kind: AdtK, simd: bool, is_box: bool, drops: bool, variants: Vec<Variant>, args: Vec<GArg> },
    Closure { path: String, upvars: Vec<TyId>, body: FnId },
    FnDef(FnId),
    FnPtr,
    Dyn(String),
    Never,
    Other(String),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum AdtK {
    Struct,
    Enum,
    Union,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub discr: i128,
    pub fields: Vec<(String, TyId)>,
    pub offsets: Vec<u64>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum GArg {
    Ty(TyId),
    Const(i128),
    Lt,
    Unk,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum FnKind {
    Item,
    Intrinsic,
    LlvmIntrinsic,
    Virtual,
    Shim,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FnInfo {
    /// path without generic arguments
    pub path: String,
    /// full instance name
    pub name: String,
    pub krate: String,
    pub kind: FnKind,
    pub target_features: Vec<String>,
    pub gargs: Vec<GArg>,
    pub is_unsafe: bool,
    pub file: String,
    pub line: u32,
    pub ret: TyId,
    pub params: Vec<TyId>,
    /// for fn items that are a closure body
    pub body: Option<Body>,
    /// body exists but was not exported (leaf by policy)
    pub leaf: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Body {
    pub nargs: u32,
    pub spread: Option<u32>,
    pub locals: Vec<TyId>,
    pub names: Vec<(u32, String)>,
    pub blocks: Vec<Block>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Block {
    pub stmts: Vec<Stmt>,
    pub term: Term,
    pub line: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Stmt {
    pub line: u32,
    pub kind: StmtK,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum StmtK {
    Assign(Place, Rvalue),
    SetDiscr(Place, u32),
    Live(u32),
    Dead(u32),
    Assume(Operand),
    CopyNonOverlapping(Operand, Operand, Operand),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Place {
    pub local: u32,
    pub proj: Vec<Proj>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Proj {
    Deref,
    Field(u32, TyId),
    Index(u32),
    ConstIndex { offset: u64, min: u64, from_end: bool },
    Subslice { from: u64, to: u64, from_end: bool },
    Downcast(u32),
    Opaque(TyId),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Operand {
    Copy(Place),
    Move(Place),
    Const(TyId, Const),
    /// UbChecks etc.: false
    RuntimeCheck,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Const {
    Zst,
    /// scalar bits
    Bits(u128),
    /// pointer to allocation + offset
    Ptr(AllocId, u64),
    /// raw bytes with relocations
    Bytes(Vec<u8>, Vec<(u64, AllocId)>),
    Unk(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum AllocInfo {
    Mem { bytes: Vec<Option<u8>>, relocs: Vec<(u64, AllocId)>, align: u64, mutable: bool },
    Static { path: String, mutable: bool, init: Option<Box<AllocInfo>> , ty: TyId},
    Fn(FnId),
    VTable,
    Other,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Rvalue {
    Use(Operand),
    Repeat(Operand, u64),
    Ref(Place, bool),
    AddrOf(Place, bool),
    Bin(BinOp, Operand, Operand),
    Checked(BinOp, Operand, Operand),
    Un(UnOp, Operand),
    Cast(CastK, Operand, TyId),
    Len(Place),
    Discr(Place),
    Agg(AggK, Vec<Operand>),
    ThreadLocal(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum AggK {
    Array,
    Tuple,
    Adt(TyId, u32, Option<u32>),
    Closure(TyId),
    RawPtr(TyId),
    Other,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum BinOp {
    Add, Sub, Mul, Div, Rem, Xor, And, Or, Shl, Shr, Eq, Lt, Le, Ne, Ge, Gt, Cmp, Offset,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum UnOp {
    Not, Neg, PtrMeta,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    IntToInt, FloatToInt, FloatToFloat, IntToFloat, PtrToPtr, Transmute, Reify(FnId), ClosureFnPtr(FnId),
    Unsize, ArrayToPtr, MutToConst, Expose, WithExposed, FnPtrToPtr, Subtype, UnsafeFnPtr,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Callee {
    Fn(FnId),
    Ptr(Operand),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Term {
    Goto(u32),
    Switch(Operand, Vec<(u128, u32)>, u32),
    Return,
    Unreachable,
    Resume,
    Abort,
    Drop(Place, TyId, u32),
    Call { f: Callee, args: Vec<Operand>, dest: Place, target: Option<u32>, line: u32 },
    Assert { cond: Operand, expected: bool, target: u32, msg: String },
    Asm(Option<u32>),
}
