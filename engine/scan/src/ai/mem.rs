//! Abstract values, memory regions and states.
use super::lanes::{Lane, Ser};
use super::num::Cons;
use super::poly::*;
use ps_ir::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Reg {
    Local(u32, u32),
    Heap(u64),
    Alloc(AllocId),
    /// dangling or null: nothing may be accessed
    None,
    Unknown,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Meta {
    Thin,
    Len(Poly),
    Vt,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PtrV {
    pub reg: Reg,
    pub off: Poly,
    /// provenance [lo, hi) inside the region
    pub lo: Poly,
    pub hi: Poly,
    pub meta: Meta,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Cond {
    K(bool),
    /// p >= 0
    Ge(Poly),
    /// p == 0
    Eq(Poly),
    Not(Rc<Cond>),
    And(Rc<Cond>, Rc<Cond>),
    Or(Rc<Cond>, Rc<Cond>),
    /// a sample is compared with a number
    Ln(Rc<LnCmp>),
    Opaque,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct LnCmp {
    /// a < b (or a <= b)
    pub a: Val,
    pub b: Val,
    pub strict: bool,
    pub unsigned: bool,
}

/// Parallel iterator (rayon) before it is consumed
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum ParIter {
    /// slice pointer, chunk length in elements, element size, element type
    Chunks { ptr: PtrV, chunk: Poly, esz: u64, exact: bool },
    Zip(Rc<ParIter>, Rc<ParIter>),
    Enumerate(Rc<ParIter>),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Val {
    Int(Poly),
    /// enum tag with a known value
    Tag(i128),
    Bool(Cond),
    Ptr(Rc<PtrV>),
    Fns(Rc<Vec<FnId>>),
    Par(Rc<ParIter>),
    /// float in an interval (bit patterns of f64), never a NaN
    F(u64, u64),
    /// an unknown value known only by its identity
    Tok(u32),
    /// the element of an image at a byte offset (only when copies are followed)
    Elem(u8, Poly),
    /// samples, weights and sums of their products
    Ln(Rc<super::lanes::Lane>),
    /// float, vector or otherwise untracked data
    Opaque,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Cell {
    pub off: u64,
    pub sz: u64,
    pub val: Val,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Blob {
    pub cells: Vec<Cell>,
}
impl Blob {
    pub fn one(sz: u64, val: Val) -> Blob {
        Blob { cells: vec![Cell { off: 0, sz, val }] }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fill {
    Unknown,
    Zero,
}

/// what is known about every element of an array
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tmpl {
    /// (offset in element, size, placeholder)
    pub fields: Vec<(u64, u64, Sym)>,
    pub rows: Vec<Poly>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Region {
    pub size: Poly,
    pub cells: Vec<Cell>,
    pub fill: Fill,
    pub esz: u64,
    pub tmpl: Option<Rc<Tmpl>>,
    /// element of a template array currently held exactly: (byte offset of the element, cells)
    pub focus: Option<(Poly, Vec<Cell>)>,
    /// the focused element was written
    pub dirty: bool,
    /// values last read of an element, while nothing was written
    pub memo: Option<(Poly, Vec<Cell>)>,
    pub name: Rc<str>,
    /// index into the list of images of the harness
    pub img: Option<u8>,
    pub writable: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub f: FnId,
    pub locals: Vec<Rc<Vec<Cell>>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Rc<BTreeMap<u64, Rc<Region>>>,
    pub cons: Cons,
    pub in_pool: u32,
    /// states of a loop body kept apart: the last, shorter piece of an iteration
    pub part: u32,
    /// what the driver code did so far
    pub ev: Rc<Vec<super::driver::Ev>>,
}

impl State {
    pub fn new() -> State {
        State { frames: vec![], heap: Rc::new(BTreeMap::new()), cons: Cons::new(), in_pool: 0, part: 0, ev: Rc::new(vec![]) }
    }
    pub fn depth(&self) -> u32 {
        self.frames.len() as u32 - 1
    }
    pub fn region(&self, id: u64) -> Option<&Rc<Region>> {
        self.heap.get(&id)
    }
    pub fn region_mut(&mut self, id: u64) -> Option<&mut Region> {
        Rc::make_mut(&mut self.heap).get_mut(&id).map(Rc::make_mut)
    }
    pub fn local_cells(&self, d: u32, l: u32) -> &Rc<Vec<Cell>> {
        &self.frames[d as usize].locals[l as usize]
    }
    pub fn local_cells_mut(&mut self, d: u32, l: u32) -> &mut Vec<Cell> {
        Rc::make_mut(&mut Rc::make_mut(&mut self.frames[d as usize]).locals[l as usize])
    }
}

/// write `blob` (of `size` bytes) at constant offset `off`
pub fn put(cells: &mut Vec<Cell>, off: u64, size: u64, blob: &[Cell]) {
    if size > 0 {
        // a partial overwrite of a wide value destroys it, except the halves of a fat pointer
        let mut i = 0;
        while i < cells.len() {
            let c = &cells[i];
            if c.off < off + size && off < c.off + c.sz {
                let c = cells.remove(i);
                if c.off < off || c.off + c.sz > off + size {
                    if let Val::Ptr(p) = &c.val {
                        if c.sz == 16 {
                            // keep the untouched half
                            if off >= c.off + 8 {
                                let mut t = (**p).clone();
                                t.meta = Meta::Thin;
                                cells.insert(i, Cell { off: c.off, sz: 8, val: Val::Ptr(Rc::new(t)) });
                                i += 1;
                            } else if off + size <= c.off + 8 {
                                if let Meta::Len(l) = &p.meta {
                                    cells.insert(i, Cell { off: c.off + 8, sz: 8, val: Val::Int(l.clone()) });
                                    i += 1;
                                }
                            }
                        }
                    }
                }
            } else {
                i += 1;
            }
        }
    }
    for c in blob {
        let o = c.off + off;
        let pos = cells.partition_point(|x| x.off < o || (x.off == o && x.sz == 0));
        cells.insert(pos, Cell { off: o, sz: c.sz, val: c.val.clone() });
    }
}

/// cells inside [off, off+size), rebased to 0; wide values cut by the boundary are dropped
pub fn get(cells: &[Cell], off: u64, size: u64) -> Vec<Cell> {
    let mut r = vec![];
    for c in cells {
        if c.off >= off && c.off + c.sz <= off + size {
            r.push(Cell { off: c.off - off, sz: c.sz, val: c.val.clone() });
        } else if let (Val::Ptr(p), 16) = (&c.val, c.sz) {
            if off == c.off && size == 8 {
                let mut t = (**p).clone();
                t.meta = Meta::Thin;
                r.push(Cell { off: 0, sz: 8, val: Val::Ptr(Rc::new(t)) });
            } else if off == c.off + 8 && size == 8 {
                if let Meta::Len(l) = &p.meta {
                    r.push(Cell { off: 0, sz: 8, val: Val::Int(l.clone()) });
                }
            }
        }
    }
    r
}

/// numeric components of a value, in a fixed order; None when the shapes cannot be related
pub fn comps(v: &Val) -> Vec<Poly> {
    match v {
        Val::Int(p) | Val::Elem(_, p) => vec![p.clone()],
        Val::Ptr(p) => {
            let mut r = vec![p.off.clone(), p.lo.clone(), p.hi.clone()];
            if let Meta::Len(l) = &p.meta {
                r.push(l.clone());
            }
            r
        }
        Val::Par(p) => par_comps(p),
        Val::Ln(l) => lane_comps(l),
        _ => vec![],
    }
}
fn par_comps(p: &ParIter) -> Vec<Poly> {
    match p {
        ParIter::Chunks { ptr, chunk, .. } => {
            let mut r = comps(&Val::Ptr(Rc::new(ptr.clone())));
            r.push(chunk.clone());
            r
        }
        ParIter::Zip(a, b) => {
            let mut r = par_comps(a);
            r.extend(par_comps(b));
            r
        }
        ParIter::Enumerate(a) => par_comps(a),
    }
}
/// same value with other numeric components
pub fn with_comps(v: &Val, c: &mut std::slice::Iter<Poly>) -> Val {
    match v {
        Val::Int(_) => Val::Int(c.next().unwrap().clone()),
        Val::Elem(i, _) => Val::Elem(*i, c.next().unwrap().clone()),
        Val::Ptr(p) => Val::Ptr(Rc::new(ptr_with(p, c))),
        Val::Par(p) => Val::Par(Rc::new(par_with(p, c))),
        Val::Ln(l) => Val::Ln(Rc::new(lane_with(l, c))),
        x => x.clone(),
    }
}
fn lane_comps(l: &Lane) -> Vec<Poly> {
    match l {
        Lane::Px(p, _) | Lane::W(p) => vec![p.clone()],
        Lane::Acc { x, res, ser } => {
            let mut r = vec![x.clone(), res.clone()];
            for s in ser {
                r.push(s.k.clone());
                r.push(s.n.clone());
            }
            r
        }
        Lane::Part(l, ..) => lane_comps(l),
        Lane::Vec(c) => c.iter().flat_map(|c| comps(&c.val)).collect(),
        _ => vec![],
    }
}
fn lane_with(l: &Lane, c: &mut std::slice::Iter<Poly>) -> Lane {
    match l {
        Lane::Px(_, n) => Lane::Px(c.next().unwrap().clone(), *n),
        Lane::W(_) => Lane::W(c.next().unwrap().clone()),
        Lane::Acc { ser, .. } => {
            let x = c.next().unwrap().clone();
            let res = c.next().unwrap().clone();
            let ser = ser.iter().map(|s| Ser { k: c.next().unwrap().clone(), n: c.next().unwrap().clone(), m: s.m }).collect();
            Lane::Acc { x, res, ser }
        }
        Lane::Part(l, i, n) => Lane::Part(Rc::new(lane_with(l, c)), *i, *n),
        Lane::Vec(v) => Lane::Vec(v.iter().map(|x| Cell { off: x.off, sz: x.sz, val: with_comps(&x.val, c) }).collect()),
        x => x.clone(),
    }
}
fn lane_same(a: &Lane, b: &Lane) -> bool {
    match (a, b) {
        (Lane::Px(_, a), Lane::Px(_, b)) => a == b,
        (Lane::W(_), Lane::W(_)) => true,
        (Lane::Acc { ser: p, .. }, Lane::Acc { ser: q, .. }) => p.len() == q.len() && p.iter().zip(q).all(|(a, b)| a.m == b.m),
        (Lane::Part(p, i, n), Lane::Part(q, j, m)) => i == j && n == m && lane_same(p, q),
        (Lane::Vec(p), Lane::Vec(q)) => p.len() == q.len() && p.iter().zip(q).all(|(a, b)| a.off == b.off && a.sz == b.sz && same_shape(&a.val, &b.val)),
        (x, y) => x == y,
    }
}
fn ptr_with(p: &PtrV, c: &mut std::slice::Iter<Poly>) -> PtrV {
    PtrV {
        reg: p.reg,
        off: c.next().unwrap().clone(),
        lo: c.next().unwrap().clone(),
        hi: c.next().unwrap().clone(),
        meta: match &p.meta {
            Meta::Len(_) => Meta::Len(c.next().unwrap().clone()),
            m => m.clone(),
        },
    }
}
fn par_with(p: &ParIter, c: &mut std::slice::Iter<Poly>) -> ParIter {
    match p {
        ParIter::Chunks { ptr, esz, exact, .. } => {
            let ptr = ptr_with(ptr, c);
            ParIter::Chunks { ptr, chunk: c.next().unwrap().clone(), esz: *esz, exact: *exact }
        }
        ParIter::Zip(a, b) => {
            let a = par_with(a, c);
            let b = par_with(b, c);
            ParIter::Zip(Rc::new(a), Rc::new(b))
        }
        ParIter::Enumerate(a) => ParIter::Enumerate(Rc::new(par_with(a, c))),
    }
}
/// equal up to numeric components
pub fn same_shape(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Int(_), Val::Int(_)) => true,
        (Val::Elem(a, _), Val::Elem(b, _)) => a == b,
        (Val::Ptr(p), Val::Ptr(q)) => p.reg == q.reg && std::mem::discriminant(&p.meta) == std::mem::discriminant(&q.meta),
        (Val::Par(p), Val::Par(q)) => par_same(p, q),
        (Val::Ln(p), Val::Ln(q)) => lane_same(p, q),
        (Val::Opaque, Val::Opaque) => true,
        (x, y) => x == y,
    }
}
fn par_same(a: &ParIter, b: &ParIter) -> bool {
    match (a, b) {
        (ParIter::Chunks { ptr: p, esz: e, exact: x, .. }, ParIter::Chunks { ptr: q, esz: f, exact: y, .. }) => p.reg == q.reg && e == f && x == y,
        (ParIter::Zip(a, b), ParIter::Zip(c, d)) => par_same(a, c) && par_same(b, d),
        (ParIter::Enumerate(a), ParIter::Enumerate(b)) => par_same(a, b),
        _ => false,
    }
}
