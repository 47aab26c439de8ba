//! Abstract execution of monomorphic MIR.
use super::cfg::{analyse, FnMeta};
use super::mem::*;
use super::num::Cons;
use super::poly::*;
use crate::prog::Prog;
use ps_ir::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    Bool,
    Int { signed: bool, bits: u32 },
    Thin(TyId),
    Fat(TyId),
    FnPtr,
    Opaque,
    Agg,
    Zst,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum ObK {
    /// memory access inside the buffer
    Access,
    /// slice made inside the buffer
    Slice,
    /// explicit panic, failed assertion, division by zero, ...
    Panic,
    /// write into source memory
    SrcWrite,
    /// write outside the pixels of a row
    Padding,
    /// destination not completely written
    Coverage,
    /// destination touched although the call fails
    ErrTouch,
    /// construct the analysis has no model for
    Unmodelled,
    /// thread pool reached under the single-thread policy
    Single,
    /// other rules of a root
    Rule,
    /// rule of a call of a row handler
    Rows,
    /// rule of one property
    Prop(u8),
    /// what a sample of the destination is made of
    Lane,
    /// the same, not known
    LaneUnk,
}

#[derive(Clone, Debug)]
pub struct Ob {
    pub kind: ObK,
    pub f: FnId,
    pub line: u32,
    pub what: String,
    pub ok: bool,
    pub text: String,
}

#[derive(Clone)]
pub struct Loc {
    pub reg: Reg,
    pub off: Poly,
    pub lo: Poly,
    pub hi: Poly,
    pub meta: Meta,
    pub ty: TyId,
    pub variant: Option<u32>,
    pub deref: bool,
}

pub type RunOut = (Vec<(u32, State)>, Vec<State>);

#[derive(Default)]
pub struct RegionOut {
    pub back: Vec<State>,
    pub exits: Vec<(u32, State)>,
    pub rets: Vec<State>,
}

pub struct Interp<'p> {
    pub p: &'p Prog,
    pub meta: HashMap<FnId, Rc<FnMeta>>,
    pub drop_memo: HashMap<TyId, bool>,
    pub obs: Vec<Ob>,
    pub quiet: u32,
    pub div: HashMap<(Poly, Poly), Sym>,
    pub minmax: HashMap<(bool, Poly, Poly), Sym>,
    /// symbols defined as a minimum or maximum
    pub minmax_def: HashMap<Sym, (bool, Poly, Poly)>,
    pub neqs: Vec<Poly>,
    /// facts that would keep a machine operation in range
    pub hints: Vec<Poly>,
    pub next_heap: u64,
    pub deadline: std::time::Instant,
    pub steps: u64,
    pub images: Vec<Image>,
    pub root: String,
    pub field_cache: HashMap<(TyId, u32, u32), (u64, TyId)>,
    pub stack: Vec<(FnId, u32)>,
    pub max_states: usize,
    pub trace: bool,
    pub step_log: bool,
    pub addr_syms: HashMap<Reg, Sym>,
    /// values known to be a run of low one bits: symbol -> number of bits
    pub masks: HashMap<Sym, Poly>,
    /// divisions by constants met so far: dividend, divisor, quotient
    pub divs: Vec<(Poly, i128, Poly)>,
    pub features: HashMap<String, Sym>,
    /// float-only functions skipped at their calls; analysed as roots of their own
    pub float_fns: std::collections::BTreeSet<FnId>,
    pub float_root: Option<FnId>,
    pub assume_single: bool,
    /// kernels are recorded, not entered
    pub stubs: HashMap<FnId, super::driver::StubK>,
    /// every write to the destination must copy the source element of the same position
    pub copy_mode: bool,
    /// block copies seen: source, destination, bytes
    pub block_copies: Vec<(Rc<PtrV>, Rc<PtrV>, Poly)>,
    pub loop_stat: HashMap<(FnId, u32), (u32, u32)>,
    /// array element a symbol was read from: region and byte offset of the element
    pub elt_origin: HashMap<Sym, (Reg, Poly)>,
    /// offset of the field it was read from
    pub elt_field: HashMap<Sym, u64>,
    /// the contents of samples are followed
    pub lanes: Option<Rc<super::lanes::LnCtx>>,
    pub want_lanes: bool,
    pub want_range: bool,
    pub want_alpha: bool,
    /// samples that decide which way is taken
    pub ap_seen: Vec<Poly>,
    /// numbers made from samples
    pub ap_syms: HashMap<Sym, Vec<Poly>>,
    /// samples are compared, so that their range may depend on the path
    pub rg_cmp: bool,
    pub elt_syms: HashMap<(u64, Poly), Poly>,
    pub ln_ks: Option<Poly>,
    /// counters of the loops being generalised
    pub loop_syms: Vec<Sym>,
    /// row handlers called, with the contract their calls were shown to keep
    /// sizes the weights under analysis are made for
    pub weight_sizes: Option<(Poly, Poly)>,
    /// a layer below the drivers is analysed
    pub kern: bool,
    pub kern_targets: std::collections::BTreeSet<(FnId, super::kern::KSpec)>,
}

/// geometry of a harness image, in bytes
#[derive(Clone)]
pub struct Image {
    pub name: &'static str,
    pub width: Poly,
    pub height: Poly,
    pub stride: Poly,
    /// width and height in pixels, stride and length in elements
    pub w: Poly,
    pub h: Poly,
    pub s: Poly,
    pub len: Poly,
    /// the field with the number of channels
    pub ch: Option<Poly>,
    pub depth: Option<Poly>,
    pub cn: u64,
    pub esz: u64,
    pub reg: Reg,
    pub is_dst: bool,
    pub ghost: u64,
    /// rows and columns of writes are followed (the stride is a symbol of its own)
    pub track: bool,
    /// bytes of the alpha lane of a pixel that is changed in place and keeps its alpha (0: none)
    pub alpha: i128,
}

pub const GHOST_INT: u64 = 1;

pub fn show_val(v: &Val) -> String {
    match v {
        Val::Int(p) => p.show(),
        Val::Ptr(p) => format!("{:?}@{}[{},{}]{}", p.reg, p.off.show(), p.lo.show(), p.hi.show(), match &p.meta { Meta::Len(n) => format!("#{}", n.show()), _ => String::new() }),
        Val::Opaque => "?".into(),
        Val::F(a, b) => format!("{:?}..{:?}", f64::from_bits(*a), f64::from_bits(*b)),
        o => { let s = format!("{o:?}"); s.chars().take(80).collect() }
    }
}
pub fn lin_hi(bits: u32, signed: bool) -> (i128, i128) {
    if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, if bits >= 127 { i128::MAX >> 4 } else { (1i128 << bits) - 1 }) }
}

/// types whose drop only gives their own memory back
const OWNERS: [&str; 12] = [
    "::RawVec",
    "error::Custom",
    "error::CustomOwner",
    "error::repr::Repr",
    "crossbeam_deque::deque::Injector",
    "crossbeam_deque::deque::Inner",
    "rayon_core::thread_pool::ThreadPool",
    "array::IntoIter",
    "iter_inner::PolymorphicIter",
    "boxed::Box",
    "sync::Arc",
    "vec::Vec",
];

impl<'p> Interp<'p> {
    pub fn new(p: &'p Prog, root: &str, secs: u64) -> Interp<'p> {
        Interp {
            p,
            meta: HashMap::new(),
            drop_memo: HashMap::new(),
            obs: vec![],
            quiet: 0,
            div: HashMap::new(),
            minmax: HashMap::new(),
            minmax_def: HashMap::new(),
            neqs: vec![],
            hints: vec![],
            next_heap: 100,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(secs),
            steps: 0,
            images: vec![],
            root: root.to_string(),
            field_cache: HashMap::new(),
            stack: vec![],
            max_states: 12,
            trace: false,
            step_log: std::env::var("PS_STEP").is_ok(),
            addr_syms: HashMap::new(),
            masks: HashMap::new(),
            divs: vec![],
            features: HashMap::new(),
            float_fns: Default::default(),
            float_root: None,
            assume_single: false,
            stubs: HashMap::new(),
            copy_mode: false,
            elt_field: HashMap::new(),
            lanes: None,
            want_lanes: false,
            want_range: false,
            want_alpha: false,
            ap_seen: vec![],
            ap_syms: HashMap::new(),
            rg_cmp: false,
            elt_syms: HashMap::new(),
            ln_ks: None,
            loop_syms: vec![],
            block_copies: vec![],
            loop_stat: HashMap::new(),
            elt_origin: HashMap::new(),
            weight_sizes: None,
            kern: false,
            kern_targets: Default::default(),
        }
    }
    pub fn timed_out(&self) -> bool {
        std::time::Instant::now() > self.deadline
    }

    // ---------- types ----------
    pub fn size(&self, t: TyId) -> Option<u64> {
        self.p.t(t).size
    }
    pub fn sz(&self, t: TyId) -> u64 {
        self.p.t(t).size.unwrap_or(0)
    }
    pub fn class(&self, t: TyId) -> K {
        let i = self.p.t(t);
        match &i.kind {
            TyKind::Bool => K::Bool,
            TyKind::Char => K::Int { signed: false, bits: 32 },
            TyKind::Int { signed, bits, .. } => K::Int { signed: *signed, bits: *bits },
            TyKind::Float { .. } => K::Opaque,
            TyKind::Ptr { to, .. } => if i.size == Some(16) { K::Fat(*to) } else { K::Thin(*to) },
            TyKind::FnPtr => K::FnPtr,
            TyKind::Adt { simd: true, .. } => K::Opaque,
            _ => if i.size == Some(0) { K::Zst } else { K::Agg },
        }
    }
    pub fn is_scalar(&self, t: TyId) -> bool {
        !matches!(self.class(t), K::Agg | K::Zst)
    }
    pub fn elem(&self, t: TyId) -> Option<TyId> {
        match &self.p.t(t).kind {
            TyKind::Slice(e) | TyKind::Array(e, _) => Some(*e),
            TyKind::Str => None,
            _ => None,
        }
    }
    pub fn field(&mut self, t: TyId, variant: u32, i: u32) -> (u64, TyId) {
        let info = self.p.t(t);
        match &info.kind {
            TyKind::Tuple(v) => (info.offs[i as usize], v[i as usize]),
            TyKind::Closure { upvars, .. } => (info.offs[i as usize], upvars[i as usize]),
            TyKind::Adt { variants, .. } => {
                let v = &variants[variant as usize];
                // fields of a union, and of variants that cannot be, have no place of their own
                (v.offsets.get(i as usize).copied().unwrap_or(0), v.fields.get(i as usize).map(|f| f.1).unwrap_or(t))
            }
            _ => (0, t),
        }
    }
    /// offset of a chain of named fields (first variant)
    pub fn named(&self, mut t: TyId, path: &[&str]) -> Option<(u64, TyId)> {
        let mut off = 0;
        for n in path {
            match &self.p.t(t).kind {
                TyKind::Adt { variants, .. } => {
                    let v = &variants[0];
                    let i = v.fields.iter().position(|x| x.0 == *n)?;
                    off += v.offsets[i];
                    t = v.fields[i].1;
                }
                _ => return None,
            }
        }
        Some((off, t))
    }
    /// scalar leaves (offset, type); enums contribute tag pseudo-leaves through `tags`
    pub fn leaves(&self, t: TyId, base: u64, out: &mut Vec<(u64, TyId)>, tags: &mut Vec<(u64, TyId)>) {
        if out.len() > 200 {
            return;
        }
        let i = self.p.t(t);
        match &i.kind {
            TyKind::Adt { simd: true, .. } => out.push((base, t)),
            TyKind::Adt { variants, kind, .. } => {
                if i.tag.is_some() {
                    tags.push((base, t));
                }
                match kind {
                    AdtK::Union => {
                        if let Some((k, f)) = variants[0].fields.iter().enumerate().max_by_key(|x| self.sz(x.1 .1)) {
                            self.leaves(f.1, base + variants[0].offsets[k], out, tags);
                        }
                    }
                    _ => {
                        for v in variants {
                            for (k, f) in v.fields.iter().enumerate() {
                                self.leaves(f.1, base + v.offsets[k], out, tags);
                            }
                        }
                    }
                }
            }
            TyKind::Tuple(v) => {
                for (k, f) in v.iter().enumerate() {
                    self.leaves(*f, base + i.offs[k], out, tags);
                }
            }
            TyKind::Closure { upvars, .. } => {
                for (k, f) in upvars.iter().enumerate() {
                    self.leaves(*f, base + i.offs[k], out, tags);
                }
            }
            TyKind::Array(e, n) => {
                if *n <= 64 {
                    let es = self.sz(*e);
                    for k in 0..*n {
                        self.leaves(*e, base + k * es, out, tags);
                    }
                }
            }
            TyKind::Slice(_) | TyKind::Str | TyKind::FnDef(_) | TyKind::Never => {}
            _ => {
                if i.size.unwrap_or(0) > 0 {
                    out.push((base, t))
                }
            }
        }
    }

    // ---------- reporting ----------
    pub fn site_fn(&self, st: &State) -> (FnId, u32) {
        // innermost library function on the stack
        for (f, l) in self.stack.iter().rev() {
            if self.p.f(*f).krate == "pic_scale" {
                return (*f, *l);
            }
        }
        let _ = st;
        self.stack.first().copied().unwrap_or((0, 0))
    }
    pub fn ob(&mut self, st: &State, kind: ObK, what: &str, ok: bool, text: impl FnOnce() -> String) {
        if self.quiet > 0 && ok {
            return;
        }
        if self.quiet > 0 {
            return;
        }
        let (f, line) = self.site_fn(st);
        let text = if ok { String::new() } else { text() };
        if self.trace && !ok {
            eprintln!("FAIL {:?} {} {} : {}", kind, self.p.loc(f, line), what, text);
        }
        self.obs.push(Ob { kind, f, line, what: what.to_string(), ok, text });
    }
    pub fn unmodelled(&mut self, st: &State, what: &str) {
        let w = what.to_string();
        self.ob(st, ObK::Unmodelled, what, false, || w);
    }

    // ---------- values ----------
    pub fn fresh_int(&self, name: &str, signed: bool, bits: u32) -> Poly {
        let (l, h) = lin_hi(bits, signed);
        Poly::sym(fresh(name, l, h))
    }
    pub fn unknown_ptr(&self, fat: bool) -> Val {
        let z = Poly::c(0);
        Val::Ptr(Rc::new(PtrV { reg: Reg::Unknown, off: z.clone(), lo: z.clone(), hi: z, meta: if fat { Meta::Len(self.fresh_int("len?", false, 64)) } else { Meta::Thin } }))
    }
    pub fn fresh_val(&self, t: TyId, name: &str) -> Val {
        match self.class(t) {
            K::Bool => Val::Bool(Cond::Opaque),
            K::Int { signed, bits } => Val::Int(self.fresh_int(name, signed, bits)),
            K::Thin(_) => self.unknown_ptr(false),
            K::Fat(_) => self.unknown_ptr(true),
            _ => Val::Opaque,
        }
    }
    /// integer value within the range of its type
    pub fn resolve(&mut self, st: &mut State, p: &Poly, signed: bool, bits: u32) -> Poly {
        let (lo, hi) = lin_hi(bits, signed);
        if let Some(k) = p.is_const() {
            if k >= lo && k <= hi {
                return p.clone();
            }
            let m = 1i128 << bits;
            let mut r = k.rem_euclid(m);
            if signed && r > hi {
                r -= m;
            }
            return Poly::c(r);
        }
        let fits = |c: &Cons, q: &Poly| {
            let (a, b) = c.range(q);
            (a >= lo || c.entails(&q.addc(-lo))) && (b <= hi || c.entails(&q.neg().addc(hi)))
        };
        if fits(&st.cons, p) {
            return p.clone();
        }
        if bits == 64 || bits == 32 {
            let m = 1i128 << bits;
            let k = p.konst();
            if k >= m / 2 {
                let q = p.addc(-m);
                if fits(&st.cons, &q) {
                    return q;
                }
            }
            if k < -m / 4 {
                let q = p.addc(m);
                if fits(&st.cons, &q) {
                    return q;
                }
            }
        }
        if self.kern && p.syms().len() <= 8 {
            let (a, b) = st.cons.range(p);
            if b > hi {
                self.hints.push(p.neg().addc(hi));
            }
            if a < lo {
                self.hints.push(p.addc(-lo));
            }
        }
        self.fresh_int("wrap", signed, bits)
    }
    pub fn as_cond(&self, v: &Val) -> Cond {
        match v {
            Val::Bool(c) => c.clone(),
            Val::Int(p) => match p.is_const() {
                Some(k) => Cond::K(k != 0),
                None => Cond::Not(Rc::new(Cond::Eq(p.clone()))),
            },
            Val::Tag(k) => Cond::K(*k != 0),
            _ => Cond::Opaque,
        }
    }
    pub fn as_int(&mut self, st: &mut State, v: &Val, signed: bool, bits: u32) -> Poly {
        match v {
            Val::Int(p) => p.clone(),
            Val::Tag(k) => Poly::c(*k),
            Val::Bool(Cond::K(b)) => Poly::c(*b as i128),
            Val::Bool(_) => {
                let s = fresh("bool", 0, 1);
                Poly::sym(s)
            }
            Val::Ptr(p) => self.addr(st, p),
            _ => {
                if let (true, Val::Ln(_), Some(d)) = (self.ap(), v, super::alpha::deps(v)) {
                    // a number made from samples
                    let p = self.fresh_int("int?", signed, bits);
                    if let (false, Some(y)) = (d.is_empty(), p.syms().first()) {
                        self.ap_syms.insert(*y, d);
                    }
                    return p;
                }
                if self.trace && self.lanes.is_some() {
                    eprintln!("  LNINT {} in {:?}", super::lanes::show_lane(v), self.stack.last().map(|f| self.p.f(f.0).path.clone()));
                }
                self.fresh_int("int?", signed, bits)
            }
        }
    }
    pub fn addr(&mut self, _st: &mut State, p: &PtrV) -> Poly {
        if p.reg == Reg::None {
            return p.off.clone();
        }
        if p.reg == Reg::Unknown {
            return self.fresh_int("addr?", false, 64);
        }
        let s = *self.addr_syms.entry(p.reg).or_insert_with(|| fresh("addr", 1, (1 << 62) - 1));
        Poly::sym(s).add(&p.off)
    }
    pub fn as_ptr(&mut self, v: &Val, fat: bool) -> Rc<PtrV> {
        match v {
            Val::Ptr(p) => p.clone(),
            Val::Int(p) => Rc::new(PtrV { reg: Reg::None, off: p.clone(), lo: p.clone(), hi: p.clone(), meta: Meta::Thin }),
            Val::Tag(k) => {
                let p = Poly::c(*k);
                Rc::new(PtrV { reg: Reg::None, off: p.clone(), lo: p.clone(), hi: p, meta: Meta::Thin })
            }
            _ => match self.unknown_ptr(fat) {
                Val::Ptr(p) => p,
                _ => unreachable!(),
            },
        }
    }
    pub fn eval_cond(&self, st: &State, c: &Cond) -> Option<bool> {
        match c {
            Cond::K(b) => Some(*b),
            Cond::Ge(p) => {
                let (lo, hi) = st.cons.range(p);
                if lo >= 0 {
                    return Some(true);
                }
                if hi < 0 {
                    return Some(false);
                }
                if st.cons.entails(p) {
                    Some(true)
                } else if st.cons.entails(&p.neg().addc(-1)) {
                    Some(false)
                } else {
                    None
                }
            }
            Cond::Eq(p) => {
                let (lo, hi) = st.cons.range(p);
                if lo > 0 || hi < 0 {
                    return Some(false);
                }
                if lo == 0 && hi == 0 {
                    return Some(true);
                }
                let g = p.gcd_terms();
                if g > 1 && p.konst() % g != 0 {
                    return Some(false);
                }
                if st.cons.entails_eq(p) {
                    return Some(true);
                }
                if st.cons.entails(&p.addc(-1)) || st.cons.entails(&p.neg().addc(-1)) {
                    return Some(false);
                }
                None
            }
            Cond::Not(c) => self.eval_cond(st, c).map(|b| !b),
            Cond::And(a, b) => match (self.eval_cond(st, a), self.eval_cond(st, b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            Cond::Or(a, b) => match (self.eval_cond(st, a), self.eval_cond(st, b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            Cond::Ln(_) | Cond::Opaque => None,
        }
    }
    /// restrict the state by the condition
    pub fn assume(&mut self, st: &mut State, c: &Cond, truth: bool) {
        self.assume_inner(st, c, truth);
        if !self.stubs.is_empty() && !st.cons.is_bottom() {
            self.settle(st);
        }
        if !self.minmax_def.is_empty() && !st.cons.is_bottom() {
            if let Cond::Ge(p) | Cond::Eq(p) = c {
                // a minimum that is below one of its arguments is the other one
                for s in p.syms() {
                    let Some((max, a, b)) = self.minmax_def.get(&s).cloned() else { continue };
                    let v = Poly::sym(s);
                    for (x, y) in [(&a, &b), (&b, &a)] {
                        let gap = if max { v.sub(y) } else { y.sub(&v) };
                        if st.cons.entails(&gap.addc(-1)) {
                            st.cons.add_ge(&if max { x.sub(&v) } else { v.sub(x) });
                            break;
                        }
                    }
                }
            }
        }
    }
    /// a known image height bounds the row stride, which may settle a saturation
    pub fn settle(&mut self, st: &mut State) {
        for im in self.images.clone() {
            if !st.cons.entails(&im.h.addc(-1)) {
                continue;
            }
            let slack = im.s.sub(&im.w.scale(im.cn as i128));
            if st.cons.entails(&slack) {
                if let Some(t) = slack.mul(&im.h) {
                    if !st.cons.rows.contains(&t) {
                        st.cons.add_ge(&t);
                    }
                }
            }
            for x in [&im.s, &im.w] {
                if let Some(t) = x.mul(&im.h) {
                    let t = t.sub(x);
                    if !st.cons.rows.contains(&t) {
                        st.cons.add_ge(&t);
                    }
                }
            }
        }
        let defs: Vec<(Sym, (bool, Poly, Poly))> = self.minmax_def.iter().map(|(k, v)| (*k, v.clone())).collect();
        // products of a bounded value and a height, inside another bound
        let mut prods: Vec<(Poly, Poly)> = vec![];
        for (s, _) in &defs {
            let v = Poly::sym(*s);
            for im in &self.images {
                let Some(t) = v.mul(&im.h) else { continue };
                if defs.iter().any(|(_, (_, a, b))| *a == t || *b == t) {
                    prods.push((v.clone(), im.h.clone()));
                }
            }
        }
        for (v, h) in &prods {
            if st.cons.entails(&h.addc(-1)) {
                if let Some(t) = v.mul(h) {
                    let t = t.sub(v);
                    if !st.cons.rows.contains(&t) {
                        st.cons.add_ge(&t);
                    }
                }
            }
        }
        for (s, (max, a, b)) in defs {
            let v = Poly::sym(s);
            for (x, y) in [(&a, &b), (&b, &a)] {
                let gap = if max { v.sub(y) } else { y.sub(&v) };
                if st.cons.entails(&gap.addc(-1)) {
                    let r = if max { x.sub(&v) } else { v.sub(x) };
                    if !st.cons.rows.contains(&r) {
                        st.cons.add_ge(&r);
                    }
                    for (q, h) in &prods {
                        if *q == v {
                            if let Some(t) = v.sub(x).mul(h) {
                                if !st.cons.rows.contains(&t) {
                                    st.cons.add_eq(&t);
                                }
                            }
                        }
                    }
                    break;
                }
            }
        }
    }
    fn assume_inner(&mut self, st: &mut State, c: &Cond, truth: bool) {
        match c {
            Cond::K(b) => {
                if *b != truth {
                    st.cons.bottom = true;
                }
            }
            Cond::Ge(p) => {
                if truth {
                    st.cons.add_ge(p)
                } else {
                    st.cons.add_ge(&p.neg().addc(-1))
                }
            }
            Cond::Eq(p) => {
                if truth {
                    st.cons.add_eq(p)
                } else {
                    self.neqs.push(p.clone());
                    let g = p.gcd_terms().max(1);
                    let step = if p.konst() % g == 0 { g } else { 1 };
                    let (lo, hi) = st.cons.range(p);
                    if lo >= 0 || st.cons.entails(p) {
                        st.cons.add_ge(&p.addc(-step));
                    } else if hi <= 0 || st.cons.entails(&p.neg()) {
                        st.cons.add_ge(&p.neg().addc(-step));
                    }
                }
            }
            Cond::Not(c) => self.assume(st, c, !truth),
            Cond::And(a, b) => {
                if truth {
                    self.assume(st, a, true);
                    self.assume(st, b, true);
                } else if self.eval_cond(st, a) == Some(true) {
                    self.assume(st, b, false);
                } else if self.eval_cond(st, b) == Some(true) {
                    self.assume(st, a, false);
                }
            }
            Cond::Or(a, b) => {
                if !truth {
                    self.assume(st, a, false);
                    self.assume(st, b, false);
                } else if self.eval_cond(st, a) == Some(false) {
                    self.assume(st, b, true);
                } else if self.eval_cond(st, b) == Some(false) {
                    self.assume(st, a, true);
                }
            }
            Cond::Ln(c) => self.rg_assume(st, c, truth),
            Cond::Opaque => {}
        }
    }

    // ---------- places ----------
    pub fn local_loc(&self, st: &State, l: u32) -> Loc {
        let d = st.depth();
        let f = st.frames[d as usize].f;
        let ty = self.p.f(f).body.as_ref().unwrap().locals[l as usize];
        Loc { reg: Reg::Local(d, l), off: Poly::c(0), lo: Poly::c(0), hi: Poly::c(self.sz(ty) as i128), meta: Meta::Thin, ty, variant: None, deref: false }
    }
    pub fn place(&mut self, st: &mut State, p: &Place) -> Loc {
        let mut loc = self.local_loc(st, p.local);
        for x in &p.proj {
            match x {
                Proj::Deref => loc = self.deref(st, &loc),
                Proj::Field(i, ty) => {
                    let (o, t) = self.field(loc.ty, loc.variant.or(self.p.t(loc.ty).single).unwrap_or(0), *i);
                    loc.off = loc.off.addc(o as i128);
                    let _ = t;
                    loc.ty = *ty;
                    loc.variant = None;
                }
                Proj::Downcast(v) => loc.variant = Some(*v),
                Proj::Index(l) => {
                    let il = self.local_loc(st, *l);
                    let v = self.load_scalar(st, &il);
                    let p = self.as_int(st, &v, false, 64);
                    let p = self.resolve(st, &p, false, 64);
                    let e = self.elem(loc.ty).unwrap();
                    let es = self.sz(e);
                    if let TyKind::Array(_, n) = self.p.t(loc.ty).kind {
                        loc.meta = Meta::Len(Poly::c(n as i128));
                    }
                    if let Meta::Len(n) = &loc.meta {
                        // indexing inside the slice even when the buffer is larger
                        loc.hi = loc.off.add(&n.scale(es as i128));
                        loc.lo = loc.off.clone();
                    }
                    loc.off = loc.off.add(&p.scale(es as i128));
                    loc.ty = e;
                    loc.meta = Meta::Thin;
                    loc.deref = true;
                }
                Proj::ConstIndex { offset, from_end, .. } => {
                    let e = self.elem(loc.ty).unwrap();
                    let es = self.sz(e) as i128;
                    let n = match self.p.t(loc.ty).kind {
                        TyKind::Array(_, n) => Poly::c(n as i128),
                        _ => match &loc.meta {
                            Meta::Len(n) => n.clone(),
                            _ => Poly::c(0),
                        },
                    };
                    let ix = if *from_end { n.addc(-(*offset as i128)) } else { Poly::c(*offset as i128) };
                    loc.off = loc.off.add(&ix.scale(es));
                    loc.ty = e;
                    loc.meta = Meta::Thin;
                    loc.deref = true;
                }
                Proj::Subslice { from, to, from_end } => {
                    let e = self.elem(loc.ty).unwrap();
                    let es = self.sz(e) as i128;
                    if let Meta::Len(n) = &loc.meta {
                        let end = if *from_end { n.addc(-(*to as i128)) } else { Poly::c(*to as i128) };
                        loc.meta = Meta::Len(end.addc(-(*from as i128)));
                    }
                    loc.off = loc.off.addc(*from as i128 * es);
                }
                Proj::Opaque(t) => loc.ty = *t,
            }
        }
        loc
    }
    pub fn deref(&mut self, st: &mut State, loc: &Loc) -> Loc {
        let (to, fat) = match (&self.p.t(loc.ty).kind, self.class(loc.ty)) {
            (_, K::Thin(t)) => (t, false),
            (_, K::Fat(t)) => (t, true),
            (TyKind::Adt { is_box: true, args, .. }, _) => match args.first() {
                Some(GArg::Ty(t)) => (*t, self.sz(loc.ty) == 16),
                _ => (loc.ty, false),
            },
            _ => (loc.ty, false),
        };
        let v = self.load_at(st, loc, if fat { 16 } else { 8 }, None);
        let p = match v {
            Some(v) => self.as_ptr(&v, fat),
            None => {
                let v = self.lazy_pointee(st, loc, to, fat);
                self.as_ptr(&v, fat)
            }
        };
        Loc { reg: p.reg, off: p.off.clone(), lo: p.lo.clone(), hi: p.hi.clone(), meta: p.meta.clone(), ty: to, variant: None, deref: true }
    }
    /// a pointer read from harness memory for the first time points to a fresh typed region
    fn lazy_pointee(&mut self, st: &mut State, loc: &Loc, to: TyId, fat: bool) -> Val {
        let lazy = match loc.reg {
            Reg::Heap(h) => st.region(h).map(|r| &*r.name == "arg").unwrap_or(false),
            _ => false,
        };
        if !lazy {
            return self.unknown_ptr(fat);
        }
        let v = self.fresh_region_ptr(st, to, fat, "arg");
        let l = loc.clone();
        self.store_raw(st, &l, if fat { 16 } else { 8 }, &[Cell { off: 0, sz: if fat { 16 } else { 8 }, val: v.clone() }]);
        v
    }
    pub fn fresh_region_ptr(&mut self, st: &mut State, to: TyId, fat: bool, name: &str) -> Val {
        let id = self.next_heap;
        self.next_heap += 1;
        let (size, meta, esz) = if fat {
            let es = self.elem(to).map(|e| self.sz(e)).unwrap_or(1).max(1);
            let n = fresh("len", 0, (i64::MAX as i128) / es as i128);
            let n = Poly::sym(n);
            (n.scale(es as i128), Meta::Len(n), es)
        } else {
            (Poly::c(self.sz(to) as i128), Meta::Thin, 0)
        };
        Rc::make_mut(&mut st.heap).insert(
            id,
            Rc::new(Region { size: size.clone(), cells: vec![], fill: Fill::Unknown, esz, tmpl: None, focus: None, dirty: false, memo: None, name: Rc::from(name), img: None, writable: true }),
        );
        Val::Ptr(Rc::new(PtrV { reg: Reg::Heap(id), off: Poly::c(0), lo: Poly::c(0), hi: size, meta }))
    }

    // ---------- memory ----------
    pub fn check_access(&mut self, st: &mut State, loc: &Loc, size: &Poly, write: bool) {
        if size.is_zero() {
            return;
        }
        if let Reg::Local(..) = loc.reg {
            if let (Some(o), Some(l), Some(h), Some(s)) = (loc.off.is_const(), loc.lo.is_const(), loc.hi.is_const(), size.is_const()) {
                if o >= l && o + s <= h {
                    return;
                }
            }
        }
        let what = if write { "write" } else { "read" };
        if matches!(loc.reg, Reg::Unknown) {
            self.ob(st, ObK::Access, what, false, || "access through an untracked pointer".into());
            return;
        }
        if matches!(loc.reg, Reg::None) {
            // harmless when the length is zero
            let ok = st.cons.entails(&size.neg());
            self.ob(st, ObK::Access, what, ok, || "access through a dangling pointer".into());
            return;
        }
        if !write {
            self.look_event(st, loc, size);
        }
        let a = loc.off.sub(&loc.lo);
        let b = loc.hi.sub(&loc.off).sub(size);
        let ok1 = st.cons.entails(&a);
        let ok2 = st.cons.entails(&b);
        let ok = ok1 && ok2;
        let (r, o) = (loc.clone(), size.clone());
        let name = self.reg_name(st, loc.reg);
        let dbg = if !ok && self.quiet == 0 { self.explain(st, &a, &b) } else { String::new() };
        self.ob(st, ObK::Access, what, ok, || format!("{what} of {} bytes at {} of {name} not provably inside [{}, {}){}", o.show(), r.off.show(), r.lo.show(), r.hi.show(), dbg));
    }
    pub fn explain(&self, st: &State, a: &Poly, b: &Poly) -> String {
        let mut s = String::new();
        let mut syms = a.syms();
        syms.extend(b.syms());
        for _ in 0..2 {
            for r in st.cons.rows.iter() {
                if r.syms().iter().any(|x| syms.contains(x)) {
                    let t = format!("\n        known: {} >= 0", r.show());
                    if !s.contains(&t) && s.len() < 9000 {
                        s.push_str(&t);
                    }
                }
            }
            let more: Vec<Sym> = st.cons.rows.iter().filter(|r| r.syms().iter().any(|x| syms.contains(x))).flat_map(|r| r.syms()).collect();
            syms.extend(more);
            syms.sort();
            syms.dedup();
        }
        for x in syms.iter().take(20) {
            let (l, h) = st.cons.range_mono(mono(vec![*x]));
            s.push_str(&format!("\n        {} in [{l}, {h}]", sym_name(*x)));
        }
        s
    }
    pub fn reg_name(&self, st: &State, r: Reg) -> String {
        match r {
            Reg::Heap(h) => st.region(h).map(|x| x.name.to_string()).unwrap_or("freed memory".into()),
            Reg::Local(d, l) => {
                let f = st.frames.get(d as usize).map(|x| x.f);
                match f {
                    Some(f) => {
                        let b = self.p.f(f).body.as_ref().unwrap();
                        b.names.iter().find(|x| x.0 == l).map(|x| x.1.clone()).unwrap_or(format!("local _{l}"))
                    }
                    None => "dead local".into(),
                }
            }
            Reg::Alloc(_) => "constant".into(),
            Reg::None => "nothing".into(),
            Reg::Unknown => "unknown memory".into(),
        }
    }
    pub fn region_cells<'a>(&self, st: &'a State, r: Reg) -> Option<&'a [Cell]> {
        match r {
            Reg::Local(d, l) => st.frames.get(d as usize).and_then(|f| f.locals.get(l as usize)).map(|x| &x[..]),
            Reg::Heap(h) => st.region(h).map(|x| &x.cells[..]),
            _ => None,
        }
    }
    pub fn const_bytes(&self, id: AllocId) -> Option<(&'p Vec<Option<u8>>, &'p Vec<(u64, AllocId)>)> {
        fn go(a: &AllocInfo) -> Option<(&Vec<Option<u8>>, &Vec<(u64, AllocId)>)> {
            match a {
                AllocInfo::Mem { bytes, relocs, .. } => Some((bytes, relocs)),
                AllocInfo::Static { init: Some(i), .. } => go(i),
                _ => None,
            }
        }
        go(&self.p.p.allocs[id as usize])
    }
    pub fn alloc_size(&self, id: AllocId) -> u64 {
        self.const_bytes(id).map(|x| x.0.len() as u64).unwrap_or(0)
    }
    pub fn alloc_ptr(&self, id: AllocId, off: u64, meta: Meta) -> Val {
        if let AllocInfo::Fn(f) = &self.p.p.allocs[id as usize] {
            return Val::Fns(Rc::new(vec![*f]));
        }
        Val::Ptr(Rc::new(PtrV { reg: Reg::Alloc(id), off: Poly::c(off as i128), lo: Poly::c(0), hi: Poly::c(self.alloc_size(id) as i128), meta }))
    }
    fn const_read(&self, id: AllocId, off: u64, size: u64) -> Option<Val> {
        let (b, rl) = self.const_bytes(id)?;
        if off + size > b.len() as u64 {
            return None;
        }
        if let Some(r) = rl.iter().find(|r| r.0 == off) {
            if size == 8 {
                return Some(self.alloc_ptr(r.1, self.word(b, off)? as u64, Meta::Thin));
            }
            if size == 16 {
                let n = self.word(b, off + 8)?;
                return Some(self.alloc_ptr(r.1, self.word(b, off)? as u64, Meta::Len(Poly::c(n as i128))));
            }
            return None;
        }
        if size > 16 {
            return None;
        }
        let mut v: u128 = 0;
        for i in 0..size {
            v |= (b[(off + i) as usize]? as u128) << (8 * i);
        }
        Some(Val::Int(Poly::c(v as i128)))
    }
    fn word(&self, b: &[Option<u8>], off: u64) -> Option<u128> {
        let mut v: u128 = 0;
        for i in 0..8 {
            v |= (b[(off + i) as usize]? as u128) << (8 * i);
        }
        Some(v)
    }

    /// value of exactly `size` bytes at the location, if tracked
    pub fn load_at(&mut self, st: &mut State, loc: &Loc, size: u64, ty: Option<TyId>) -> Option<Val> {
        let _ = ty;
        if let Reg::Alloc(id) = loc.reg {
            let o = loc.off.is_const()?;
            return self.const_read(id, o as u64, size);
        }
        self.focus_element(st, loc, false);
        if let (Reg::Heap(h), None) = (loc.reg, loc.off.is_const()) {
            let r = st.region(h)?;
            let (base, cells) = r.focus.as_ref()?;
            let d = loc.off.sub(base).is_const()?;
            if d < 0 {
                return None;
            }
            let g = get(cells, d as u64, size);
            return g.into_iter().find(|c| c.off == 0 && c.sz == size).map(|c| c.val);
        }
        let o = loc.off.is_const()?;
        if o < 0 {
            return None;
        }
        if let Reg::Heap(h) = loc.reg {
            let r = st.region(h)?;
            if let Some((base, cells)) = &r.focus {
                let d = loc.off.sub(base).is_const()?;
                if d >= 0 {
                    let g = get(cells, d as u64, size);
                    return g.into_iter().find(|c| c.off == 0 && c.sz == size).map(|c| c.val);
                }
                return None;
            }
        }
        let cells = self.region_cells(st, loc.reg)?;
        let g = get(cells, o as u64, size);
        let mut g2 = g.iter().filter(|c| c.off == 0 && c.sz == size);
        if let Some(c) = g2.next() {
            return Some(c.val.clone());
        }
        // pointer + length stored separately
        if size == 16 && g.len() == 2 && g[0].sz == 8 && g[1].sz == 8 {
            if let (Val::Ptr(p), Val::Int(n)) = (&g[0].val, &g[1].val) {
                let mut t = (**p).clone();
                t.meta = Meta::Len(n.clone());
                return Some(Val::Ptr(Rc::new(t)));
            }
            if let (Val::Int(p), Val::Int(n)) = (&g[0].val, &g[1].val) {
                let p = p.clone();
                return Some(Val::Ptr(Rc::new(PtrV { reg: Reg::None, off: p.clone(), lo: p.clone(), hi: p, meta: Meta::Len(n.clone()) })));
            }
        }
        // a wider integer constant or zero fill
        if g.is_empty() {
            if let Reg::Heap(h) = loc.reg {
                let r = st.region(h)?;
                if r.fill == Fill::Zero && !r.cells.iter().any(|c| (c.off as i128) < o + size as i128 && o < (c.off + c.sz) as i128) {
                    return Some(Val::Int(Poly::c(0)));
                }
            }
            for c in cells {
                if let Val::Int(p) = &c.val {
                    if let Some(k) = p.is_const() {
                        if c.off <= o as u64 && c.off + c.sz >= o as u64 + size && c.sz <= 8 && k >= 0 {
                            let sh = (o as u64 - c.off) * 8;
                            let m = if size >= 8 { u64::MAX as i128 } else { (1i128 << (size * 8)) - 1 };
                            return Some(Val::Int(Poly::c((k >> sh) & m)));
                        }
                    }
                }
            }
        }
        None
    }

    /// typed scalar load without an access check
    pub fn load_scalar(&mut self, st: &mut State, loc: &Loc) -> Val {
        let size = self.sz(loc.ty);
        let data = self.lanes.is_some() && match self.class(loc.ty) {
            K::Int { bits, .. } => bits != 64,
            K::Opaque => true,
            _ => false,
        };
        if data && self.ln_data(loc.reg) {
            let c = self.ln_read(st, loc.reg, &loc.off, size);
            return super::lanes::lane(&c, 0, size);
        }
        let mut v = self.load_at(st, loc, size, Some(loc.ty));
        if v.is_none() && self.lanes.is_some() && !matches!(loc.reg, Reg::Alloc(_)) && (data || matches!(self.class(loc.ty), K::Int { .. })) {
            let c = self.ln_read(st, loc.reg, &loc.off, size);
            let l = super::lanes::lane(&c, 0, size);
            if data || l != Val::Opaque {
                v = Some(l);
            }
        }
        match v {
            Some(v) => self.coerce(st, v, loc.ty),
            None => {
                let k = self.class(loc.ty);
                if self.copy_mode && !matches!(k, K::Thin(_) | K::Fat(_) | K::Bool | K::FnPtr) {
                    if let Some(i) = self.image_of(st, loc.reg) {
                        return Val::Elem(i as u8, loc.off.clone());
                    }
                }
                let v = match k {
                    K::Thin(t) => {
                        self.lazy_pointee(st, loc, t, false)
                    }
                    K::Fat(t) => self.lazy_pointee(st, loc, t, true),
                    _ => {
                        let name = self.fresh_name(st, loc);
                        self.fresh_val(loc.ty, &name)
                    }
                };
                // remember what was read from small memory
                let small = match loc.reg {
                    Reg::Local(..) => true,
                    Reg::Heap(h) => st.region(h).map(|r| r.esz == 0).unwrap_or(false),
                    _ => false,
                };
                if small && loc.off.is_const().is_some() && !matches!(k, K::Opaque) {
                    self.store_raw(st, loc, size, &[Cell { off: 0, sz: size, val: v.clone() }]);
                }
                v
            }
        }
    }
    fn fresh_name(&self, st: &State, loc: &Loc) -> String {
        format!("{}@{}", self.reg_name(st, loc.reg), if loc.off.0.len() < 3 { loc.off.show() } else { "..".into() })
    }
    fn coerce(&mut self, st: &mut State, v: Val, ty: TyId) -> Val {
        if self.lanes.is_some() {
            match (&v, self.class(ty)) {
                (Val::Ln(_), K::Int { .. } | K::Opaque) => return v,
                (Val::Opaque, K::Int { bits, .. }) if bits != 64 => return v,
                (Val::Int(_), K::Opaque) if !self.is_float(ty) || !matches!(self.sz(ty), 4 | 8) => return v,
                _ => {}
            }
        }
        if matches!(v, Val::Elem(..) | Val::Tok(_)) && !matches!(self.class(ty), K::Bool | K::Thin(_) | K::Fat(_) | K::FnPtr) {
            return v;
        }
        match self.class(ty) {
            K::Bool => match v {
                Val::Bool(_) => v,
                Val::Opaque => Val::Bool(Cond::Opaque),
                v => Val::Bool(self.as_cond(&v)),
            },
            K::Int { signed, bits } => match v {
                Val::Int(p) => {
                    if let Some(k) = p.is_const() {
                        return Val::Int(self.resolve(st, &Poly::c(k), signed, bits));
                    }
                    Val::Int(p)
                }
                Val::Tag(_) => v,
                v => Val::Int(self.as_int(st, &v, signed, bits)),
            },
            K::Thin(_) => match v {
                Val::Ptr(_) => v,
                v => Val::Ptr(self.as_ptr(&v, false)),
            },
            K::Fat(_) => match v {
                Val::Ptr(_) => v,
                v => Val::Ptr(self.as_ptr(&v, true)),
            },
            K::FnPtr => match v {
                Val::Fns(_) => v,
                Val::Opaque => v,
                _ => Val::Opaque,
            },
            K::Opaque => match v {
                Val::F(..) => v,
                Val::Int(p) if p.is_const().is_some() => self.float_const(ty, p.is_const().unwrap()),
                _ => Val::Opaque,
            },
            _ => v,
        }
    }
    /// float of the given type from its bits
    fn float_const(&self, ty: TyId, k: i128) -> Val {
        let f = match (&self.p.t(ty).kind, self.sz(ty)) {
            (TyKind::Float { .. }, 4) => f32::from_bits(k as u32) as f64,
            (TyKind::Float { .. }, 8) => f64::from_bits(k as u64),
            _ => return Val::Opaque,
        };
        if f.is_nan() { Val::Opaque } else { Val::F(f.to_bits(), f.to_bits()) }
    }
    pub fn is_float(&self, t: TyId) -> bool {
        matches!(self.p.t(t).kind, TyKind::Float { .. })
    }
    pub fn float_val(&self, t: TyId, c: &[f64]) -> Val {
        let rd = |x: f64| if self.sz(t) == 4 { x as f32 as f64 } else { x };
        if c.is_empty() || c.iter().any(|x| x.is_nan()) || !matches!(self.sz(t), 4 | 8) {
            return Val::Opaque;
        }
        let lo = rd(c.iter().copied().fold(f64::INFINITY, f64::min));
        let hi = rd(c.iter().copied().fold(f64::NEG_INFINITY, f64::max));
        Val::F(lo.to_bits(), hi.to_bits())
    }
    pub fn float_bin(&self, op: BinOp, t: TyId, a: &Val, b: &Val) -> Val {
        let (Val::F(a, b), Val::F(c, d)) = (a, b) else { return Val::Opaque };
        let (a, b, c, d) = (f64::from_bits(*a), f64::from_bits(*b), f64::from_bits(*c), f64::from_bits(*d));
        let straddles = |x: f64, y: f64| x <= 0.0 && y >= 0.0;
        let v: Vec<f64> = match op {
            BinOp::Add => vec![a + c, b + d],
            BinOp::Sub => vec![a - d, b - c],
            BinOp::Mul => {
                if (straddles(a, b) && (c.is_infinite() || d.is_infinite())) || (straddles(c, d) && (a.is_infinite() || b.is_infinite())) {
                    return Val::Opaque;
                }
                vec![a * c, a * d, b * c, b * d]
            }
            BinOp::Div => {
                if straddles(c, d) || ((c.is_infinite() || d.is_infinite()) && (a.is_infinite() || b.is_infinite())) {
                    return Val::Opaque;
                }
                vec![a / c, a / d, b / c, b / d]
            }
            _ => return Val::Opaque,
        };
        if matches!(op, BinOp::Add | BinOp::Sub) && [a, b, c, d].iter().any(|x| x.is_infinite()) {
            return Val::Opaque;
        }
        self.float_val(t, &v)
    }
    /// min/max/rounding of floats by name
    pub fn float_fn(&self, name: &str, t: TyId, a: &[Val]) -> Val {
        let f = |v: &Val| if let Val::F(x, y) = v { Some((f64::from_bits(*x), f64::from_bits(*y))) } else { None };
        match (name, a) {
            ("max", [x, y]) => match (f(x), f(y)) {
                (Some((a, b)), Some((c, d))) => self.float_val(t, &[a.max(c), b.max(d)]),
                // a NaN gives the other argument
                (Some((a, _)), None) | (None, Some((a, _))) => self.float_val(t, &[a, f64::INFINITY]),
                _ => Val::Opaque,
            },
            ("min", [x, y]) => match (f(x), f(y)) {
                (Some((a, b)), Some((c, d))) => self.float_val(t, &[a.min(c), b.min(d)]),
                (Some((_, b)), None) | (None, Some((_, b))) => self.float_val(t, &[f64::NEG_INFINITY, b]),
                _ => Val::Opaque,
            },
            ("round", [x]) => f(x).map(|(a, b)| self.float_val(t, &[a.round(), b.round()])).unwrap_or(Val::Opaque),
            ("floor", [x]) => f(x).map(|(a, b)| self.float_val(t, &[a.floor(), b.floor()])).unwrap_or(Val::Opaque),
            ("ceil", [x]) => f(x).map(|(a, b)| self.float_val(t, &[a.ceil(), b.ceil()])).unwrap_or(Val::Opaque),
            ("add", [x, y]) => self.float_bin(BinOp::Add, t, x, y),
            ("sub", [x, y]) => self.float_bin(BinOp::Sub, t, x, y),
            ("mul", [x, y]) => self.float_bin(BinOp::Mul, t, x, y),
            ("div", [x, y]) => self.float_bin(BinOp::Div, t, x, y),
            ("as_", [x]) => f(x).map(|(a, b)| self.float_val(t, &[a, b])).unwrap_or(Val::Opaque),
            _ => Val::Opaque,
        }
    }
    pub fn load(&mut self, st: &mut State, loc: &Loc) -> Blob {
        let size = self.sz(loc.ty);
        if size == 0 {
            return Blob::default();
        }
        if loc.deref {
            self.check_access(st, loc, &Poly::c(size as i128), false);
        }
        if self.is_scalar(loc.ty) {
            if self.lanes.is_some() && !self.is_float(loc.ty) && matches!(self.class(loc.ty), K::Opaque) {
                let cells = self.ln_read(st, loc.reg, &loc.off, size);
                return Blob { cells };
            }
            let v = self.load_scalar(st, loc);
            return Blob::one(size, v);
        }
        if self.ln_data(loc.reg) {
            let cells = self.ln_read(st, loc.reg, &loc.off, size);
            return Blob { cells };
        }
        // aggregate: make the leaves of harness memory explicit first
        let lazy = match loc.reg {
            Reg::Heap(h) => st.region(h).map(|r| r.esz == 0 || r.tmpl.is_some()).unwrap_or(false),
            Reg::Alloc(_) => true,
            _ => false,
        };
        if lazy {
            let mut lv = vec![];
            let mut tags = vec![];
            self.leaves(loc.ty, 0, &mut lv, &mut tags);
            let mut out: Vec<Cell> = vec![];
            for (o, t) in tags {
                let tg = self.p.t(t).tag.clone().unwrap();
                let mut l2 = loc.clone();
                l2.off = l2.off.addc((o + tg.offset) as i128);
                if let Some(v) = self.load_at(st, &l2, tg.size, None) {
                    out.push(Cell { off: o + tg.offset, sz: tg.size, val: v });
                } else if tg.niche.is_none() && matches!(loc.reg, Reg::Heap(_)) {
                    let v = self.lazy_tag(st, &l2, t);
                    out.push(Cell { off: o + tg.offset, sz: tg.size, val: v });
                }
            }
            for (o, t) in lv {
                let s = self.sz(t);
                if out.iter().any(|c| c.off < o + s && o < c.off + c.sz) {
                    continue;
                }
                let mut l2 = loc.clone();
                l2.off = l2.off.addc(o as i128);
                l2.ty = t;
                let v = self.load_scalar(st, &l2);
                out.push(Cell { off: o, sz: s, val: v });
            }
            out.sort_by_key(|c| c.off);
            return Blob { cells: out };
        }
        if let (Some(o), Some(cells)) = (loc.off.is_const(), self.region_cells(st, loc.reg)) {
            if o >= 0 {
                return Blob { cells: get(cells, o as u64, size) };
            }
        }
        if matches!(loc.reg, Reg::Heap(_)) {
            // element of a pixel array: typed leaves, not remembered
            return Blob::default();
        }
        Blob::default()
    }
    /// tag of an enum in harness memory
    pub fn lazy_tag(&mut self, st: &mut State, l2: &Loc, t: TyId) -> Val {
        let info = self.p.t(t);
        let tg = info.tag.clone().unwrap();
        let (mut lo, mut hi) = (i128::MAX, i128::MIN);
        if let TyKind::Adt { variants, .. } = &info.kind {
            for v in variants {
                lo = lo.min(v.discr);
                hi = hi.max(v.discr);
            }
        }
        let v = Val::Int(Poly::sym(fresh("tag", lo, hi)));
        let mut l = l2.clone();
        l.ty = t;
        self.store_raw(st, &l, tg.size, &[Cell { off: 0, sz: tg.size, val: v.clone() }]);
        v
    }

    /// store without checks
    pub fn store_raw(&mut self, st: &mut State, loc: &Loc, size: u64, cells: &[Cell]) {
        match loc.reg {
            Reg::Local(d, l) => match loc.off.is_const() {
                Some(o) if o >= 0 => put(st.local_cells_mut(d, l), o as u64, size, cells),
                _ => st.local_cells_mut(d, l).clear(),
            },
            Reg::Heap(h) => {
                self.focus_element(st, loc, true);
                if let Some(r) = st.region_mut(h) {
                    r.memo = None;
                    r.dirty = true;
                    if let Some((base, fc)) = &mut r.focus {
                        if let Some(d) = loc.off.sub(base).is_const() {
                            if d >= 0 && (d as u64) + size <= r.esz {
                                put(fc, d as u64, size, cells);
                                return;
                            }
                        }
                    }
                    if r.tmpl.is_some() {
                        // unexpected shape of a store into a template array: forget everything
                        r.tmpl = None;
                        r.focus = None;
                        r.memo = None;
                        r.fill = Fill::Unknown;
                        r.cells.clear();
                        return;
                    }
                    match loc.off.is_const() {
                        Some(o) if o >= 0 && r.esz == 0 => put(&mut r.cells, o as u64, size, cells),
                        _ => {
                            r.cells.clear();
                            if r.esz == 0 || !cells.iter().all(|c| matches!(&c.val, Val::Int(p) if p.is_zero())) {
                                r.fill = Fill::Unknown;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    pub fn store(&mut self, st: &mut State, loc: &Loc, size: u64, blob: &Blob) {
        if size == 0 {
            return;
        }
        if loc.deref {
            self.check_access(st, loc, &Poly::c(size as i128), true);
            self.write_event(st, loc, &Poly::c(size as i128));
            if self.lanes.is_some() {
                self.ln_store(st, loc, &Poly::c(size as i128), &blob.cells);
            }
            if self.copy_mode {
                let o = match &blob.cells[..] {
                    [Cell { off: 0, sz, val: Val::Elem(i, o) }] if *sz == size => Some((*i as usize, o.clone())),
                    _ => None,
                };
                self.copy_check(st, loc, o);
            }
        }
        self.store_raw(st, loc, size, &blob.cells);
    }

    // ---------- arrays with element invariants ----------
    fn focus_element(&mut self, st: &mut State, loc: &Loc, _write: bool) {
        let Reg::Heap(h) = loc.reg else { return };
        let Some(r) = st.region(h) else { return };
        let Some(t) = r.tmpl.clone() else { return };
        let esz = r.esz as i128;
        if let Some((base, _)) = &r.focus {
            if let Some(d) = loc.off.sub(base).is_const() {
                if d >= 0 && d < esz {
                    return;
                }
            }
        }
        // element base: the part of the offset that is a multiple of the element size
        let k = loc.off.konst().rem_euclid(esz);
        let base = loc.off.addc(-k);
        if base.0.iter().any(|x| x.1 % esz != 0) {
            return;
        }
        self.flush(st, h);
        if let Some(r) = st.region_mut(h) {
            r.dirty = false;
            if r.memo.as_ref().map(|m| m.0 == base).unwrap_or(false) {
                r.focus = r.memo.clone();
                return;
            }
        }
        let mut rows = vec![];
        let mut cells = vec![];
        let mut sub: Vec<(Sym, Poly)> = vec![];
        let fixed = self.lanes.as_ref().map(|l| l.bounds == h).unwrap_or(false);
        for (o, s, ph) in &t.fields {
            let p = match self.elt_syms.get(&(*o, base.clone())) {
                Some(p) if fixed => p.clone(),
                _ => self.fresh_int("elem", false, (*s * 8) as u32),
            };
            if fixed {
                // memory that is never written: one value per place
                self.elt_syms.insert((*o, base.clone()), p.clone());
            }
            if let [x] = p.syms().as_slice() {
                self.elt_origin.insert(*x, (loc.reg, base.clone()));
                self.elt_field.insert(*x, *o);
            }
            sub.push((*ph, p.clone()));
            cells.push(Cell { off: *o, sz: *s, val: Val::Int(p) });
        }
        for r in &t.rows {
            let mut q = Some(r.clone());
            for (ph, p) in &sub {
                q = q.and_then(|x| x.subst(*ph, p));
            }
            if let Some(q) = q {
                rows.push(q);
            }
        }
        for q in rows {
            st.cons.add_ge(&q);
        }
        if let Some(r) = st.region_mut(h) {
            r.focus = Some((base, cells));
        }
    }
    /// merge the focused element back into the array invariant
    pub fn flush(&mut self, st: &mut State, h: u64) {
        let Some(r) = st.region(h) else { return };
        let Some((base, cells)) = r.focus.clone() else { return };
        let Some(t) = r.tmpl.clone() else { return };
        if !r.dirty {
            if let Some(r) = st.region_mut(h) {
                r.memo = Some((base, cells));
                r.focus = None;
            }
            return;
        }
        let mut sub: Vec<(Sym, Option<Poly>)> = vec![];
        for (o, s, ph) in &t.fields {
            let c = cells.iter().find(|c| c.off == *o && c.sz == *s);
            sub.push((
                *ph,
                match c {
                    Some(Cell { val: Val::Int(p), .. }) => Some(p.clone()),
                    _ => None,
                },
            ));
        }
        let inst = |row: &Poly| -> Option<Poly> {
            let mut q = row.clone();
            for (ph, p) in &sub {
                if q.has_sym(*ph) {
                    q = q.subst(*ph, p.as_ref()?)?;
                }
            }
            Some(q)
        };
        // existing rows that also hold for the element
        let mut rows: Vec<Poly> = vec![];
        let mut lost = vec![];
        for row in &t.rows {
            match inst(row) {
                Some(q) if st.cons.entails(&q) => rows.push(row.clone()),
                _ => lost.push(row.clone()),
            }
        }
        if !lost.is_empty() {
            // weaker candidates implied by the old invariant that the element satisfies too
            let mut old = Cons::new();
            old.rows = st.cons.rows.clone();
            old.iv = st.cons.iv.clone();
            for row in &t.rows {
                old.add_ge(row);
            }
            let scope: Vec<Sym> = self.template_scope(st);
            let ph: Vec<Sym> = t.fields.iter().map(|f| f.2).collect();
            let mut forms: Vec<Poly> = ph.iter().map(|p| Poly::sym(*p)).collect();
            for i in 0..ph.len() {
                for j in i + 1..ph.len() {
                    forms.push(Poly::sym(ph[i]).add(&Poly::sym(ph[j])));
                }
            }
            // what is known of the element itself
            let back: Vec<(Sym, Sym)> = sub.iter().filter_map(|(ph, p)| p.as_ref().and_then(|p| if p.0.len() == 1 && p.0[0].1 == 1 { p.syms().first().map(|s| (*s, *ph)) } else { None })).collect();
            let mut own: Vec<Poly> = vec![];
            for r in st.cons.rows.iter() {
                if r.0.len() <= 4 && r.degree() == 1 && back.iter().any(|b| r.has_sym(b.0)) && own.len() < 24 {
                    let mut c = Some(r.clone());
                    for (e, ph) in &back {
                        c = c.and_then(|c| c.subst(*e, &Poly::sym(*ph)));
                    }
                    own.extend(c);
                }
            }
            for c in own {
                if let Some(q) = inst(&c) {
                    if !rows.contains(&c) && st.cons.entails(&q) && old.entails(&c) {
                        rows.push(c);
                    }
                }
            }
            for f in &forms {
                let mut cands = vec![f.clone(), f.addc(-1)];
                // small constant bounds, which are not raised again once they are lost
                if self.kern && !lost.iter().any(|r| r.terms() == f.neg().terms() && r.konst() > 0) {
                    if let Some(q) = inst(f) {
                        let k = old.range(f).1.max(st.cons.range(&q).1);
                        if k > 0 && k <= 4096 {
                            cands.push(f.neg().addc(k));
                        }
                    }
                }
                for s in &scope {
                    cands.push(Poly::sym(*s).sub(f));
                    cands.push(Poly::sym(*s).sub(f).addc(-1));
                }
                for c in cands {
                    if let Some(q) = inst(&c) {
                        if st.cons.entails(&q) && old.entails(&c) && !rows.contains(&c) {
                            rows.push(c);
                        }
                    }
                }
            }
        }
        let nt = Tmpl { fields: t.fields.clone(), rows };
        if let Some(r) = st.region_mut(h) {
            r.tmpl = Some(Rc::new(nt));
            r.focus = None;
        }
    }
    /// symbols that may bound array elements: harness parameters and sizes
    fn template_scope(&self, st: &State) -> Vec<Sym> {
        let mut v: Vec<Sym> = vec![];
        for fr in &st.frames {
            for l in &fr.locals {
                for c in l.iter() {
                    if let Val::Int(p) = &c.val {
                        if p.0.len() == 1 && p.0[0].1 == 1 {
                            let s = mono_syms(p.0[0].0);
                            if s.len() == 1 && !v.contains(&s[0]) {
                                v.push(s[0]);
                            }
                        }
                    }
                }
            }
        }
        v.sort();
        v.truncate(40);
        v
    }
    pub fn flush_all(&mut self, st: &mut State) {
        let ids: Vec<u64> = st.heap.iter().filter(|(_, r)| r.focus.is_some()).map(|(i, _)| *i).collect();
        for i in ids {
            self.flush(st, i);
        }
    }

    // ---------- operands ----------
    pub fn op_ty(&mut self, st: &mut State, o: &Operand) -> TyId {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.place_ty(st, p),
            Operand::Const(t, _) => *t,
            Operand::RuntimeCheck => 0,
        }
    }
    /// does dropping a value of this type run code that changes anything but its own memory?
    fn drops(&mut self, ty: TyId) -> bool {
        if let Some(b) = self.drop_memo.get(&ty) {
            return *b;
        }
        self.drop_memo.insert(ty, false);
        let parts: Vec<TyId> = match &self.p.t(ty).kind {
            TyKind::Array(t, _) | TyKind::Slice(t) => vec![*t],
            TyKind::Tuple(v) => v.clone(),
            TyKind::Closure { upvars, .. } => upvars.clone(),
            TyKind::Adt { drops: true, path, .. } if !OWNERS.iter().any(|o| path.ends_with(o)) => {
                self.drop_memo.insert(ty, true);
                return true;
            }
            TyKind::Adt { path, .. } if path.ends_with("ManuallyDrop") || path.ends_with("MaybeUninit") => vec![],
            TyKind::Adt { variants, args, .. } => variants
                .iter()
                .flat_map(|v| v.fields.iter().map(|f| f.1))
                .chain(args.iter().filter_map(|a| if let GArg::Ty(t) = a { Some(*t) } else { None }))
                .collect(),
            _ => vec![],
        };
        let r = parts.into_iter().any(|t| self.drops(t));
        self.drop_memo.insert(ty, r);
        r
    }

    /// the effect of a value's drop, for the guards the standard library keeps lengths with
    fn drop_place(&mut self, st: &mut State, p: &Place, ty: TyId, depth: u32) {
        if !self.drops(ty) {
            return;
        }
        let kids: Vec<(u32, TyId)> = match &self.p.t(ty).kind {
            TyKind::Tuple(v) | TyKind::Closure { upvars: v, .. } => v.iter().enumerate().map(|(i, t)| (i as u32, *t)).collect(),
            TyKind::Adt { path, variants, .. } if path.ends_with("::SetLenOnDrop") => {
                let f = &variants[0].fields;
                let at = |n: &str| f.iter().position(|x| x.0 == n).map(|i| (i as u32, f[i].1));
                if let (Some(l), Some(n)) = (at("len"), at("local_len")) {
                    let sub = |q: (u32, TyId)| {
                        let mut x = p.clone();
                        x.proj.push(Proj::Field(q.0, q.1));
                        x
                    };
                    let from = self.place(st, &sub(n));
                    let v = self.load(st, &from);
                    let mut to = sub(l);
                    to.proj.push(Proj::Deref);
                    let to = self.place(st, &to);
                    let size = self.sz(n.1);
                    self.store(st, &to, size, &v);
                    return;
                }
                vec![]
            }
            TyKind::Adt { drops: false, kind: AdtK::Struct, variants, .. } => variants[0].fields.iter().enumerate().map(|(i, f)| (i as u32, f.1)).collect(),
            _ => vec![],
        };
        if kids.is_empty() || depth > 8 {
            let n = self.p.t(ty).name.clone();
            self.unmodelled(st, &format!("the drop of {n}"));
            return;
        }
        for (i, t) in kids {
            let mut x = p.clone();
            x.proj.push(Proj::Field(i, t));
            self.drop_place(st, &x, t, depth + 1);
        }
    }

    fn place_ty(&mut self, st: &State, p: &Place) -> TyId {
        let f = st.frames.last().unwrap().f;
        let mut t = self.p.f(f).body.as_ref().unwrap().locals[p.local as usize];
        for x in &p.proj {
            match x {
                Proj::Deref => {
                    t = match &self.p.t(t).kind {
                        TyKind::Ptr { to, .. } => *to,
                        TyKind::Adt { is_box: true, args, .. } => match args.first() {
                            Some(GArg::Ty(t)) => *t,
                            _ => t,
                        },
                        _ => t,
                    }
                }
                Proj::Field(_, ty) => t = *ty,
                Proj::Index(_) | Proj::ConstIndex { .. } => t = self.elem(t).unwrap_or(t),
                Proj::Opaque(ty) => t = *ty,
                _ => {}
            }
        }
        t
    }
    pub fn operand(&mut self, st: &mut State, o: &Operand) -> Blob {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let l = self.place(st, p);
                self.load(st, &l)
            }
            Operand::Const(t, c) => self.constant(*t, c),
            Operand::RuntimeCheck => Blob::one(1, Val::Bool(Cond::K(false))),
        }
    }
    pub fn scalar(&mut self, st: &mut State, o: &Operand) -> Val {
        let b = self.operand(st, o);
        if self.lanes.is_some() {
            let t = self.op_ty(st, o);
            let n = self.sz(t);
            if matches!(self.class(t), K::Int { .. } | K::Opaque) && !b.cells.is_empty() && !b.cells.iter().any(|c| c.off == 0 && c.sz == n) {
                return super::lanes::lane(&b.cells, 0, n);
            }
        }
        match b.cells.into_iter().find(|c| c.off == 0) {
            Some(c) => c.val,
            None => {
                let t = self.op_ty(st, o);
                self.fresh_val(t, "undef")
            }
        }
    }
    pub fn constant(&mut self, t: TyId, c: &Const) -> Blob {
        let size = self.sz(t);
        match c {
            Const::Zst => Blob::default(),
            Const::Bits(b) => {
                let mut lv = vec![];
                let mut tags = vec![];
                self.leaves(t, 0, &mut lv, &mut tags);
                let leaf = lv.iter().find(|x| x.0 == 0 && self.sz(x.1) == size).map(|x| x.1).unwrap_or(t);
                let v = match self.class(leaf) {
                    _ if !tags.is_empty() && self.p.t(t).tag.is_some() => Val::Tag(*b as i128),
                    K::Bool => Val::Bool(Cond::K(*b != 0)),
                    K::Int { signed, bits } => {
                        let mut k = *b as i128;
                        if signed && bits < 128 && k >= 1i128 << (bits - 1) {
                            k -= 1i128 << bits;
                        }
                        Val::Int(Poly::c(k))
                    }
                    K::Thin(_) => {
                        let p = Poly::c(*b as i128);
                        Val::Ptr(Rc::new(PtrV { reg: Reg::None, off: p.clone(), lo: p.clone(), hi: p, meta: Meta::Thin }))
                    }
                    _ => self.float_const(leaf, *b as i128),
                };
                Blob::one(size, v)
            }
            Const::Ptr(a, o) => Blob::one(size, self.alloc_ptr(*a, *o, Meta::Thin)),
            Const::Bytes(b, rl) => {
                let mut lv = vec![];
                let mut tags = vec![];
                self.leaves(t, 0, &mut lv, &mut tags);
                let mut out: Vec<Cell> = vec![];
                let bits = |o: u64, s: u64| -> i128 {
                    let mut v: u128 = 0;
                    for i in 0..s.min(8) {
                        if let Some(x) = b.get((o + i) as usize) {
                            v |= (*x as u128) << (8 * i);
                        }
                    }
                    v as i128
                };
                for (o, ty) in tags {
                    let tg = self.p.t(ty).tag.clone().unwrap();
                    if !tg.ptr {
                        out.push(Cell { off: o + tg.offset, sz: tg.size, val: Val::Tag(bits(o + tg.offset, tg.size)) });
                    }
                }
                for (o, ty) in lv {
                    let s = self.sz(ty);
                    if out.iter().any(|c| c.off < o + s && o < c.off + c.sz) {
                        continue;
                    }
                    let v = match self.class(ty) {
                        K::Bool => Val::Bool(Cond::K(bits(o, s) != 0)),
                        K::Int { signed, bits: nb } => {
                            let mut k = bits(o, s);
                            if signed && nb < 64 && k >= 1i128 << (nb - 1) {
                                k -= 1i128 << nb;
                            }
                            if signed && nb == 64 && k > i64::MAX as i128 {
                                k -= 1i128 << 64;
                            }
                            Val::Int(Poly::c(k))
                        }
                        K::Thin(_) | K::FnPtr => match rl.iter().find(|r| r.0 == o) {
                            Some(r) => self.alloc_ptr(r.1, bits(o, 8) as u64, Meta::Thin),
                            None => {
                                let p = Poly::c(bits(o, 8));
                                Val::Ptr(Rc::new(PtrV { reg: Reg::None, off: p.clone(), lo: p.clone(), hi: p, meta: Meta::Thin }))
                            }
                        },
                        K::Fat(_) => match rl.iter().find(|r| r.0 == o) {
                            Some(r) => self.alloc_ptr(r.1, bits(o, 8) as u64, Meta::Len(Poly::c(bits(o + 8, 8)))),
                            None => {
                                let p = Poly::c(bits(o, 8));
                                Val::Ptr(Rc::new(PtrV { reg: Reg::None, off: p.clone(), lo: p.clone(), hi: p, meta: Meta::Len(Poly::c(bits(o + 8, 8))) }))
                            }
                        },
                        _ => self.float_const(ty, bits(o, s)),
                    };
                    out.push(Cell { off: o, sz: s, val: v });
                }
                out.sort_by_key(|c| c.off);
                Blob { cells: out }
            }
            Const::Unk(_) => Blob::default(),
        }
    }

    // ---------- arithmetic ----------
    pub fn div_floor(&mut self, st: &mut State, a: &Poly, b: &Poly) -> Option<Poly> {
        // both nonnegative
        if let (Some(x), Some(y)) = (a.is_const(), b.is_const()) {
            if y > 0 && x >= 0 {
                return Some(Poly::c(x / y));
            }
        }
        if !(st.cons.entails(a) && st.cons.entails(&b.addc(-1))) {
            return None;
        }
        if let Some(q) = a.div_exact(b) {
            return Some(q);
        }
        if let Some(x) = super::num::apply_defs(a, &st.cons.defs()) {
            if let Some(q) = x.div_exact(b) {
                return Some(q);
            }
        }
        // a product with the divisor the dividend is known to equal
        if b.0.len() == 1 {
            let (bm, bk) = b.0[0];
            let mut cand: Vec<Poly> = vec![];
            for r in st.cons.rows.iter() {
                for (m, k) in r.0.iter() {
                    if let Some(x) = mono_div(*m, bm) {
                        if x != mono(vec![]) && k.abs() % bk == 0 {
                            let c = Poly::from_vec(vec![(x, 1)]);
                            if !cand.contains(&c) {
                                cand.push(c);
                            }
                        }
                    }
                }
            }
            for c in cand.into_iter().take(6) {
                if let Some(t) = c.mul(b) {
                    if st.cons.entails_eq(&a.sub(&t)) {
                        return Some(c);
                    }
                }
            }
        }
        // a common factor of both is cancelled
        if b.0.len() == 1 && b.0[0].1 > 1 && b.is_const().is_none() {
            let (bm, bk) = b.0[0];
            let unit = Poly::from_vec(vec![(bm, 1)]);
            let mut cand: Vec<Poly> = a.div_exact(&unit).into_iter().collect();
            cand.extend(super::num::apply_defs(a, &st.cons.defs()).and_then(|x| x.div_exact(&unit)));
            for r in st.cons.rows.iter() {
                for (m, k) in r.0.iter() {
                    if let Some(x) = mono_div(*m, bm) {
                        if x != mono(vec![]) && k.abs() == 1 {
                            let c = Poly::from_vec(vec![(x, 1)]);
                            if !cand.contains(&c) {
                                cand.push(c);
                            }
                        }
                    }
                }
            }
            for c in cand.into_iter().take(6) {
                if let Some(t) = c.mul(&unit) {
                    if st.cons.entails_eq(&a.sub(&t)) {
                        let c = super::num::apply_defs(&c, &st.cons.defs()).filter(|d| d.0.len() == 1).unwrap_or(c);
                        let q = self.div_floor(st, &c, &Poly::c(bk))?;
                        let bq = q.mul(b)?;
                        st.cons.add_ge(&a.sub(&bq));
                        st.cons.add_ge(&bq.add(b).addc(-1).sub(a));
                        return Some(q);
                    }
                }
            }
        }
        // the quotient is made of quotients by multiples of the divisor
        if let (true, Some(k)) = (self.kern, b.is_const()) {
            let mut front = vec![(Poly::c(0), a.clone())];
            for _ in 0..3 {
                let mut next = vec![];
                for (c, r) in &front {
                    for (ea, ek, eq) in self.divs.iter().filter(|e| e.1 % k == 0) {
                        if next.len() < 8 && ea == r {
                            let (c, r) = (c.add(&eq.scale(ek / k)), r.sub(&eq.scale(*ek)));
                            if st.cons.entails(&r) && st.cons.entails(&r.neg().addc(k - 1)) {
                                return Some(c);
                            }
                            next.push((c, r));
                        }
                    }
                }
                front = next;
            }
        }
        let key = (a.clone(), b.clone());
        let (_, ah) = st.cons.range(a);
        let s = *self.div.entry(key).or_insert_with(|| fresh("q", 0, (1i128 << 64) - 1));
        let q = Poly::sym(s);
        let bq = q.mul(b)?;
        let mut top = Poly::c(ah.min((1 << 64) - 1)).sub(&q);
        if let Some(k) = b.is_const() {
            top = Poly::c(ah.min((1 << 64) - 1) / k).sub(&q);
            let e = (a.clone(), k, q.clone());
            if self.kern && !self.divs.contains(&e) {
                self.divs.push(e);
            }
        }
        st.cons.add_ge(&top);
        // b*q <= a
        st.cons.add_ge(&a.sub(&bq));
        // a <= b*q + b - 1
        st.cons.add_ge(&bq.add(b).addc(-1).sub(a));
        // q <= a
        st.cons.add_ge(&a.sub(&q));
        Some(q)
    }
    pub fn min_max(&mut self, st: &mut State, a: &Poly, b: &Poly, max: bool) -> Poly {
        let d = a.sub(b);
        if st.cons.entails(&d) {
            return if max { a.clone() } else { b.clone() };
        }
        if st.cons.entails(&d.neg()) {
            return if max { b.clone() } else { a.clone() };
        }
        let s = *self.minmax.entry((max, a.clone(), b.clone())).or_insert_with(|| fresh(if max { "max" } else { "min" }, -(1 << 64), 1 << 64));
        self.minmax_def.insert(s, (max, a.clone(), b.clone()));
        let v = Poly::sym(s);
        let (al, ah) = st.cons.range(a);
        let (bl, bh) = st.cons.range(b);
        if max {
            st.cons.add_ge(&v.sub(a));
            st.cons.add_ge(&v.sub(b));
            st.cons.add_ge(&Poly::c(ah.max(bh)).sub(&v));
            self.hull_bounds(st, &v, a, b, false);
        } else {
            st.cons.add_ge(&a.sub(&v));
            st.cons.add_ge(&b.sub(&v));
            st.cons.add_ge(&v.addc(-al.min(bl)));
            self.hull_bounds(st, &v, a, b, true);
        }
        if self.lanes.is_some() {
            // the two are never far apart in one direction
            for (x, y) in [(a, b), (b, a)] {
                let d = if max { y.sub(x) } else { x.sub(y) };
                let k = st.cons.range(&d).1.max(0);
                if k <= 64 {
                    st.cons.add_ge(&if max { x.addc(k).sub(&v) } else { v.sub(x).addc(k) });
                }
            }
        }
        v
    }
    /// bounds of min(a,b) / max(a,b) on the other side, from rows that bound both
    fn hull_bounds(&mut self, st: &mut State, v: &Poly, a: &Poly, b: &Poly, lower: bool) {
        let mut add = vec![];
        let mut rows: Vec<Poly> = st.cons.rows.to_vec();
        if self.kern {
            // and what follows from two of them
            let two: Vec<&Poly> = st.cons.rows.iter().filter(|r| r.degree() <= 1 && r.terms().len() == 2).collect();
            for r in two {
                for t in r.terms() {
                    for q in st.cons.rows.iter() {
                        if q.degree() <= 1 && q.coef(t.0) == -t.1 && t.1.abs() == 1 {
                            rows.push(r.add(q));
                        }
                    }
                }
            }
        }
        for r in rows.iter() {
            for (x, y) in [(a, b), (b, a)] {
                // r = k*x + rest  with k > 0 (lower bound) or k < 0 (upper bound)
                let Some(t0) = x.terms().first() else { continue };
                let k0 = r.coef(t0.0);
                if k0 == 0 || k0 % t0.1 != 0 {
                    continue;
                }
                let k = k0 / t0.1;
                if (k > 0) != lower {
                    continue;
                }
                let rest = r.sub(&x.scale(k));
                if rest.terms().len() >= r.terms().len() {
                    continue;
                }
                if st.cons.entails(&rest.add(&y.scale(k))) {
                    add.push(rest.add(&v.scale(k)));
                }
            }
        }
        for q in add {
            st.cons.add_ge(&q);
        }
    }

    pub fn ty_int(&self, t: TyId) -> (bool, u32) {
        match self.class(t) {
            K::Int { signed, bits } => (signed, bits),
            K::Bool => (false, 8),
            _ => (false, 64),
        }
    }

    pub fn binop(&mut self, st: &mut State, op: BinOp, ta: TyId, a: Val, b: Val, tb: TyId) -> Val {
        use BinOp::*;
        let ka = self.class(ta);
        match op {
            Offset => {
                let to = match ka {
                    K::Thin(t) => t,
                    _ => return self.unknown_ptr(false),
                };
                let es = self.sz(to) as i128;
                let p = self.as_ptr(&a, false);
                let (s, n) = self.ty_int(tb);
                let k = self.as_int(st, &b, s, n);
                let mut q = (*p).clone();
                q.off = q.off.add(&k.scale(es));
                if q.off.too_big() {
                    return self.unknown_ptr(false);
                }
                return Val::Ptr(Rc::new(q));
            }
            Eq | Ne | Lt | Le | Gt | Ge if self.lanes.is_some() && !matches!(ka, K::Bool | K::Thin(_) | K::Fat(_)) && [&a, &b].iter().any(|v| matches!(v, Val::Ln(_) | Val::Opaque)) => {
                if self.ap() {
                    self.ap_compared(&a, &b);
                    return Val::Bool(Cond::Opaque);
                }
                if !matches!(op, Eq | Ne) && [&a, &b].iter().any(|v| matches!(v, Val::Ln(_))) {
                    let (s, n) = self.ty_int(ta);
                    if let Some(c) = self.rg_compare(op, &a, &b, matches!(ka, K::Int { .. }) && !s, matches!(ka, K::Int { .. }).then_some(n)) {
                        return Val::Bool(c);
                    }
                    self.rg_cmp = true;
                }
                return Val::Bool(Cond::Opaque);
            }
            Eq | Ne | Lt | Le | Gt | Ge => {
                let c = self.compare(st, op, ta, &a, &b);
                return Val::Bool(c);
            }
            Cmp => {
                let (s, n) = self.ty_int(ta);
                let x = self.as_int(st, &a, s, n);
                let x = self.resolve(st, &x, s, n);
                let y = self.as_int(st, &b, s, n);
                let y = self.resolve(st, &y, s, n);
                let d = x.sub(&y);
                if st.cons.entails_eq(&d) {
                    return Val::Tag(0);
                }
                if st.cons.entails(&d.addc(-1)) {
                    return Val::Tag(1);
                }
                if st.cons.entails(&d.neg().addc(-1)) {
                    return Val::Tag(255);
                }
                return Val::Opaque;
            }
            _ => {}
        }
        if ka == K::Bool {
            let (x, y) = (self.as_cond(&a), self.as_cond(&b));
            let c = match (op, &x, &y) {
                (And, Cond::K(true), o) | (And, o, Cond::K(true)) => o.clone(),
                (And, Cond::K(false), _) | (And, _, Cond::K(false)) => Cond::K(false),
                (Or, Cond::K(false), o) | (Or, o, Cond::K(false)) => o.clone(),
                (Or, Cond::K(true), _) | (Or, _, Cond::K(true)) => Cond::K(true),
                (Xor, Cond::K(false), o) | (Xor, o, Cond::K(false)) => o.clone(),
                (Xor, Cond::K(true), o) | (Xor, o, Cond::K(true)) => Cond::Not(Rc::new(o.clone())),
                (And, x, y) => Cond::And(Rc::new(x.clone()), Rc::new(y.clone())),
                (Or, x, y) => Cond::Or(Rc::new(x.clone()), Rc::new(y.clone())),
                _ => Cond::Opaque,
            };
            return Val::Bool(c);
        }
        if self.rg() {
            let (s, n) = self.ty_int(ta);
            if let Some(v) = self.rg_shift(op, &a, &b, s, n) {
                return v;
            }
        }
        if self.lanes.is_some() && [&a, &b].iter().any(|v| matches!(v, Val::Ln(_) | Val::Opaque)) {
            let w = self.sz(ta) as u32 * 8;
            let v = if self.ap() {
                self.ap_binop(op, &a, &b, w)
            } else if self.rg() {
                let signed = self.is_float(ta) || self.ty_int(ta).0;
                self.rg_binop(op, &a, &b, signed, w)
            } else {
                self.ln_binop(st, op, &a, &b, w)
            };
            if v == Val::Opaque && self.trace {
                eprintln!("  LNOP {op:?} {} , {}", super::lanes::show_lane(&a), super::lanes::show_lane(&b));
            }
            if v != Val::Opaque || w != 64 || self.is_float(ta) {
                return v;
            }
        }
        if self.is_float(ta) {
            let v = self.float_bin(op, ta, &a, &b);
            // a number that no sample is in
            return if v == Val::Opaque && self.ap() && super::lanes::is_k(&a) && super::lanes::is_k(&b) { super::lanes::ln(super::lanes::Lane::K) } else { v };
        }
        let K::Int { signed, bits } = ka else { return Val::Opaque };
        let x = self.as_int(st, &a, signed, bits);
        let (sb, nb) = self.ty_int(tb);
        let y = self.as_int(st, &b, sb, nb);
        let fresh_r = |s: &Self| Val::Int(s.fresh_int("v", signed, bits));
        let r = match op {
            Add => Some(x.add(&y)),
            Sub => Some(x.sub(&y)),
            Mul => {
                let r = x.mul(&y);
                // table sizes derived from floating-point numbers are assumed not to overflow
                if let (Some(r), false, 64) = (&r, signed, bits) {
                    if x.syms().iter().chain(y.syms().iter()).any(|s| sym_name(*s).starts_with("fptoint")) {
                        st.cons.add_ge(&r.neg().addc(u64::MAX as i128));
                    }
                }
                r
            }
            Div | Rem => {
                let x = self.resolve(st, &x, signed, bits);
                let y = self.resolve(st, &y, signed, bits);
                match self.div_floor(st, &x, &y) {
                    Some(q) => {
                        if op == Div {
                            Some(q)
                        } else {
                            match q.mul(&y) {
                                Some(m) => {
                                    let r = x.sub(&m);
                                    Some(if !r.is_zero() && r.degree() > 1 && st.cons.entails_eq(&r) { Poly::c(0) } else { r })
                                }
                                None => None,
                            }
                        }
                    }
                    None => {
                        let v = self.fresh_int(if op == Div { "div" } else { "rem" }, signed, bits);
                        if op == Rem && !signed {
                            st.cons.add_ge(&y.sub(&v).addc(-1));
                        }
                        Some(v)
                    }
                }
            }
            Shl => match y.is_const() {
                Some(k) if k >= 0 && k < bits as i128 => x.checked_scale(1i128 << k),
                _ => None,
            },
            Shr => match y.is_const() {
                Some(k) if k >= 0 && k < bits as i128 => {
                    let x = self.resolve(st, &x, signed, bits);
                    let d = Poly::c(1i128 << k);
                    match self.div_floor(st, &x, &d) {
                        Some(q) => Some(q),
                        None => {
                            let (l, h) = st.cons.range(&x);
                            Some(Poly::sym(fresh("shr", l >> k, h >> k)))
                        }
                    }
                }
                _ => {
                    let x = self.resolve(st, &x, signed, bits);
                    if st.cons.entails(&x) {
                        let v = self.fresh_int("shr", signed, bits);
                        st.cons.add_ge(&x.sub(&v));
                        st.cons.add_ge(&v);
                        if x.is_const() == Some(lin_hi(bits, false).1) && !signed {
                            let y = self.resolve(st, &y, sb, nb);
                            if st.cons.entails(&y) && st.cons.entails(&y.neg().addc(bits as i128 - 1)) {
                                if let Some((m, 1)) = v.terms().first().copied() {
                                    self.masks.insert(mono_syms(m)[0], y.neg().addc(bits as i128));
                                }
                            }
                        }
                        Some(v)
                    } else {
                        None
                    }
                }
            },
            And => {
                let (x, y) = if x.is_const().is_some() { (y, x) } else { (x, y) };
                match y.is_const() {
                    Some(m) => {
                        let full = if bits >= 127 { return fresh_r(self) } else { (1i128 << bits) - 1 };
                        let mm = m & full;
                        if let Some(k) = x.is_const() {
                            let r = (k & full) & mm;
                            return Val::Int(self.resolve(st, &Poly::c(r), signed, bits));
                        }
                        let rx = self.resolve(st, &x, signed, bits);
                        let nonneg = st.cons.entails(&rx);
                        if nonneg && (mm + 1) & mm == 0 {
                            // low bits
                            match self.div_floor(st, &rx, &Poly::c(mm + 1)) {
                                Some(q) => Some(rx.sub(&q.scale(mm + 1))),
                                None => Some(Poly::sym(fresh("and", 0, mm))),
                            }
                        } else if nonneg && ((full ^ mm) + 1) & (full ^ mm) == 0 {
                            let low = full ^ mm;
                            match self.div_floor(st, &rx, &Poly::c(low + 1)) {
                                Some(q) => Some(q.scale(low + 1)),
                                None => None,
                            }
                        } else if !signed || nonneg || m >= 0 {
                            Some(Poly::sym(fresh("and", 0, if signed { m.max(0) } else { mm })))
                        } else {
                            None
                        }
                    }
                    None => {
                        let x = self.resolve(st, &x, signed, bits);
                        let y = self.resolve(st, &y, signed, bits);
                        if st.cons.entails(&x) && st.cons.entails(&y) {
                            let v = self.fresh_int("and", signed, bits);
                            st.cons.add_ge(&v);
                            st.cons.add_ge(&x.sub(&v));
                            st.cons.add_ge(&y.sub(&v));
                            Some(v)
                        } else {
                            None
                        }
                    }
                }
            }
            Or | Xor => {
                if let (Some(p), Some(q)) = (x.is_const(), y.is_const()) {
                    Some(Poly::c(if op == Or { p | q } else { p ^ q }))
                } else {
                    let x = self.resolve(st, &x, signed, bits);
                    let y = self.resolve(st, &y, signed, bits);
                    let (_, h1) = st.cons.range(&x);
                    let (_, h2) = st.cons.range(&y);
                    if st.cons.entails(&x) && st.cons.entails(&y) {
                        let mut m = 1i128;
                        while m <= h1.max(h2) {
                            m <<= 1;
                        }
                        let v = Poly::sym(fresh("or", 0, m - 1));
                        if op == Or {
                            st.cons.add_ge(&v.sub(&x));
                            st.cons.add_ge(&v.sub(&y));
                        }
                        Some(v)
                    } else {
                        None
                    }
                }
            }
            _ => None,
        };
        match r {
            Some(p) if !p.too_big() => Val::Int(p),
            _ => fresh_r(self),
        }
    }
    fn compare(&mut self, st: &mut State, op: BinOp, ta: TyId, a: &Val, b: &Val) -> Cond {
        use BinOp::*;
        let ka = self.class(ta);
        match ka {
            K::Bool => {
                let (x, y) = (self.as_cond(a), self.as_cond(b));
                return match (op, x, y) {
                    (Eq, Cond::K(k), o) | (Eq, o, Cond::K(k)) => if k { o } else { Cond::Not(Rc::new(o)) },
                    (Ne, Cond::K(k), o) | (Ne, o, Cond::K(k)) => if k { Cond::Not(Rc::new(o)) } else { o },
                    _ => Cond::Opaque,
                };
            }
            K::Thin(_) | K::Fat(_) => {
                let p = self.as_ptr(a, false);
                let q = self.as_ptr(b, false);
                let d = if p.reg == q.reg && p.reg != Reg::Unknown {
                    q.off.sub(&p.off)
                } else {
                    // null comparison
                    let null = |x: &PtrV| x.reg == Reg::None && x.off.is_zero();
                    let real = |x: &PtrV| matches!(x.reg, Reg::Heap(_) | Reg::Local(..) | Reg::Alloc(_));
                    if (null(&p) && real(&q)) || (null(&q) && real(&p)) {
                        match op {
                            Eq => return Cond::K(false),
                            Ne => return Cond::K(true),
                            _ => {}
                        }
                    }
                    let x = self.addr(st, &p);
                    let y = self.addr(st, &q);
                    y.sub(&x)
                };
                return self.rel(op, &d);
            }
            K::Int { signed, bits } => {
                let x = self.as_int(st, a, signed, bits);
                let y = self.as_int(st, b, signed, bits);
                // equality of congruent values that differ by a small constant needs no ranges
                let x = self.resolve(st, &x, signed, bits);
                let y = self.resolve(st, &y, signed, bits);
                return self.rel(op, &y.sub(&x));
            }
            _ => {}
        }
        if let (Val::Tag(x), Val::Tag(y)) = (a, b) {
            return self.rel(op, &Poly::c(y - x));
        }
        Cond::Opaque
    }
    /// relation a op b with d = b - a
    fn rel(&self, op: BinOp, d: &Poly) -> Cond {
        use BinOp::*;
        let c = match op {
            Eq => Cond::Eq(d.clone()),
            Ne => Cond::Not(Rc::new(Cond::Eq(d.clone()))),
            Lt => Cond::Ge(d.addc(-1)),
            Le => Cond::Ge(d.clone()),
            Gt => Cond::Ge(d.neg().addc(-1)),
            Ge => Cond::Ge(d.neg()),
            _ => Cond::Opaque,
        };
        if let Some(k) = d.is_const() {
            return Cond::K(match op {
                Eq => k == 0,
                Ne => k != 0,
                Lt => k > 0,
                Le => k >= 0,
                Gt => k < 0,
                Ge => k <= 0,
                _ => return c,
            });
        }
        c
    }

    // ---------- statements ----------
    pub fn exec_stmt(&mut self, st: State, s: &Stmt) -> Vec<State> {
        let mut st = st;
        match &s.kind {
            StmtK::Assign(p, r) => {
                if let Rvalue::Discr(q) = r {
                    return self.read_discr(st, p, q);
                }
                let loc = self.place(&mut st, p);
                let blob = self.rvalue(&mut st, r, &loc);
                let size = self.sz(loc.ty);
                if self.step_log {
                    let cs: Vec<String> = blob.cells.iter().map(|c| format!("{}+{}={}", c.off, c.sz, show_val(&c.val))).collect();
                    eprintln!("{:indent$}_{}{} := {}", "", p.local, if p.proj.is_empty() { "" } else { ".." }, cs.join(" "), indent = self.stack.len());
                }
                self.store(&mut st, &loc, size, &blob);
            }
            StmtK::SetDiscr(p, v) => {
                let loc = self.place(&mut st, p);
                let mut cells = vec![];
                self.set_tag(loc.ty, *v, &mut cells);
                for c in cells {
                    let mut l = loc.clone();
                    l.off = l.off.addc(c.off as i128);
                    self.store_raw(&mut st, &l, c.sz, &[Cell { off: 0, sz: c.sz, val: c.val }]);
                }
            }
            StmtK::Live(l) | StmtK::Dead(l) => {
                let d = st.depth();
                if !st.local_cells(d, *l).is_empty() {
                    st.local_cells_mut(d, *l).clear();
                }
            }
            StmtK::Assume(o) => {
                let v = self.scalar(&mut st, o);
                let c = self.as_cond(&v);
                self.assume(&mut st, &c, true);
                if st.cons.is_bottom() {
                    return vec![];
                }
            }
            StmtK::CopyNonOverlapping(a, b, n) => {
                let t = self.op_ty(&mut st, a);
                let es = match self.class(t) {
                    K::Thin(t) => self.sz(t),
                    _ => 1,
                };
                let src = self.scalar(&mut st, a);
                let dst = self.scalar(&mut st, b);
                let n = self.scalar(&mut st, n);
                let n = self.as_int(&mut st, &n, false, 64);
                let n = self.resolve(&mut st, &n, false, 64);
                self.memcpy(&mut st, &src, &dst, &n, es, t);
            }
        }
        vec![st]
    }
    pub fn ptr_loc(&self, p: &PtrV, ty: TyId) -> Loc {
        Loc { reg: p.reg, off: p.off.clone(), lo: p.lo.clone(), hi: p.hi.clone(), meta: p.meta.clone(), ty, variant: None, deref: true }
    }
    /// `n` elements are set to one byte
    pub fn memset(&mut self, st: &mut State, dst: &Val, v: &Poly, n: &Poly, es: u64, pty: TyId) {
        let bytes = n.scale(es as i128);
        if bytes.is_zero() || st.cons.entails(&n.neg()) {
            return;
        }
        let d = self.as_ptr(dst, false);
        let mut dl = self.ptr_loc(&d, pty);
        dl.meta = Meta::Thin;
        self.check_access(st, &dl, &bytes, true);
        self.write_event(st, &dl, &bytes);
        if self.copy_mode {
            self.copy_check(st, &dl, None);
        }
        let k = bytes.is_const().filter(|k| *k <= 4096);
        let cells: Vec<Cell> = match (k, v.is_const()) {
            (Some(k), Some(x)) => (0..k as u64).map(|i| Cell { off: i, sz: 1, val: Val::Int(Poly::c(x & 255)) }).collect(),
            _ => vec![],
        };
        if self.lanes.is_some() {
            self.ln_store(st, &dl, &bytes, &super::lanes::tidy(&super::lanes::bytes(&cells, 0, k.unwrap_or(0) as u64, &super::lanes::B::U)));
        }
        match k {
            Some(k) => self.store_raw(st, &dl, k as u64, &cells),
            None => {
                if let Reg::Heap(h) = d.reg {
                    self.flush(st, h);
                    if let Some(r) = st.region_mut(h) {
                        r.tmpl = None;
                        r.focus = None;
                        r.memo = None;
                        r.cells.clear();
                        r.fill = Fill::Unknown;
                    }
                    return;
                }
                let mut l = dl.clone();
                l.off = Poly::sym(fresh("memset", 0, 1 << 62));
                self.store_raw(st, &l, 1, &[]);
            }
        }
    }
    pub fn memcpy(&mut self, st: &mut State, src: &Val, dst: &Val, n: &Poly, es: u64, pty: TyId) {
        let bytes = n.scale(es as i128);
        let s = self.as_ptr(src, false);
        let d = self.as_ptr(dst, false);
        if bytes.is_zero() || (st.cons.entails(&n.neg())) {
            return;
        }
        if self.block_copies.len() < 64 {
            self.block_copies.push((s.clone(), d.clone(), bytes.clone()));
        }
        let sl = self.ptr_loc(&s, pty);
        let dl = self.ptr_loc(&d, pty);
        self.check_access(st, &sl, &bytes, false);
        self.check_access(st, &dl, &bytes, true);
        self.write_event(st, &dl, &bytes);
        if self.lanes.is_some() {
            let rg = self.rg() || self.ap();
            let span = |o: &Poly, hi: &Poly| hi.sub(o).is_const().filter(|k| *k > 0 && *k <= 4096 && rg);
            let c = match bytes.is_const() {
                Some(k) if k <= 4096 => self.ln_read(st, s.reg, &s.off, k as u64),
                // a prefix of a buffer of known size
                _ => match span(&s.off, &s.hi) {
                    Some(k) => self.ln_read(st, s.reg, &s.off, k as u64),
                    None => vec![],
                },
            };
            self.ln_store(st, &dl, &bytes, &c);
            if let (None, true, Some(k)) = (bytes.is_const(), self.ln_data(s.reg), span(&d.off, &d.hi)) {
                let es = self.lanes.as_ref().map(|l| l.esz as u64).unwrap_or(1);
                let old = self.ln_read(st, d.reg, &d.off, k as u64);
                if self.ap() {
                    let c = self.ln_read(st, s.reg, &s.off, k as u64);
                    self.store_raw(st, &dl, k as u64, &c);
                    return;
                }
                let new = super::lanes::elems(&old, k as u64, es).into_iter().map(|v| super::range::merge(&[v, super::range::r(super::range::IN)]).unwrap_or(Val::Opaque)).collect();
                let b = super::lanes::blob_of(new, es);
                self.store_raw(st, &dl, k as u64, &b.cells);
                return;
            }
            if let (Some(k), true) = (bytes.is_const(), self.ln_data(s.reg)) {
                if k <= 4096 {
                    self.store_raw(st, &dl, k as u64, &c);
                    return;
                }
            }
        }
        if self.copy_mode {
            let o = self.image_of(st, sl.reg).map(|i| (i, sl.off.clone()));
            self.copy_check(st, &dl, o);
        }
        match bytes.is_const() {
            Some(k) if k <= 4096 && s.off.is_const().is_some() => {
                let cells = match s.reg {
                    Reg::Alloc(_) => vec![],
                    _ => match (self.region_cells(st, s.reg), s.off.is_const()) {
                        (Some(c), Some(o)) if o >= 0 => get(c, o as u64, k as u64),
                        _ => vec![],
                    },
                };
                self.store_raw(st, &dl, k as u64, &cells);
            }
            _ => {
                // whole-array copies keep the element invariant
                if let (Reg::Heap(a), Reg::Heap(b)) = (s.reg, d.reg) {
                    self.flush(st, a);
                    let ra = st.region(a).cloned();
                    if let (Some(ra), Some(rb)) = (ra, st.region_mut(b)) {
                        if rb.tmpl.is_none() || d.off.is_zero() {
                            rb.tmpl = if d.off.is_zero() { ra.tmpl.clone() } else { None };
                            rb.focus = None;
                            rb.memo = None;
                            rb.cells.clear();
                            rb.fill = Fill::Unknown;
                            rb.esz = ra.esz.max(rb.esz);
                        } else {
                            rb.tmpl = None;
                            rb.focus = None;
                            rb.memo = None;
                            rb.fill = Fill::Unknown;
                        }
                        return;
                    }
                }
                let mut l = dl.clone();
                l.off = Poly::sym(fresh("memcpy", 0, 1 << 62));
                self.store_raw(st, &l, 1, &[]);
            }
        }
    }

    pub fn set_tag(&self, ty: TyId, v: u32, cells: &mut Vec<Cell>) {
        let info = self.p.t(ty);
        let Some(t) = &info.tag else { return };
        let TyKind::Adt { variants, .. } = &info.kind else { return };
        let bits = t.size * 8;
        let mask = if bits >= 64 { u64::MAX as i128 } else { (1i128 << bits) - 1 };
        match t.niche {
            None => {
                let d = variants[v as usize].discr & mask;
                put(cells, t.offset, t.size, &[Cell { off: 0, sz: t.size, val: Val::Tag(d) }]);
            }
            Some((untagged, first, _last, start)) => {
                if v != untagged {
                    let k = ((start as i128) + (v as i128 - first as i128)) & mask;
                    put(cells, t.offset, t.size, &[Cell { off: 0, sz: t.size, val: Val::Tag(k) }]);
                }
            }
        }
    }
    fn read_discr(&mut self, mut st: State, dest: &Place, q: &Place) -> Vec<State> {
        let loc = self.place(&mut st, q);
        let info = self.p.t(loc.ty);
        let dst_size = |s: &mut Self, st: &mut State| {
            let l = s.place(st, dest);
            let n = s.sz(l.ty);
            (l, n)
        };
        let TyKind::Adt { variants, .. } = &info.kind else {
            let (l, n) = dst_size(self, &mut st);
            self.store(&mut st, &l, n, &Blob::one(n, Val::Int(Poly::c(0))));
            return vec![st];
        };
        let Some(t) = info.tag.clone() else {
            let k = info.single.and_then(|v| variants.get(v as usize)).map(|v| v.discr).unwrap_or(0);
            let (l, n) = dst_size(self, &mut st);
            self.store(&mut st, &l, n, &Blob::one(n, Val::Int(Poly::c(k))));
            return vec![st];
        };
        let mut tl = loc.clone();
        tl.off = tl.off.addc(t.offset as i128);
        let v = self.load_at(&mut st, &tl, t.size, None);
        let mask = if t.size >= 8 { u64::MAX as i128 } else { (1i128 << (t.size * 8)) - 1 };
        match t.niche {
            None => {
                let v = match v {
                    Some(v) => v,
                    None => self.lazy_tag(&mut st, &tl, loc.ty),
                };
                let out = match &v {
                    Val::Tag(k) => {
                        let d = variants.iter().find(|x| x.discr & mask == *k & mask).map(|x| x.discr).unwrap_or(*k);
                        Val::Int(Poly::c(d))
                    }
                    Val::Int(p) => match p.is_const() {
                        Some(k) => Val::Int(Poly::c(variants.iter().find(|x| x.discr & mask == k & mask).map(|x| x.discr).unwrap_or(k))),
                        None => Val::Int(p.clone()),
                    },
                    Val::Bool(Cond::K(b)) => Val::Int(Poly::c(*b as i128)),
                    _ => {
                        let lo = variants.iter().map(|x| x.discr).min().unwrap_or(0);
                        let hi = variants.iter().map(|x| x.discr).max().unwrap_or(0);
                        Val::Int(Poly::sym(fresh("tag?", lo, hi)))
                    }
                };
                let (l, n) = dst_size(self, &mut st);
                self.store(&mut st, &l, n, &Blob::one(n, out));
                vec![st]
            }
            Some((untagged, first, last, start)) => {
                let cnt = (last - first) as i128;
                let start = start as i128 & mask;
                let by_k = |k: i128| -> u32 {
                    let rel = (k - start) & mask;
                    if rel <= cnt { first + rel as u32 } else { untagged }
                };
                let mut done: Option<u32> = None;
                match &v {
                    Some(Val::Tag(k)) => done = Some(by_k(*k & mask)),
                    Some(Val::Int(p)) => {
                        if let Some(k) = p.is_const() {
                            done = Some(by_k(k & mask));
                        } else {
                            let (lo, hi) = st.cons.range(p);
                            if start + cnt <= mask && (hi < start || lo > start + cnt) {
                                done = Some(untagged);
                            }
                        }
                    }
                    Some(Val::Ptr(p)) => {
                        done = Some(if p.reg == Reg::None { p.off.is_const().map(|k| by_k(k & mask)).unwrap_or(untagged) } else if p.reg == Reg::Unknown { untagged } else { untagged });
                    }
                    Some(Val::Bool(_)) | Some(Val::Fns(_)) => done = Some(untagged),
                    _ => {}
                }
                if let Some(vi) = done {
                    let k = variants[vi as usize].discr;
                    let (l, n) = dst_size(self, &mut st);
                    self.store(&mut st, &l, n, &Blob::one(n, Val::Int(Poly::c(k))));
                    return vec![st];
                }
                // unknown: one state per variant
                let mut out = vec![];
                for vi in (first..=last).chain([untagged]) {
                    if vi != untagged && vi >= first && vi <= last && vi == untagged {
                        continue;
                    }
                    let mut s2 = st.clone();
                    if vi != untagged {
                        let k = (start + (vi - first) as i128) & mask;
                        if let Some(Val::Int(p)) = &v {
                            s2.cons.add_eq(&p.addc(-k));
                            if s2.cons.is_bottom() {
                                continue;
                            }
                        }
                        self.store_raw(&mut s2, &tl, t.size, &[Cell { off: 0, sz: t.size, val: Val::Tag(k) }]);
                    } else {
                        // materialise the payload so that the decision sticks
                        let mut lv = vec![];
                        let mut tg = vec![];
                        for (i, f) in variants[vi as usize].fields.iter().enumerate() {
                            self.leaves(f.1, variants[vi as usize].offsets[i], &mut lv, &mut tg);
                        }
                        if let Some((o, ty)) = lv.iter().find(|x| x.0 == t.offset && self.sz(x.1) == t.size) {
                            let mut l2 = loc.clone();
                            l2.off = l2.off.addc(*o as i128);
                            l2.ty = *ty;
                            let x = match self.class(*ty) {
                                K::Int { .. } => {
                                    let hi = if start > 0 { start - 1 } else { mask };
                                    Val::Int(Poly::sym(fresh("payload", if start > 0 { 0 } else { start + cnt + 1 }, hi)))
                                }
                                K::Thin(to) => self.lazy_pointee(&mut s2, &l2, to, false),
                                _ => self.fresh_val(*ty, "payload"),
                            };
                            if v.is_none() || !matches!(v, Some(Val::Int(_))) {
                                self.store_raw(&mut s2, &l2, t.size, &[Cell { off: 0, sz: t.size, val: x }]);
                            }
                        }
                    }
                    let k = variants[vi as usize].discr;
                    let l = self.place(&mut s2, dest);
                    let n = self.sz(l.ty);
                    self.store(&mut s2, &l, n, &Blob::one(n, Val::Int(Poly::c(k))));
                    out.push(s2);
                }
                out
            }
        }
    }

    fn rvalue(&mut self, st: &mut State, r: &Rvalue, dest: &Loc) -> Blob {
        let dsz = self.sz(dest.ty);
        match r {
            Rvalue::Use(o) => self.operand(st, o),
            Rvalue::Repeat(o, n) => {
                let b = self.operand(st, o);
                let t = self.op_ty(st, o);
                let es = self.sz(t);
                let mut out = Blob::default();
                if *n <= 64 {
                    for i in 0..*n {
                        for c in &b.cells {
                            out.cells.push(Cell { off: c.off + i * es, sz: c.sz, val: c.val.clone() });
                        }
                    }
                }
                out
            }
            Rvalue::Ref(p, _) | Rvalue::AddrOf(p, _) => {
                let raw = matches!(r, Rvalue::AddrOf(..));
                let loc = self.place(st, p);
                let mut ptr = PtrV { reg: loc.reg, off: loc.off.clone(), lo: loc.lo.clone(), hi: loc.hi.clone(), meta: Meta::Thin };
                if self.class(dest.ty) != K::Thin(0) && dsz == 16 {
                    ptr.meta = loc.meta.clone();
                    if ptr.meta == Meta::Thin {
                        if let TyKind::Array(_, n) = self.p.t(loc.ty).kind {
                            ptr.meta = Meta::Len(Poly::c(n as i128));
                        }
                    }
                    if let (false, Meta::Len(n)) = (raw, &ptr.meta) {
                        let es = self.elem(loc.ty).map(|e| self.sz(e)).unwrap_or(1);
                        let end = ptr.off.add(&n.scale(es as i128));
                        if !(ptr.lo == ptr.off && ptr.hi == end) {
                            let n = n.clone();
                            self.slice_check(st, &loc, &n, es);
                            ptr.lo = ptr.off.clone();
                            ptr.hi = end;
                        }
                    }
                }
                Blob::one(dsz, Val::Ptr(Rc::new(ptr)))
            }
            Rvalue::Bin(op, a, b) => {
                let ta = self.op_ty(st, a);
                let tb = self.op_ty(st, b);
                if matches!(self.class(ta), K::Agg) {
                    return Blob::default();
                }
                let x = self.scalar(st, a);
                let y = self.scalar(st, b);
                let v = self.binop(st, *op, ta, x, y, tb);
                Blob::one(dsz, v)
            }
            Rvalue::Checked(op, a, b) => {
                let ta = self.op_ty(st, a);
                let (s, n) = self.ty_int(ta);
                let x = self.scalar(st, a);
                let y = self.scalar(st, b);
                if self.lanes.is_some() && [&x, &y].iter().any(|v| matches!(v, Val::Ln(_) | Val::Opaque)) && (n != 64 || [&x, &y].iter().any(|v| matches!(v, Val::Ln(_)))) {
                    // overflow is a question of its own
                    let v = if self.ap() { self.ap_binop(*op, &x, &y, n) } else if self.rg() { self.rg_binop(*op, &x, &y, s, n) } else { self.ln_binop(st, *op, &x, &y, n) };
                    let fs = n as u64 / 8;
                    let o1 = self.p.t(dest.ty).offs.get(1).copied().unwrap_or(fs);
                    return Blob { cells: vec![Cell { off: 0, sz: fs, val: v }, Cell { off: o1, sz: 1, val: Val::Bool(Cond::K(false)) }] };
                }
                let x = self.as_int(st, &x, s, n);
                let y = self.as_int(st, &y, s, n);
                let x = self.resolve(st, &x, s, n);
                let y = self.resolve(st, &y, s, n);
                let e = match op {
                    BinOp::Add => Some(x.add(&y)),
                    BinOp::Sub => Some(x.sub(&y)),
                    BinOp::Mul => x.mul(&y),
                    _ => None,
                };
                let (lo, hi) = lin_hi(n, s);
                let fs = n as u64 / 8;
                let offs = self.p.t(dest.ty).offs.clone();
                let o1 = offs.get(1).copied().unwrap_or(fs);
                let (v, c) = match e {
                    Some(e) => {
                        let over = Cond::Ge(e.addc(-hi - 1));
                        let under = Cond::Ge(e.neg().addc(lo - 1));
                        let (l, h) = st.cons.range(&e);
                        let c = match (h <= hi, l >= lo) {
                            (true, true) => Cond::K(false),
                            (false, true) => over,
                            (true, false) => under,
                            _ => match op {
                                // only one side can fail
                                BinOp::Add | BinOp::Mul if !s => over,
                                BinOp::Sub if !s => under,
                                _ => Cond::Or(Rc::new(over), Rc::new(under)),
                            },
                        };
                        (Val::Int(e), c)
                    }
                    None => (Val::Int(self.fresh_int("chk", s, n)), Cond::Opaque),
                };
                Blob { cells: vec![Cell { off: offs.first().copied().unwrap_or(0), sz: fs, val: v }, Cell { off: o1, sz: 1, val: Val::Bool(c) }] }
            }
            Rvalue::Un(op, a) => {
                let ta = self.op_ty(st, a);
                let x = self.scalar(st, a);
                let v = match op {
                    UnOp::Not | UnOp::Neg if matches!(x, Val::Ln(_)) => self.rg_un(*op, &x),
                    UnOp::Not => match self.class(ta) {
                        K::Bool => match self.as_cond(&x) {
                            Cond::K(b) => Val::Bool(Cond::K(!b)),
                            Cond::Opaque => Val::Bool(Cond::Opaque),
                            Cond::Not(c) => Val::Bool((*c).clone()),
                            c => Val::Bool(Cond::Not(Rc::new(c))),
                        },
                        K::Int { signed, bits } => {
                            let p = self.as_int(st, &x, signed, bits);
                            // !x = -x - 1 modulo 2^bits
                            Val::Int(p.neg().addc(-1))
                        }
                        _ => Val::Opaque,
                    },
                    UnOp::Neg => match self.class(ta) {
                        K::Int { signed, bits } => {
                            let p = self.as_int(st, &x, signed, bits);
                            Val::Int(p.neg())
                        }
                        _ => Val::Opaque,
                    },
                    UnOp::PtrMeta => match &x {
                        Val::Ptr(p) => match &p.meta {
                            Meta::Len(n) => Val::Int(n.clone()),
                            _ => Val::Opaque,
                        },
                        _ => Val::Int(self.fresh_int("len?", false, 64)),
                    },
                };
                if dsz == 0 {
                    return Blob::default();
                }
                Blob::one(dsz, v)
            }
            Rvalue::Cast(k, o, to) => self.cast(st, k, o, *to),
            Rvalue::Len(p) => {
                let loc = self.place(st, p);
                let v = match (&self.p.t(loc.ty).kind, &loc.meta) {
                    (TyKind::Array(_, n), _) => Val::Int(Poly::c(*n as i128)),
                    (_, Meta::Len(n)) => Val::Int(n.clone()),
                    _ => Val::Int(self.fresh_int("len?", false, 64)),
                };
                Blob::one(8, v)
            }
            Rvalue::Discr(_) => unreachable!(),
            Rvalue::Agg(k, ops) => {
                let vals: Vec<(Blob, TyId)> = ops
                    .iter()
                    .map(|o| {
                        let b = self.operand(st, o);
                        let t = self.op_ty(st, o);
                        (b, t)
                    })
                    .collect();
                let mut cells: Vec<Cell> = vec![];
                match k {
                    AggK::Array => {
                        for (i, (b, t)) in vals.iter().enumerate() {
                            let es = self.sz(*t);
                            put(&mut cells, i as u64 * es, es, &b.cells);
                        }
                    }
                    AggK::Tuple => {
                        let offs = self.p.t(dest.ty).offs.clone();
                        for (i, (b, t)) in vals.iter().enumerate() {
                            put(&mut cells, offs[i], self.sz(*t), &b.cells);
                        }
                    }
                    AggK::Closure(ct) => {
                        let offs = self.p.t(*ct).offs.clone();
                        for (i, (b, t)) in vals.iter().enumerate() {
                            put(&mut cells, offs[i], self.sz(*t), &b.cells);
                        }
                    }
                    AggK::Adt(ty, v, active) => {
                        if matches!(&self.p.t(*ty).kind, TyKind::Adt { simd: true, .. }) {
                            return Blob::one(self.sz(*ty), Val::Opaque);
                        }
                        for (i, (b, t)) in vals.iter().enumerate() {
                            let fi = active.unwrap_or(i as u32);
                            let (o, _) = self.field(*ty, *v, fi);
                            put(&mut cells, o, self.sz(*t), &b.cells);
                        }
                        self.set_tag(*ty, *v, &mut cells);
                    }
                    AggK::RawPtr(_) => {
                        let p = match vals[0].0.cells.first() {
                            Some(c) => self.as_ptr(&c.val.clone(), false),
                            None => self.as_ptr(&Val::Opaque, false),
                        };
                        let mut q = (*p).clone();
                        if dsz == 16 {
                            let n = match vals[1].0.cells.first() {
                                Some(c) => {
                                    let v = c.val.clone();
                                    self.as_int(st, &v, false, 64)
                                }
                                None => self.fresh_int("len?", false, 64),
                            };
                            q.meta = Meta::Len(n);
                        }
                        cells.push(Cell { off: 0, sz: dsz, val: Val::Ptr(Rc::new(q)) });
                    }
                    AggK::Other => {}
                }
                Blob { cells }
            }
            Rvalue::ThreadLocal(_) => {
                self.unmodelled(st, "thread-local");
                Blob::one(dsz, self.unknown_ptr(false))
            }
        }
    }
    pub fn slice_check(&mut self, st: &mut State, loc: &Loc, n: &Poly, es: u64) {
        let n = self.resolve(st, n, false, 64);
        let bytes = n.scale(es as i128);
        if matches!(loc.reg, Reg::None | Reg::Unknown) {
            let ok = loc.reg == Reg::None && st.cons.entails(&bytes.neg());
            if loc.reg == Reg::Unknown {
                // accesses through it are reported
                return;
            }
            self.ob(st, ObK::Slice, "slice", ok, || format!("slice of {} bytes from a dangling pointer", bytes.show()));
            return;
        }
        let a = loc.off.sub(&loc.lo);
        let b = loc.hi.sub(&loc.off).sub(&bytes);
        let ok = st.cons.entails(&a) && st.cons.entails(&b);
        let name = self.reg_name(st, loc.reg);
        let dbg = if !ok && self.quiet == 0 { self.explain(st, &a, &b) } else { String::new() };
        let l = loc.clone();
        self.ob(st, ObK::Slice, "slice", ok, || format!("slice of {} bytes at {} of {name} not provably inside [{}, {}){}", bytes.show(), l.off.show(), l.lo.show(), l.hi.show(), dbg));
    }

    fn cast(&mut self, st: &mut State, k: &CastK, o: &Operand, to: TyId) -> Blob {
        let from = self.op_ty(st, o);
        let size = self.sz(to);
        if self.lanes.is_some() && matches!(k, CastK::IntToInt | CastK::FloatToInt | CastK::FloatToFloat | CastK::IntToFloat) {
            let v = self.scalar(st, o);
            if matches!(v, Val::Ln(_)) || (v == Val::Opaque && size != 8) {
                let v = if self.ap() { self.ap_cast(&v, from, to) } else if self.rg() { self.rg_cast(&v, from, to) } else { self.ln_cast(&v, size) };
                return Blob::one(size, v);
            }
        }
        match k {
            CastK::IntToInt => {
                let v = self.scalar(st, o);
                let (s1, b1) = match self.class(from) {
                    K::Int { signed, bits } => (signed, bits),
                    _ => (false, 8 * self.sz(from) as u32),
                };
                let (_s2, b2) = self.ty_int(to);
                let (s1, b1, v) = match v {
                    Val::Bool(c) => match c {
                        Cond::K(b) => (false, 8, Val::Int(Poly::c(b as i128))),
                        _ => (false, 8, Val::Int(Poly::sym(fresh("bool", 0, 1)))),
                    },
                    v => (s1, b1, v),
                };
                let p = self.as_int(st, &v, s1, b1);
                let p = if b2 > b1 { self.resolve(st, &p, s1, b1) } else { p };
                Blob::one(size, Val::Int(p))
            }
            CastK::FloatToInt => {
                let (s, b) = self.ty_int(to);
                let v = self.scalar(st, o);
                let (tl, th) = lin_hi(b, s);
                let (mut lo, mut hi) = (tl, th);
                if let Val::F(x, y) = v {
                    // saturating cast
                    let c = |f: f64| -> i128 { if f >= 1e30 { th } else if f <= -1e30 { tl } else { (f.trunc() as i128).clamp(tl, th) } };
                    lo = c(f64::from_bits(x));
                    hi = c(f64::from_bits(y));
                }
                if lo == hi {
                    return Blob::one(size, Val::Int(Poly::c(lo)));
                }
                Blob::one(size, Val::Int(Poly::sym(fresh("fptoint", lo, hi))))
            }
            CastK::FloatToFloat => {
                let v = self.scalar(st, o);
                let v = self.float_fn("as_", to, &[v]);
                Blob::one(size, v)
            }
            CastK::IntToFloat => {
                let v = self.scalar(st, o);
                let (s, b) = { let t = self.op_ty(st, o); self.ty_int(t) };
                let p = self.as_int(st, &v, s, b);
                let p = self.resolve(st, &p, s, b);
                let (lo, hi) = st.cons.range(&p);
                Blob::one(size, self.float_val(to, &[lo as f64, hi as f64]))
            }
            CastK::PtrToPtr | CastK::MutToConst | CastK::Subtype | CastK::FnPtrToPtr | CastK::UnsafeFnPtr => {
                let mut b = self.operand(st, o);
                if size == 8 {
                    if let Some(c) = b.cells.first_mut() {
                        if let Val::Ptr(p) = &c.val {
                            if p.meta != Meta::Thin {
                                let mut q = (**p).clone();
                                q.meta = Meta::Thin;
                                c.val = Val::Ptr(Rc::new(q));
                            }
                        }
                        c.sz = 8;
                    }
                }
                b
            }
            CastK::Transmute => {
                let b = self.operand(st, o);
                if self.lanes.is_some() && !b.cells.is_empty() && b.cells.iter().all(|c| matches!(c.val, Val::Int(_) | Val::F(..) | Val::Ln(_) | Val::Opaque)) {
                    match self.class(to) {
                        K::Opaque if !self.is_float(to) => return b,
                        K::Opaque | K::Int { .. } => {
                            let v = super::lanes::lane(&b.cells, 0, size);
                            if v != Val::Opaque || !matches!(self.class(to), K::Int { bits: 64, .. }) {
                                return Blob::one(size, v);
                            }
                        }
                        _ => {}
                    }
                }
                if self.is_scalar(to) {
                    let v = match b.cells.iter().find(|c| c.off == 0 && c.sz == size) {
                        Some(c) => self.coerce(st, c.val.clone(), to),
                        None => {
                            // assemble through memory
                            let v = if size == 16 && b.cells.len() == 2 {
                                match (&b.cells[0].val, &b.cells[1].val) {
                                    (Val::Ptr(p), Val::Int(n)) => {
                                        let mut q = (**p).clone();
                                        q.meta = Meta::Len(n.clone());
                                        Some(Val::Ptr(Rc::new(q)))
                                    }
                                    _ => None,
                                }
                            } else {
                                None
                            };
                            v.unwrap_or_else(|| self.fresh_val(to, "transmute"))
                        }
                    };
                    return Blob::one(size, v);
                }
                b
            }
            CastK::Reify(f) | CastK::ClosureFnPtr(f) => Blob::one(8, Val::Fns(Rc::new(vec![*f]))),
            CastK::Unsize => {
                let b = self.operand(st, o);
                let n = match self.class(from) {
                    K::Thin(t) => match self.p.t(t).kind {
                        TyKind::Array(_, n) => Some(n),
                        _ => None,
                    },
                    _ => None,
                };
                match (n, b.cells.first().map(|c| c.val.clone())) {
                    (Some(n), Some(v)) => {
                        let p = self.as_ptr(&v, false);
                        let mut q = (*p).clone();
                        q.meta = Meta::Len(Poly::c(n as i128));
                        Blob::one(16, Val::Ptr(Rc::new(q)))
                    }
                    (_, Some(Val::Ptr(p))) => {
                        let mut q = (*p).clone();
                        q.meta = Meta::Vt;
                        Blob::one(size, Val::Ptr(Rc::new(q)))
                    }
                    _ => Blob::default(),
                }
            }
            CastK::ArrayToPtr => self.operand(st, o),
            CastK::Expose => {
                let v = self.scalar(st, o);
                let p = self.as_ptr(&v, false);
                let a = self.addr(st, &p);
                Blob::one(size, Val::Int(a))
            }
            CastK::WithExposed => {
                let v = self.scalar(st, o);
                let v = Val::Ptr(self.as_ptr(&v, false));
                Blob::one(size, v)
            }
        }
    }

    // ---------- control ----------
    pub fn fn_meta(&mut self, f: FnId) -> Rc<FnMeta> {
        if let Some(m) = self.meta.get(&f) {
            return m.clone();
        }
        let m = Rc::new(analyse(self.p.f(f).body.as_ref().unwrap()));
        self.meta.insert(f, m.clone());
        m
    }

    /// call with evaluated arguments; returns the states after return with the result
    pub fn call(&mut self, mut st: State, f: FnId, args: Vec<(Blob, TyId)>) -> Vec<(State, Blob)> {
        let fi = self.p.f(f);
        if self.lanes.is_some() {
            if let Some(b) = self.ln_call(&st, f, &args) {
                return vec![(st, b)];
            }
        }
        let Some(body) = &fi.body else {
            return self.model(st, f, args);
        };
        if let Some(k) = self.stubs.get(&f).copied() {
            if let Some(r) = self.stub(&mut st, f, k, &args) {
                return r;
            }
        }
        if let Some(r) = self.override_model(&mut st, f, &args) {
            return r;
        }
        if self.stack.len() > 120 {
            self.unmodelled(&st, "call depth");
            return vec![];
        }
        let n = body.nargs as usize;
        let mut vals: Vec<Blob> = vec![];
        let is_closure = fi.path.contains("{closure");
        let untuple = if args.len() == 2 && body.spread.is_none() {
            let second = args[1].1;
            matches!(self.p.t(second).kind, TyKind::Tuple(_)) && (n != 2 || (n == 2 && body.locals[2] != second && is_closure) )
        } else {
            false
        };
        if untuple {
            let TyKind::Tuple(ts) = &self.p.t(args[1].1).kind else { unreachable!() };
            let offs = self.p.t(args[1].1).offs.clone();
            if n == ts.len() + 1 {
                vals.push(args[0].0.clone());
            }
            for (i, t) in ts.iter().enumerate() {
                vals.push(Blob { cells: get(&args[1].0.cells, offs[i], self.sz(*t)) });
            }
        } else {
            vals = args.into_iter().map(|x| x.0).collect();
        }
        if vals.len() + 1 == n && is_closure {
            // through a function pointer: the closure has captured nothing
            let env = self.fresh_blob(body.locals[1], "env");
            vals.insert(0, env);
        }
        if vals.len() != n {
            self.unmodelled(&st, &format!("argument count of {}", fi.path));
            return vec![];
        }
        self.call_flat(st, f, vals)
    }
    /// call of a function with a body; one blob per formal argument
    pub fn call_flat(&mut self, mut st: State, f: FnId, vals: Vec<Blob>) -> Vec<(State, Blob)> {
        if self.step_log {
            eprintln!("{:indent$}>> {}", "", self.p.f(f).path, indent = self.stack.len());
        }
        let fi = self.p.f(f);
        let body = fi.body.as_ref().unwrap();
        if self.stack.len() > 120 {
            self.unmodelled(&st, "call depth");
            return vec![];
        }
        let mut locals: Vec<Rc<Vec<Cell>>> = Vec::with_capacity(body.locals.len());
        let empty = Rc::new(vec![]);
        locals.push(empty.clone());
        for v in vals {
            locals.push(Rc::new(v.cells));
        }
        while locals.len() < body.locals.len() {
            locals.push(empty.clone());
        }
        st.frames.push(Rc::new(Frame { f, locals }));
        self.stack.push((f, fi.line));
        let out = self.run_region(f, 0, st, None);
        self.stack.pop();
        let mut res = vec![];
        for mut s in out.rets {
            let fr = s.frames.pop().unwrap();
            let b = Blob { cells: (*fr.locals[0]).clone() };
            res.push((s, b));
        }
        self.merge_results(res, self.sz(body.locals[0]))
    }
    /// merge returning states whose results have the same shape
    fn merge_results(&mut self, res: Vec<(State, Blob)>, size: u64) -> Vec<(State, Blob)> {
        if res.len() <= 1 {
            return res;
        }
        // temporarily hold the result as a local of the caller's frame
        let f0 = res[0].0.frames.last().map(|x| x.f);
        let Some(f0) = f0 else { return res };
        let mut sts: Vec<State> = res
            .into_iter()
            .map(|(mut s, b)| {
                s.frames.push(Rc::new(Frame { f: f0, locals: vec![Rc::new(b.cells)] }));
                s
            })
            .collect();
        sts = self.merge_list(sts);
        let _ = size;
        sts.into_iter()
            .map(|mut s| {
                let fr = s.frames.pop().unwrap();
                let b = Blob { cells: (*fr.locals[0]).clone() };
                (s, b)
            })
            .collect()
    }

    pub fn run_region(&mut self, f: FnId, entry: u32, st: State, within: Option<u32>) -> RegionOut {
        let body = self.p.f(f).body.as_ref().unwrap();
        let m = self.fn_meta(f);
        let mut out = RegionOut::default();
        let loop_set = within.map(|h| m.loops[&h].clone());
        let mut work: BTreeMap<u32, (u32, Vec<State>)> = BTreeMap::new();
        work.insert(m.rpo[entry as usize], (entry, vec![st]));
        let mut first = true;
        while let Some((_, (bb, sts))) = work.pop_first() {
            if self.timed_out() {
                self.unmodelled_timeout();
                return out;
            }
            let mut sts = sts;
            for s in sts.iter_mut() {
                self.kill_dead(s, &m, bb);
            }
            let sts = if sts.len() > 1 { self.merge_list(sts) } else { sts };
            for s in sts {
                let mut nexts: Vec<(u32, State)> = vec![];
                if m.loops.contains_key(&bb) && !(first && within == Some(bb)) {
                    let o = self.do_loop(f, bb, s);
                    nexts.extend(o.exits);
                    out.rets.extend(o.rets);
                } else {
                    self.exec_block(f, bb, &body.blocks[bb as usize], s, &mut nexts, &mut out.rets);
                }
                for (t, s) in nexts {
                    if s.cons.is_bottom() {
                        continue;
                    }
                    if let (Some(h), Some(set)) = (within, &loop_set) {
                        if t == h {
                            out.back.push(s);
                            continue;
                        }
                        if !set.contains(&t) {
                            out.exits.push((t, s));
                            continue;
                        }
                    }
                    work.entry(m.rpo[t as usize]).or_insert((t, vec![])).1.push(s);
                }
            }
            first = false;
        }
        out
    }
    pub fn unmodelled_timeout(&mut self) {
        let (f, line) = self.stack.last().copied().unwrap_or((0, 0));
        if self.obs.last().map(|o| o.what == "time budget").unwrap_or(false) {
            return;
        }
        self.obs.push(Ob { kind: ObK::Unmodelled, f, line, what: "time budget".into(), ok: false, text: "analysis budget exhausted".into() });
    }
    pub fn kill_dead(&mut self, st: &mut State, m: &FnMeta, bb: u32) {
        let d = st.depth() as usize;
        let live = &m.live[bb as usize];
        let fr = &st.frames[d];
        let mut kill = vec![];
        for (l, c) in fr.locals.iter().enumerate() {
            if !c.is_empty() && !live[l] && !m.borrowed[l] {
                kill.push(l);
            }
        }
        if !kill.is_empty() {
            let e = Rc::new(vec![]);
            let fr = Rc::make_mut(&mut st.frames[d]);
            for l in kill {
                fr.locals[l] = e.clone();
            }
        }
    }

    fn exec_block(&mut self, f: FnId, _bb: u32, b: &Block, st: State, nexts: &mut Vec<(u32, State)>, rets: &mut Vec<State>) {
        let mut cur = vec![st];
        let si = self.stack.len() - 1;
        for s in &b.stmts {
            self.stack[si].1 = s.line;
            let mut nx = Vec::with_capacity(cur.len());
            for c in cur {
                self.steps += 1;
                nx.extend(self.exec_stmt(c, s));
            }
            cur = nx;
        }
        self.stack[si].1 = b.line;
        for mut st in cur {
            self.steps += 1;
            match &b.term {
                Term::Goto(t) => nexts.push((*t, st)),
                Term::Drop(p, ty, t) => {
                    if self.drops(*ty) {
                        self.drop_place(&mut st, p, *ty, 0);
                    }
                    nexts.push((*t, st))
                }
                Term::Return => rets.push(st),
                Term::Unreachable | Term::Resume | Term::Abort => {}
                Term::Asm(_) => self.unmodelled(&st, "inline assembly"),
                // no code is generated for these without overflow checks
                Term::Assert { target, msg, .. } if msg.starts_with("overflow:Add") || msg.starts_with("overflow:Sub") || msg.starts_with("overflow:Mul") || msg.starts_with("overflow:Sh") => nexts.push((*target, st)),
                Term::Assert { cond, expected, target, msg } => {
                    let v = self.scalar(&mut st, cond);
                    let c = self.as_cond(&v);
                    let e = self.eval_cond(&st, &c);
                    let ok = e == Some(*expected);
                    let dbg = if !ok && self.quiet == 0 { format!("{msg}: {c:?}{}", self.explain_cond(&st, &c)) } else { String::new() };
                    self.ob(&st, ObK::Panic, "assertion", ok, || dbg);
                    if e == Some(!*expected) {
                        continue;
                    }
                    self.assume(&mut st, &c, *expected);
                    if !st.cons.is_bottom() {
                        nexts.push((*target, st));
                    }
                }
                Term::Switch(o, vs, other) => {
                    let t = self.op_ty(&mut st, o);
                    let v = self.scalar(&mut st, o);
                    self.switch(f, st, t, v, vs, *other, nexts);
                }
                Term::Call { f: callee, args, dest, target, line } => {
                    self.stack[si].1 = *line;
                    let av: Vec<(Blob, TyId)> = args
                        .iter()
                        .map(|a| {
                            let b = self.operand(&mut st, a);
                            let t = self.op_ty(&mut st, a);
                            (b, t)
                        })
                        .collect();
                    let outs = match callee {
                        Callee::Fn(g) => self.call(st, *g, av),
                        Callee::Ptr(o) => {
                            let v = self.scalar(&mut st, o);
                            match v {
                                Val::Fns(fs) => {
                                    let mut r = vec![];
                                    for g in fs.iter() {
                                        r.extend(self.call(st.clone(), *g, av.clone()));
                                    }
                                    if fs.len() > 1 { self.merge_results(r, 0) } else { r }
                                }
                                _ => {
                                    self.unmodelled(&st, "call through an untracked function pointer");
                                    vec![]
                                }
                            }
                        }
                    };
                    self.stack[si].1 = *line;
                    if let Some(t) = target {
                        for (mut s, b) in outs {
                            let loc = self.place(&mut s, dest);
                            let size = self.sz(loc.ty);
                            self.store(&mut s, &loc, size, &b);
                            nexts.push((*t, s));
                        }
                    }
                }
            }
        }
    }
    pub fn explain_cond(&self, st: &State, c: &Cond) -> String {
        match c {
            Cond::Ge(p) | Cond::Eq(p) => self.explain(st, p, p),
            Cond::Not(c) => self.explain_cond(st, c),
            Cond::And(a, b) | Cond::Or(a, b) => self.explain_cond(st, a) + &self.explain_cond(st, b),
            _ => String::new(),
        }
    }
    fn switch(&mut self, f: FnId, st: State, t: TyId, v: Val, vs: &[(u128, u32)], other: u32, nexts: &mut Vec<(u32, State)>) {
        let body = self.p.f(f).body.as_ref().unwrap();
        let unreachable = |b: u32| matches!(body.blocks[b as usize].term, Term::Unreachable) && body.blocks[b as usize].stmts.is_empty();
        if let K::Bool = self.class(t) {
            let c = self.as_cond(&v);
            let tf = vs.iter().find(|x| x.0 == 0).map(|x| x.1);
            let tt = vs.iter().find(|x| x.0 == 1).map(|x| x.1).unwrap_or(other);
            let tf = tf.unwrap_or(other);
            match self.eval_cond(&st, &c) {
                Some(b) => {
                    // what took effort to prove is kept
                    let mut st = st;
                    if let (Cond::Ge(p), true) = (&c, self.stubs.is_empty() || self.kern) {
                        let q = if b { p.clone() } else { p.neg().addc(-1) };
                        if q.degree() <= 1 && !st.cons.entails_quick(&q) {
                            st.cons.add_ge(&q);
                        }
                    }
                    nexts.push((if b { tt } else { tf }, st))
                }
                None => {
                    for (truth, tgt) in [(true, tt), (false, tf)] {
                        if unreachable(tgt) {
                            continue;
                        }
                        let mut s2 = st.clone();
                        self.assume(&mut s2, &c, truth);
                        if !s2.cons.is_bottom() {
                            nexts.push((tgt, s2));
                        }
                    }
                }
            }
            return;
        }
        let (signed, bits) = self.ty_int(t);
        let mut st = st;
        let p = self.as_int(&mut st, &v, signed, bits);
        let p = self.resolve(&mut st, &p, signed, bits);
        let sv = |k: u128| -> i128 {
            let mut k = k as i128;
            if signed && bits < 127 && k >= 1i128 << (bits - 1) {
                k -= 1i128 << bits;
            }
            k
        };
        let konst = p.is_const().or_else(|| {
            let (l, h) = st.cons.range(&p);
            if l == h { Some(l) } else { None }
        });
        if let Some(k) = konst {
            let tgt = vs.iter().find(|x| sv(x.0) == k).map(|x| x.1).unwrap_or(other);
            nexts.push((tgt, st));
            return;
        }
        let mut rest = st.clone();
        for (k, tgt) in vs {
            let k = sv(*k);
            if unreachable(*tgt) {
                continue;
            }
            let d = p.addc(-k);
            if self.eval_cond(&st, &Cond::Eq(d.clone())) == Some(false) {
                continue;
            }
            let mut s2 = st.clone();
            s2.cons.add_eq(&d);
            if !s2.cons.is_bottom() {
                nexts.push((*tgt, s2));
            }
        }
        if unreachable(other) {
            return;
        }
        // exclude the listed values at the ends of the range
        let mut ks: Vec<i128> = vs.iter().map(|x| sv(x.0)).collect();
        ks.sort();
        loop {
            let (l, h) = rest.cons.range(&p);
            if ks.contains(&l) {
                rest.cons.add_ge(&p.addc(-l - 1));
            } else if ks.contains(&h) {
                rest.cons.add_ge(&p.neg().addc(h - 1));
            } else {
                break;
            }
            if rest.cons.is_bottom() {
                return;
            }
            if rest.cons.range(&p) == (l, h) {
                break;
            }
        }
        for k in ks {
            self.assume(&mut rest, &Cond::Eq(p.addc(-k)), false);
        }
        if !rest.cons.is_bottom() {
            nexts.push((other, rest));
        }
    }
}
