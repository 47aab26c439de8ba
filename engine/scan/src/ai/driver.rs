//! Driver-level analysis: the entry points are interpreted with the filter passes, the alpha steps, the
//! nearest sampler and the colour conversions recorded as events instead of being entered. At every
//! return the recorded chain is compared with what the property demands.
use super::interp::*;
use super::mem::*;
use super::poly::*;
use super::roots::*;
use crate::prog::Prog;
use ps_ir::*;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum StubK {
    Vert,
    Horiz,
    VertSlice,
    HorizSlice,
    Premul,
    Unpremul,
    Needed,
    Weights,
    Nearest,
    /// entered, only its arguments are noted
    Pool,
    /// a row handler of a filter pass
    Row(super::kern::RowK),
}

/// a row-structured buffer handed to a step
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Buf {
    pub reg: Reg,
    pub off: Poly,
    /// elements
    pub len: Poly,
    pub w: Poly,
    pub h: Option<Poly>,
    /// elements
    pub stride: Poly,
    pub depth: Option<Poly>,
    pub cn: u64,
    pub esz: u64,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev {
    Conv { vert: bool, src: Buf, dst: Buf, weights: Option<u32>, workload: Option<Val> },
    Premul { src: Buf, dst: Buf },
    Unpremul { dst: Buf },
    Needed { src: Buf, res: bool },
    Weights { id: u32, inn: Poly, out: Poly, func: Option<Val> },
    Nearest { src: Buf, dst: Buf },
    Pool { policy: Option<Blob> },
    Color { name: String, src: Buf, dst: Buf, extra: Vec<Blob>, tys: Vec<TyId> },
}
impl Ev {
    pub fn polys(&self, add: &mut dyn FnMut(&Poly)) {
        let mut b = |x: &Buf| {
            add(&x.off);
            add(&x.len);
            add(&x.w);
            add(&x.stride);
            if let Some(h) = &x.h {
                add(h)
            }
            if let Some(h) = &x.depth {
                add(h)
            }
        };
        match self {
            Ev::Conv { src, dst, .. } | Ev::Premul { src, dst } | Ev::Nearest { src, dst } | Ev::Color { src, dst, .. } => {
                b(src);
                b(dst)
            }
            Ev::Unpremul { dst } => b(dst),
            Ev::Needed { src, .. } => b(src),
            Ev::Weights { inn, out, .. } => {
                add(inn);
                add(out)
            }
            Ev::Pool { .. } => {}
        }
        let mut v = |x: &Val| {
            for p in comps(x) {
                add(&p)
            }
        };
        match self {
            Ev::Conv { workload: Some(x), .. } | Ev::Weights { func: Some(x), .. } => v(x),
            Ev::Pool { policy: Some(b) } => b.cells.iter().for_each(|c| v(&c.val)),
            Ev::Color { extra, .. } => extra.iter().for_each(|b| b.cells.iter().for_each(|c| v(&c.val))),
            _ => {}
        }
    }
}

pub fn is_store(p: &Prog, t: TyId) -> bool {
    match &p.t(t).kind {
        TyKind::Ptr { to, .. } => store_info(p, *to).is_some(),
        _ => false,
    }
}

/// the functions recorded as events, by trait method or name and by shape of their arguments
pub fn stub_table(p: &Prog) -> HashMap<FnId, StubK> {
    let mut m = HashMap::new();
    for (i, f) in p.p.fns.iter().enumerate() {
        if f.krate != "pic_scale" || f.body.is_none() || f.path.contains("{closure") {
            continue;
        }
        let last = f.path.rsplit("::").next().unwrap_or("");
        let st = |k: usize| f.params.get(k).map(|t| is_store(p, *t)).unwrap_or(false);
        let fat = f.params.iter().filter(|t| p.t(**t).size == Some(16) && matches!(p.t(**t).kind, TyKind::Ptr { .. })).count();
        let k = match last {
            "convolve_vertical" if st(0) && st(2) => Some(StubK::Vert),
            "convolve_horizontal" if st(0) && st(2) => Some(StubK::Horiz),
            "convolve_vertical_dispatch_ar30" if fat == 2 => Some(StubK::VertSlice),
            "convolve_horizontal_dispatch_ar30" if fat == 2 => Some(StubK::HorizSlice),
            "premultiply_alpha" if st(0) && st(1) => Some(StubK::Premul),
            "unpremultiply_alpha" if st(0) => Some(StubK::Unpremul),
            "is_alpha_premultiplication_needed" if st(0) => Some(StubK::Needed),
            "generate_weights" => Some(StubK::Weights),
            "resize_nearest" if fat == 2 && f.params.iter().filter(|t| matches!(p.t(**t).kind, TyKind::Int { bits: 64, .. })).count() == 6 => Some(StubK::Nearest),
            "get_pool" => Some(StubK::Pool),
            _ => None,
        };
        if let Some(k) = k {
            m.insert(i as FnId, k);
        }
    }
    m
}

#[derive(Clone, Default)]
pub struct Settings {
    pub function: Option<Val>,
    pub workload: Option<Val>,
    pub policy: Option<Blob>,
    /// several threads were asked for by a flag
    pub multi: Option<Poly>,
}

impl<'p> Interp<'p> {
    fn mentions_pool(&self, t: TyId) -> bool {
        match &self.p.t(t).kind {
            TyKind::Adt { path, .. } => path.ends_with("::ThreadPool"),
            TyKind::Ptr { to, .. } => self.mentions_pool(*to),
            _ => false,
        }
    }
    pub fn driver(&self) -> bool {
        !self.stubs.is_empty()
    }
    fn note(&mut self, st: &mut State, e: Ev) {
        if st.ev.len() > 40 {
            self.unmodelled(st, "number of driver events");
            return;
        }
        std::rc::Rc::make_mut(&mut st.ev).push(e);
    }
    /// fields of an image container behind a pointer
    pub fn read_store(&mut self, st: &mut State, ptr: &PtrV, t: TyId) -> Option<Buf> {
        let (m, e, cn) = store_info(self.p, t)?;
        let esz = self.sz(e);
        let base = self.ptr_loc(ptr, t);
        let fld = |me: &mut Self, st: &mut State, n: &str| -> Option<Blob> {
            let (o, ft) = me.named(t, &[n])?;
            let mut l = base.clone();
            l.off = l.off.addc(o as i128);
            l.ty = ft;
            l.deref = false;
            Some(me.load(st, &l))
        };
        let mut int = |me: &mut Self, st: &mut State, n: &str| -> Option<Poly> {
            let b = fld(me, st, n)?;
            match &b.cells.first()?.val {
                Val::Int(p) => Some(p.clone()),
                _ => None,
            }
        };
        let w = int(self, st, "width")?;
        let h = int(self, st, "height")?;
        let s = int(self, st, "stride")?;
        let depth = int(self, st, "bit_depth");
        let (_, bt) = self.named(t, &["buffer"])?;
        let b = fld(self, st, "buffer")?;
        let v = self.variant_of(st, &b, bt);
        if v.is_none() && std::env::var_os("PS_DBG").is_some() { eprintln!("STORE {:?} tag {:?}", b.cells, self.p.t(bt).tag); }
        let v = v?;
        let TyKind::Adt { variants, .. } = &self.p.t(bt).kind else { return None };
        let owned = variants[v as usize].name == "Owned";
        let (fo, ft) = self.field(bt, v, 0);
        let (ptr, len) = if owned {
            let (po, _) = self.named(ft, &["buf", "inner", "ptr"])?;
            let (lo, _) = self.named(ft, &["len"])?;
            let Val::Ptr(p) = &b.cells.iter().find(|c| c.off == fo + po)?.val else { return None };
            // a load of the enum may present pointer and length as one wide cell
            let n = match b.cells.iter().find(|c| c.off == fo + lo).map(|c| &c.val) {
                Some(Val::Int(n)) => n.clone(),
                _ => {
                    let Meta::Len(n) = &p.meta else { return None };
                    n.clone()
                }
            };
            (p.clone(), n)
        } else {
            let Val::Ptr(p) = &b.cells.iter().find(|c| c.off == fo)?.val else { return None };
            let Meta::Len(n) = &p.meta else { return None };
            (p.clone(), n.clone())
        };
        let _ = m;
        let stride = if s.is_zero() { w.scale(cn as i128) } else { s };
        Some(Buf { reg: ptr.reg, off: ptr.off.clone(), len, w, h: Some(h), stride, depth, cn, esz })
    }
    fn store_of(&mut self, st: &mut State, args: &[(Blob, TyId)], i: usize) -> Option<Buf> {
        let p = self.arg_ptr(args, i);
        let t = self.pointee(args[i].1)?;
        self.read_store(st, &p, t)
    }
    /// first enum of the named type inside a by-value argument
    fn enum_in(&mut self, b: &Blob, t: TyId, suffix: &str) -> Option<Val> {
        let (o, et) = find_type(self.p, t, suffix, 4)?;
        let Some(tg) = &self.p.t(et).tag else { return Some(Val::Tag(0)) };
        let o = o + tg.offset;
        b.cells.iter().find(|c| c.off == o && c.sz == tg.size).map(|c| c.val.clone())
    }
    /// a setting inside the object a pointer argument refers to
    pub fn enum_at(&mut self, st: &mut State, p: &PtrV, t: TyId, suffix: &str) -> Option<(Blob, TyId)> {
        let (o, et) = find_type(self.p, t, suffix, 4)?;
        let mut l = self.ptr_loc(p, et);
        l.off = l.off.addc(o as i128);
        l.deref = false;
        Some((self.load(st, &l), et))
    }
    fn tag_of(&self, b: &Blob, t: TyId) -> Option<Val> {
        let Some(tg) = &self.p.t(t).tag else { return Some(Val::Tag(0)) };
        b.cells.iter().find(|c| c.off == tg.offset && c.sz == tg.size).map(|c| c.val.clone())
    }
    /// the content of the buffer is unknown from here on, all its rows are written
    fn filled(&mut self, st: &mut State, b: &Buf) {
        if let Reg::Heap(h) = b.reg {
            if let Some(r) = st.region_mut(h) {
                r.fill = Fill::Unknown;
                r.cells.clear();
                r.tmpl = None;
                r.focus = None;
                r.memo = None;
            }
        }
        if let (Some(i), Some(h)) = (self.image_of(st, b.reg), &b.h) {
            let im = self.images[i].clone();
            if im.is_dst {
                let e = b.esz as i128;
                let p = PtrV { reg: b.reg, off: b.off.clone(), lo: Poly::c(0), hi: Poly::c(0), meta: Meta::Thin };
                self.rows_event(st, &p, &b.stride.scale(e), &b.w.scale(b.cn as i128 * e), h);
            } else {
                self.ob(st, ObK::SrcWrite, "source image", false, || "the source image is written".into());
            }
        }
    }
    pub fn stub(&mut self, st: &mut State, f: FnId, k: StubK, args: &[(Blob, TyId)]) -> Option<Vec<(State, Blob)>> {
        let p = self.p;
        let ret = p.f(f).ret;
        let bad = |me: &mut Self, st: &State, what: &str| {
            me.unmodelled(st, &format!("{what} handed to {}", p.f(f).path.rsplit("::").next().unwrap_or("")));
        };
        if let StubK::Row(k) = k {
            return Some(self.row_stub(st, f, k, args));
        }
        if self.assume_single && k != StubK::Pool {
            for (b, t) in args {
                // an optional pool, by reference or by value
                let opt = |me: &Self, t: TyId| matches!(&me.p.t(t).kind, TyKind::Adt { path, args, .. } if path.ends_with("::Option") && args.iter().any(|a| matches!(a, GArg::Ty(x) if me.mentions_pool(*x))));
                let v = if opt(self, *t) {
                    Some((b.clone(), *t))
                } else {
                    match self.pointee(*t) {
                        Some(x) if opt(self, x) => {
                            let q = self.as_ptr(&b.cells.first().map(|c| c.val.clone()).unwrap_or(Val::Opaque), false);
                            let l = self.ptr_loc(&q, x);
                            Some((self.load(st, &l), x))
                        }
                        Some(x) if self.mentions_pool(x) => Some((Blob::default(), x)),
                        _ => None,
                    }
                };
                if let Some((v, t)) = v {
                    let none = self.variant_of(st, &v, t) == Some(0) && !v.cells.is_empty();
                    self.ob(st, ObK::Single, "thread pool", none, || "a step may be handed a thread pool under the single-thread policy".into());
                }
            }
        }
        match k {
            StubK::Row(_) => None,
            StubK::Vert | StubK::Horiz => {
                let vert = k == StubK::Vert;
                let (src, dst) = (self.store_of(st, args, 0), self.store_of(st, args, 2));
                let (Some(src), Some(dst)) = (src, dst) else {
                    bad(self, st, "unknown image");
                    return Some(vec![]);
                };
                let weights = self.weights_id(&args[1].0, args[1].1);
                let workload = args.iter().find_map(|a| self.enum_in(&a.0, a.1, "::WorkloadStrategy"));
                self.filled(st, &dst);
                self.note(st, Ev::Conv { vert, src, dst, weights, workload });
                Some(vec![(st.clone(), Blob::default())])
            }
            StubK::VertSlice | StubK::HorizSlice => {
                let vert = k == StubK::VertSlice;
                let fat: Vec<usize> = (0..args.len()).filter(|i| self.sz(args[*i].1) == 16 && matches!(self.class(args[*i].1), K::Fat(_))).collect();
                let ints: Vec<usize> = (0..args.len()).filter(|i| matches!(self.class(args[*i].1), K::Int { bits: 64, .. })).collect();
                if fat.len() != 2 || ints.len() != if vert { 3 } else { 2 } {
                    bad(self, st, "unexpected arguments");
                    return Some(vec![]);
                }
                let iv: Vec<Poly> = ints.iter().map(|i| self.arg_int(st, args, *i)).collect();
                let wi = args.iter().position(|a| matches!(&p.t(a.1).kind, TyKind::Adt { path, .. } if path.ends_with("::FilterWeights")));
                let weights = wi.and_then(|i| self.weights_id(&args[i].0, args[i].1));
                let (inn, out) = match weights.and_then(|w| self.weights_ev(st, w)) {
                    Some(x) => x,
                    None => {
                        bad(self, st, "unknown weights");
                        return Some(vec![]);
                    }
                };
                let workload = args.iter().find_map(|a| self.enum_in(&a.0, a.1, "::WorkloadStrategy"));
                let mut b = vec![];
                for j in 0..2 {
                    let q = self.arg_ptr(args, fat[j]);
                    let Meta::Len(n) = &q.meta else { return Some(vec![]) };
                    // rows of a slice without a height: as many as the buffer holds
                    let h = self.div_floor(st, n, &iv[j]);
                    let (w, h) = if vert { (iv[2].clone(), Some(if j == 0 { inn.clone() } else { out.clone() })) } else { (if j == 0 { inn.clone() } else { out.clone() }, h) };
                    b.push(Buf { reg: q.reg, off: q.off.clone(), len: n.clone(), w, h, stride: iv[j].clone(), depth: None, cn: 4, esz: 1 });
                }
                let dst = b.pop().unwrap();
                let src = b.pop().unwrap();
                self.filled(st, &dst);
                self.note(st, Ev::Conv { vert, src, dst, weights, workload });
                Some(vec![(st.clone(), Blob::default())])
            }
            StubK::Premul => {
                let (src, dst) = (self.store_of(st, args, 0), self.store_of(st, args, 1));
                let (Some(src), Some(dst)) = (src, dst) else {
                    bad(self, st, "unknown image");
                    return Some(vec![]);
                };
                self.filled(st, &dst);
                self.note(st, Ev::Premul { src, dst });
                Some(vec![(st.clone(), Blob::default())])
            }
            StubK::Unpremul => {
                let Some(dst) = self.store_of(st, args, 0) else {
                    bad(self, st, "unknown image");
                    return Some(vec![]);
                };
                self.note(st, Ev::Unpremul { dst });
                Some(vec![(st.clone(), Blob::default())])
            }
            StubK::Needed => {
                let Some(src) = self.store_of(st, args, 0) else {
                    bad(self, st, "unknown image");
                    return Some(vec![]);
                };
                let mut out = vec![];
                for res in [false, true] {
                    let mut s = st.clone();
                    self.note(&mut s, Ev::Needed { src: src.clone(), res });
                    out.push((s, Blob::one(1, Val::Bool(Cond::K(res)))));
                }
                Some(out)
            }
            StubK::Weights => {
                let ints: Vec<usize> = (0..args.len()).filter(|i| matches!(self.class(args[*i].1), K::Int { bits: 64, .. })).collect();
                if ints.len() != 2 {
                    bad(self, st, "unexpected arguments");
                    return Some(vec![]);
                }
                let inn = self.arg_int(st, args, ints[0]);
                let out = self.arg_int(st, args, ints[1]);
                let func = match self.pointee(args[0].1) {
                    Some(t) => {
                        let q = self.arg_ptr(args, 0);
                        self.enum_at(st, &q, t, "::ResamplingFunction").and_then(|(b, t)| self.tag_of(&b, t))
                    }
                    None => self.enum_in(&args[0].0, args[0].1, "::ResamplingFunction"),
                };
                let id = fresh("weights", 0, 1 << 62);
                self.note(st, Ev::Weights { id, inn, out, func });
                let b = self.weights_blob(ret, id);
                Some(vec![(st.clone(), b)])
            }
            StubK::Nearest => {
                let fat: Vec<usize> = (0..args.len()).filter(|i| self.sz(args[*i].1) == 16 && matches!(self.class(args[*i].1), K::Fat(_))).collect();
                let ints: Vec<usize> = (0..args.len()).filter(|i| matches!(self.class(args[*i].1), K::Int { bits: 64, .. })).collect();
                let iv: Vec<Poly> = ints.iter().map(|i| self.arg_int(st, args, *i)).collect();
                let cn = p.f(f).gargs.iter().find_map(|g| if let GArg::Const(k) = g { Some(*k as u64) } else { None })?;
                let mut b = vec![];
                for j in 0..2 {
                    let q = self.arg_ptr(args, fat[j]);
                    let Meta::Len(n) = &q.meta else { return Some(vec![]) };
                    let e = self.pointee(args[fat[j]].1).and_then(|t| self.elem(t)).map(|t| self.sz(t)).unwrap_or(1);
                    b.push(Buf { reg: q.reg, off: q.off.clone(), len: n.clone(), w: iv[3 * j + 1].clone(), h: Some(iv[3 * j + 2].clone()), stride: iv[3 * j].clone(), depth: None, cn, esz: e });
                }
                let dst = b.pop().unwrap();
                let src = b.pop().unwrap();
                self.filled(st, &dst);
                self.note(st, Ev::Nearest { src, dst });
                Some(vec![(st.clone(), Blob::default())])
            }
            StubK::Pool => {
                let policy = match self.pointee(args[0].1) {
                    Some(t) => {
                        let q = self.arg_ptr(args, 0);
                        self.enum_at(st, &q, t, "::ThreadingPolicy").map(|x| x.0)
                    }
                    None => find_type(p, args[0].1, "::ThreadingPolicy", 4).map(|(o, t)| Blob { cells: get(&args[0].0.cells, o, self.sz(t)) }),
                };
                self.note(st, Ev::Pool { policy });
                None
            }
        }
    }
    fn weights_blob(&mut self, t: TyId, id: u32) -> Blob {
        let mut cells = vec![];
        let mut lv = vec![];
        let mut tags = vec![];
        self.leaves(t, 0, &mut lv, &mut tags);
        for (o, t) in lv {
            let s = self.sz(t);
            let v = match self.class(t) {
                K::Int { bits: 64, .. } => Val::Int(Poly::sym(id)),
                _ => self.fresh_val(t, "weights"),
            };
            put(&mut cells, o, s, &[Cell { off: 0, sz: s, val: v }]);
        }
        Blob { cells }
    }
    fn weights_id(&mut self, b: &Blob, t: TyId) -> Option<u32> {
        let (o, _) = self.named(t, &["kernel_size"]).or_else(|| self.named(t, &["aligned_size"]))?;
        match &b.cells.iter().find(|c| c.off == o)?.val {
            Val::Int(p) => match p.syms()[..] {
                [s] if *p == Poly::sym(s) => Some(s),
                _ => None,
            },
            _ => None,
        }
    }
    fn weights_ev(&self, st: &State, w: u32) -> Option<(Poly, Poly)> {
        st.ev.iter().find_map(|e| match e {
            Ev::Weights { id, inn, out, .. } if *id == w => Some((inn.clone(), out.clone())),
            _ => None,
        })
    }
    pub fn color_event(&mut self, st: &mut State, name: &str, args: &[(Blob, TyId)], bufs: Vec<Buf>, rest: Vec<usize>) {
        let extra = rest.iter().map(|i| args[*i].0.clone()).collect();
        let tys = rest.iter().map(|i| args[*i].1).collect();
        let mut it = bufs.into_iter();
        let (Some(src), Some(dst)) = (it.next(), it.next()) else { return };
        self.filled(st, &dst);
        self.note(st, Ev::Color { name: name.to_string(), src, dst, extra, tys });
    }
    /// a value written into the destination must come from the same row and column of the source
    pub fn copy_check(&mut self, st: &mut State, dl: &Loc, origin: Option<(usize, Poly)>) {
        let Some(d) = self.image_of(st, dl.reg) else { return };
        if !self.images[d].is_dst {
            return;
        }
        let mut ok = false;
        let mut why = "a value that is not a source sample is written".to_string();
        if let Some((s, so)) = origin {
            let (si, di) = (self.images[s].clone(), self.images[d].clone());
            if !si.is_dst {
                match (Self::split_row(&so, &si.stride), Self::split_row(&dl.off, &di.stride)) {
                    (Some((y1, c1)), Some((y2, c2))) => {
                        ok = st.cons.entails_eq(&y1.sub(&y2)) && st.cons.entails_eq(&c1.sub(&c2));
                        why = format!("row {} byte {} of the destination receives row {} byte {} of the source", y2.show(), c2.show(), y1.show(), c1.show());
                    }
                    _ => why = "the position of a copied sample within its row is unknown".into(),
                }
            }
        }
        self.ob(st, ObK::Prop(7), "copied sample", ok, || why);
    }
}

// ---------------------------------------------------------------- rules at a return
pub struct Chain {
    /// indices of events from the source to the buffer
    pub ops: Vec<usize>,
    pub from_source: bool,
}

/// follow the content of buffers through the events; returns the chain of the destination
pub fn chains(evs: &[Ev], src: Reg, dst: Reg) -> Chain {
    let mut m: HashMap<Reg, (Vec<usize>, bool)> = HashMap::new();
    m.insert(src, (vec![], true));
    for (i, e) in evs.iter().enumerate() {
        match e {
            Ev::Conv { src, dst, .. } | Ev::Premul { src, dst } | Ev::Nearest { src, dst } | Ev::Color { src, dst, .. } => {
                let mut c = m.get(&src.reg).cloned().unwrap_or((vec![], false));
                c.0.push(i);
                m.insert(dst.reg, c);
            }
            Ev::Unpremul { dst } => {
                m.entry(dst.reg).or_insert((vec![], false)).0.push(i);
            }
            _ => {}
        }
    }
    let c = m.remove(&dst).unwrap_or((vec![], false));
    Chain { ops: c.0, from_source: c.1 }
}

pub fn op_name(e: &Ev) -> &str {
    match e {
        Ev::Conv { vert: true, .. } => "vertical pass",
        Ev::Conv { .. } => "horizontal pass",
        Ev::Premul { .. } => "premultiply",
        Ev::Unpremul { .. } => "unpremultiply",
        Ev::Needed { .. } => "alpha test",
        Ev::Weights { .. } => "weights",
        Ev::Nearest { .. } => "nearest",
        Ev::Pool { .. } => "pool",
        Ev::Color { name, .. } => name.rsplit("::").next().unwrap_or(""),
    }
}

/// `rgba_to_lab_with_alpha` -> (lab, 4, forward)
fn conv_space(name: &str) -> Option<(String, i32, bool)> {
    let n = name.rsplit("::").next()?;
    let cn = if n.contains("rgba") { 4 } else { 3 };
    let (a, b) = n.split_once("_to_")?;
    let strip = |s: &str| {
        let s = s.trim_end_matches("_with_alpha").trim_end_matches("_u8").trim_end_matches("_with_alpha");
        s.to_string()
    };
    let u8v = if n.contains("_u8") { "_u8" } else { "" };
    let rgb = |s: &str| matches!(s, "rgb" | "rgba" | "srgb" | "srgba");
    let (a, b) = (strip(a), strip(b));
    if rgb(&a) && !rgb(&b) {
        Some((format!("{b}{u8v}"), cn, true))
    } else if rgb(&b) && !rgb(&a) {
        Some((format!("{a}{u8v}"), cn, false))
    } else {
        None
    }
}

impl<'p> Interp<'p> {
    fn prop(&mut self, root: FnId, n: u8, what: &str, ok: bool, text: impl FnOnce() -> String) {
        let line = self.p.f(root).line;
        let text = if ok { String::new() } else { text() };
        self.obs.push(Ob { kind: ObK::Prop(n), f: root, line, what: what.into(), ok, text });
    }
    fn f32s(&self, v: &Val, n: usize) -> Option<Vec<f64>> {
        let Val::Ptr(p) = v else { return None };
        let Reg::Alloc(id) = p.reg else { return None };
        let base = p.off.is_const()? as usize;
        let (b, _) = self.const_bytes(id)?;
        let mut r = vec![];
        for i in 0..n {
            let mut w = [0u8; 4];
            for (j, x) in w.iter_mut().enumerate() {
                *x = (*b.get(base + i * 4 + j)?)?;
            }
            r.push(f32::from_le_bytes(w) as f64);
        }
        Some(r)
    }
    /// rules of the recorded chain when a resize returns success
    /// discriminant of the nearest-neighbour filter
    pub fn nearest_discr(&self) -> Option<i128> {
        let t = self.p.p.types.iter().find(|t| matches!(&t.kind, TyKind::Adt { path, .. } if path.ends_with("::ResamplingFunction")))?;
        let TyKind::Adt { variants, .. } = &t.kind else { return None };
        variants.iter().find(|v| v.name == "Nearest").map(|v| v.discr as i128)
    }
    pub fn check_success(&mut self, st: &State, root: FnId, set: &Settings, flags: &[Poly], color: bool, scen: Scen) {
        let evs = st.ev.clone();
        let (Some(si), Some(di)) = (self.images.iter().position(|i| !i.is_dst), self.images.iter().position(|i| i.is_dst)) else { return };
        let (src, dst) = (self.images[si].clone(), self.images[di].clone());
        let c = chains(&evs, src.reg, dst.reg);
        let names: Vec<&str> = c.ops.iter().map(|i| op_name(&evs[*i])).collect();
        let show = names.join(", ");
        let eq = |a: &Poly, b: &Poly| st.cons.entails_eq(&a.sub(b));
        let same = eq(&src.w, &dst.w) && eq(&src.h, &dst.h);
        let touched = !self.touched(st, di).is_zero();
        self.prop(root, 9, "work", !evs.is_empty() && c.from_source && !c.ops.is_empty() || touched && evs.iter().all(|e| matches!(e, Ev::Pool { .. })) , || format!("success is returned but the destination does not hold a result computed from the source (steps: {show})"));
        // every step that wrote into some buffer must be part of the result
        let used: Vec<usize> = c.ops.clone();
        let writers = evs.iter().enumerate().filter(|(_, e)| matches!(e, Ev::Conv { .. } | Ev::Premul { .. } | Ev::Unpremul { .. } | Ev::Nearest { .. } | Ev::Color { .. })).map(|x| x.0).collect::<Vec<_>>();
        self.prop(root, 9, "steps", writers.iter().all(|w| used.contains(w)), || format!("a step does not contribute to the result (steps of the result: {show})"));
        if same {
            self.prop(root, 7, "same size", c.ops.is_empty(), || format!("an image of unchanged size goes through: {show}"));
        }
        // ---- colour conversion
        let mut ops = c.ops.clone();
        if color && !ops.is_empty() {
            let f = ops.first().copied().and_then(|i| if let Ev::Color { name, .. } = &evs[i] { conv_space(name) } else { None });
            let b = ops.last().copied().and_then(|i| if let Ev::Color { name, .. } = &evs[i] { conv_space(name) } else { None });
            let inner_color = ops.len() > 2 && ops[1..ops.len() - 1].iter().any(|i| matches!(evs[*i], Ev::Color { .. }));
            let ok = match (&f, &b) {
                (Some((a, n, true)), Some((z, m, false))) => a == z && n == m && !inner_color && *n as u64 == src.cn && ops.len() > 2,
                _ => false,
            };
            self.prop(root, 13, "conversion pair", ok, || format!("the image is not converted, resized and converted back by an inverse pair of conversions (steps: {show})"));
            if ok {
                let (a, z) = (evs[ops[0]].clone(), evs[*ops.last().unwrap()].clone());
                if let (Ev::Color { extra: ea, tys: ta, .. }, Ev::Color { extra: eb, tys: tb, .. }) = (a, z) {
                    let find = |me: &Self, e: &Vec<Blob>, t: &Vec<TyId>, k: u8| -> Option<(Blob, TyId)> {
                        (0..t.len()).find(|i| match k {
                            0 => matches!(&me.p.t(t[*i]).kind, TyKind::Adt { path, .. } if path.ends_with("::TransferFunction")),
                            1 => matches!(&me.p.t(t[*i]).kind, TyKind::Ptr { .. }),
                            _ => me.is_float(t[*i]),
                        }).map(|i| (e[i].clone(), t[i]))
                    };
                    // transfer function; a missing one means sRGB
                    let srgb = |me: &Self, x: &Option<(Blob, TyId)>| -> bool {
                        match x {
                            None => true,
                            Some((b, t)) => {
                                let v = me.variant_of(st, b, *t);
                                let TyKind::Adt { variants, .. } = &me.p.t(*t).kind else { return false };
                                v.map(|v| variants[v as usize].name == "Srgb").unwrap_or(false)
                            }
                        }
                    };
                    let (x, y) = (find(self, &ea, &ta, 0), find(self, &eb, &tb, 0));
                    let ok = match (&x, &y) {
                        (Some(x), Some(y)) => x.0 == y.0 && !x.0.cells.is_empty(),
                        _ => srgb(self, &x) && srgb(self, &y),
                    };
                    self.prop(root, 13, "transfer function", ok, || "the conversions of the two directions use different transfer functions".into());
                    let (x, y) = (find(self, &ea, &ta, 1), find(self, &eb, &tb, 1));
                    let mats: Vec<Option<Vec<f64>>> = [&x, &y].iter().map(|m| m.as_ref().and_then(|m| m.0.cells.first()).and_then(|c| self.f32s(&c.val, 9))).collect();
                    let ok = match (&x, &y) {
                        (None, None) => true,
                        (Some(_), Some(_)) => match (&mats[0], &mats[1]) {
                            (Some(a), Some(b)) => (0..9).all(|k| {
                                let (i, j) = (k / 3, k % 3);
                                let v: f64 = (0..3).map(|l| a[i * 3 + l] * b[l * 3 + j]).sum();
                                (v - if i == j { 1. } else { 0. }).abs() < 2e-3
                            }),
                            _ => false,
                        },
                        // the variant without a matrix is the one of D65 sRGB
                        (Some(_), None) | (None, Some(_)) => {
                            let m = mats.iter().flatten().next();
                            // first row of the D65 sRGB matrices
                            m.map(|m| (m[0] - 0.4124).abs() < 2e-3 || (m[0] - 3.2404).abs() < 5e-3).unwrap_or(false)
                        }
                    };
                    self.prop(root, 13, "matrices", ok, || "the matrices of the two conversions are not inverse to each other".into());
                    let (x, y) = (find(self, &ea, &ta, 2), find(self, &eb, &tb, 2));
                    let ok = match (&x, &y) {
                        (None, None) => true,
                        (Some(x), Some(y)) => x.0 == y.0 && x.0.cells.first().map(|c| matches!(c.val, Val::Tok(_) | Val::F(..))).unwrap_or(false),
                        _ => false,
                    };
                    self.prop(root, 13, "luminance", ok, || "the conversions of the two directions use different parameters".into());
                }
                ops = ops[1..ops.len() - 1].to_vec();
            }
        }
        // ---- passes
        let nv = ops.iter().filter(|i| matches!(evs[**i], Ev::Conv { vert: true, .. })).count();
        let nh = ops.iter().filter(|i| matches!(evs[**i], Ev::Conv { vert: false, .. })).count();
        let nn = ops.iter().filter(|i| matches!(evs[**i], Ev::Nearest { .. })).count();
        if !ops.is_empty() {
            let ok = if nn > 0 { nn == 1 && nv + nh == 0 } else { nv <= 1 && nh <= 1 && (nv == 1 || eq(&src.h, &dst.h)) && (nh == 1 || eq(&src.w, &dst.w)) };
            self.prop(root, 9, "passes", ok, || format!("not every changed dimension is filtered exactly once (steps: {show})"));
        }
        if let (Scen::Filter(k), false) = (scen, ops.is_empty()) {
            self.prop(root, 9, "kind of filter", (k == 0) == (nn > 0), || format!("{} (steps: {show})", if k == 0 { "nearest-neighbour sampling is requested but not done" } else { "a filter is requested but nearest-neighbour sampling is done" }));
        }
        // ---- alpha
        let pm: Vec<usize> = (0..ops.len()).filter(|k| matches!(evs[ops[*k]], Ev::Premul { .. })).collect();
        let um: Vec<usize> = (0..ops.len()).filter(|k| matches!(evs[ops[*k]], Ev::Unpremul { .. })).collect();
        let cv: Vec<usize> = (0..ops.len()).filter(|k| matches!(evs[ops[*k]], Ev::Conv { .. })).collect();
        if src.cn == 4 {
            self.prop(root, 8, "pairing", pm.len() == um.len() && pm.len() <= 1, || format!("colours are premultiplied {} and unpremultiplied {} times (steps: {show})", pm.len(), um.len()));
            if let (Some(a), Some(b), Some(c0), Some(c1)) = (pm.first(), um.last(), cv.first(), cv.last()) {
                self.prop(root, 8, "order", a < c0 && b > c1, || format!("colours are not premultiplied before the first and unpremultiplied after the last pass (steps: {show})"));
            }
            if !pm.is_empty() || !um.is_empty() {
                self.prop(root, 8, "filtered", !cv.is_empty(), || format!("alpha is handled although nothing is filtered (steps: {show})"));
            }
            if let (Some(a), Some(b)) = (pm.first(), um.last()) {
                let da = if let Ev::Premul { dst, .. } = &evs[ops[*a]] { dst.depth.clone() } else { None };
                let db = if let Ev::Unpremul { dst } = &evs[ops[*b]] { dst.depth.clone() } else { None };
                if dst.depth.is_some() {
                    let ok = matches!((&da, &db), (Some(x), Some(y)) if eq(x, y));
                    self.prop(root, 8, "depth", ok, || "the two alpha steps use different bit depths".into());
                }
            }
            let asked = if flags.is_empty() { Some(false) } else { let f = &flags[0]; if st.cons.entails(&f.addc(-1)) { Some(true) } else if st.cons.entails(&f.neg()) { Some(false) } else { None } };
            match asked {
                Some(false) => self.prop(root, 8, "not requested", pm.is_empty() && um.is_empty(), || format!("alpha is handled without being requested (steps: {show})")),
                _ => {
                    // requested, or not known
                    if pm.is_empty() && !cv.is_empty() {
                        let skipped = evs.iter().any(|e| matches!(e, Ev::Needed { res: false, .. }));
                        let must = asked == Some(true);
                        self.prop(root, 8, "requested", !must || skipped, || format!("alpha handling was requested but colours are filtered as they are (steps: {show})"));
                        if asked.is_none() {
                            self.prop(root, 8, "requested", false, || format!("whether alpha is handled does not depend on the request alone (steps: {show})"));
                        }
                    } else if !pm.is_empty() && asked.is_none() {
                        self.prop(root, 8, "not requested", false, || format!("alpha is handled without looking at the request (steps: {show})"));
                    }
                }
            }
            // the test must look at the image that is filtered
            for e in evs.iter() {
                if let Ev::Needed { src: b, res: false } = e {
                    let first = cv.first().and_then(|k| if let Ev::Conv { src, .. } = &evs[ops[*k]] { Some(src.reg) } else { None });
                    if let Some(r) = first {
                        self.prop(root, 8, "tested image", b.reg == r, || "the alpha test looks at another image than the one filtered".into());
                    }
                }
            }
        }
        // ---- geometry of every step
        for i in &c.ops {
            match evs[*i].clone() {
                Ev::Conv { vert, src: a, dst: b, weights, workload } => {
                    let w = weights.and_then(|w| self.weights_ev(st, w));
                    let nm = if vert { "vertical pass" } else { "horizontal pass" };
                    let (ah, bh) = (a.h.clone().unwrap_or(Poly::c(-1)), b.h.clone().unwrap_or(Poly::c(-2)));
                    let ok = match &w {
                        None => false,
                        Some((i, o)) => if vert { eq(&a.w, &b.w) && eq(i, &ah) && eq(o, &bh) } else { eq(i, &a.w) && eq(o, &b.w) && (eq(&ah, &bh)) },
                    };
                    let wt = w.map(|(i, o)| format!("{} -> {}", i.show(), o.show())).unwrap_or("unknown".into());
                    self.prop(root, 9, nm, ok, || format!("{nm}: image {}x{} to {}x{} with weights made for {wt}", a.w.show(), ah.show(), b.w.show(), bh.show()));
                    self.geometry(st, root, nm, &a);
                    self.geometry(st, root, nm, &b);
                    if dst.depth.is_some() && !color {
                        let d = dst.depth.clone();
                        let ok = matches!((&b.depth, &d), (Some(x), Some(y)) if eq(x, y));
                        self.prop(root, 10, "bit depth", ok, || format!("{nm} clamps to the bit depth {} and not to that of the destination", b.depth.map(|x| x.show()).unwrap_or("?".into())));
                    }
                    if let Some(s) = &set.workload {
                        self.prop(root, 13, "workload", workload.as_ref() == Some(s), || format!("the {nm} does not run with the workload strategy of the scaler"));
                    }
                }
                Ev::Premul { src: a, dst: b } | Ev::Nearest { src: a, dst: b } | Ev::Color { src: a, dst: b, .. } => {
                    let nm = op_name(&evs[*i]).to_string();
                    self.geometry(st, root, &nm, &a);
                    self.geometry(st, root, &nm, &b);
                    if !matches!(evs[*i], Ev::Nearest { .. }) {
                        let ok = eq(&a.w, &b.w) && matches!((&a.h, &b.h), (Some(x), Some(y)) if eq(x, y));
                        self.prop(root, 9, &nm, ok, || format!("{nm}: input and output differ in size"));
                    }
                }
                Ev::Unpremul { dst: b } => {
                    self.geometry(st, root, "unpremultiply", &b);
                    if let (Some(d), false) = (&dst.depth, color) {
                        let ok = matches!(&b.depth, Some(x) if eq(x, d));
                        self.prop(root, 10, "bit depth", ok, || format!("colours are divided by alpha up to the bit depth {} and not to that of the destination", b.depth.map(|x| x.show()).unwrap_or("?".into())));
                    }
                }
                _ => {}
            }
        }
        for e in evs.iter() {
            match e {
                Ev::Weights { func, .. } => {
                    if let Some(s) = &set.function {
                        let ok = func.as_ref() == Some(s);
                        self.prop(root, 13, "filter", ok, || "the weights are not made for the filter of the scaler".into());
                    }
                }
                Ev::Pool { policy } => {
                    if let Some(m) = &set.multi {
                        let pt = self.p.p.types.iter().position(|t| matches!(&t.kind, TyKind::Adt { path, .. } if path.ends_with("::ThreadingPolicy")));
                        let single = policy.as_ref().zip(pt).and_then(|(b, t)| {
                            let v = self.variant_of(st, b, t as TyId)?;
                            let TyKind::Adt { variants, .. } = &self.p.t(t as TyId).kind else { return None };
                            Some(variants[v as usize].name == "Single")
                        });
                        let ok = match single {
                            Some(true) => st.cons.entails(&m.neg()),
                            Some(false) => st.cons.entails(&m.addc(-1)),
                            None => false,
                        };
                        self.prop(root, 13, "threading option", ok, || "the threading policy does not follow the multithreading option".into());
                    }
                    if let Some(s) = &set.policy {
                        let ok = policy.as_ref() == Some(s);
                        let (a, b) = (format!("{policy:?}"), format!("{s:?}"));
                        self.prop(root, 13, "threading policy", ok, || format!("the pool is not made from the threading policy of the scaler ({a} / {b})"));
                    }
                }
                _ => {}
            }
        }
    }
    /// a buffer handed to a step holds what its geometry says, and agrees with the image it is
    fn geometry(&mut self, st: &State, root: FnId, nm: &str, b: &Buf) {
        let row = b.w.scale(b.cn as i128);
        let ok1 = st.cons.entails(&b.stride.sub(&row)) && b.off.is_zero();
        let dbg = if ok1 || std::env::var("PS_DBG").is_err() { String::new() } else { self.explain(st, &b.stride, &row) };
        self.prop(root, 15, nm, ok1, || format!("{nm}: a row of {} elements does not fit the stride {}{dbg}", row.show(), b.stride.show()));
        if let Some(h) = &b.h {
            let ok = match b.stride.mul(h) {
                Some(t) => st.cons.entails(&b.len.sub(&t)),
                None => false,
            };
            self.prop(root, 15, nm, ok, || format!("{nm}: {} rows at stride {} do not fit a buffer of {} elements", h.show(), b.stride.show(), b.len.show()));
        }
        if let Some(i) = self.image_of(st, b.reg) {
            let im = self.images[i].clone();
            let e = b.esz as i128;
            let eq = |a: &Poly, c: &Poly| st.cons.entails_eq(&a.sub(c));
            let ok = b.esz == im.esz && b.cn == im.cn && eq(&b.w, &im.w) && b.h.as_ref().map(|h| eq(h, &im.h)).unwrap_or(false) && eq(&b.stride.scale(e), &im.stride);
            self.prop(root, 5, nm, ok, || format!("{nm}: the {} image is described as {}x{} at stride {}, it is {}x{} at stride {} bytes", im.name, b.w.show(), b.h.as_ref().map(|h| h.show()).unwrap_or("?".into()), b.stride.show(), im.w.show(), im.h.show(), im.stride.show()));
        }
    }
}
