//! Layers below the drivers: a filter pass over an image (its row loops interpreted, the row handlers
//! recorded and checked), and the row handlers and alpha steps themselves, each under the contract that
//! the layer above was shown to keep.
use super::driver::StubK;
use super::interp::*;
use super::mem::*;
use super::poly::*;
use super::roots::*;
use crate::prog::Prog;
use ps_ir::*;
use std::rc::Rc;
use std::collections::HashMap;

/// shape of a row handler
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum RowK {
    /// (source row, destination row, weights)
    Row,
    /// (source rows, stride, destination rows, stride, weights)
    Rows,
    /// (width, bounds, source, destination row, stride, weights); without a width the row is as long as
    /// the image is wide
    Column,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum KernK {
    /// a pass over an image; its row handlers are recorded
    Pass(StubK),
    /// a row handler, on so many rows
    Row(RowK, u64),
    /// a step that works on whole images
    Direct(StubK),
    Weights,
    /// a function of floats alone
    Float,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct KSpec {
    pub kind: KernK,
    pub cn: u64,
    /// the bit depth may be above 12
    pub deep: bool,
}

/// the parameters of a row handler by their part
#[derive(Clone, Debug, Default)]
pub struct Parts {
    pub src: usize,
    pub dst: usize,
    /// source stride, and destination stride of several rows
    pub strides: Vec<usize>,
    /// destination width, source width
    pub widths: Vec<usize>,
    /// the filter weights, or the weights of one column
    pub weights: usize,
    pub bounds: Option<usize>,
    pub depth: Option<usize>,
}
fn slice_elem(p: &Prog, t: TyId) -> Option<(bool, TyId)> {
    let TyKind::Ptr { mutable, to, .. } = &p.t(t).kind else { return None };
    match &p.t(*to).kind {
        TyKind::Slice(e) => Some((*mutable, *e)),
        _ => None,
    }
}
fn names(p: &Prog, t: TyId, suffix: &str) -> bool {
    matches!(&p.t(t).kind, TyKind::Ptr { to, .. } if matches!(&p.t(*to).kind, TyKind::Adt { path, .. } if path.ends_with(suffix)))
}
/// is this the signature of a row handler?
pub fn row_shape(p: &Prog, params: &[TyId]) -> Option<(RowK, Parts)> {
    let mut q = Parts::default();
    let (mut src, mut dst, mut wts, mut fw) = (None, None, None, None);
    let mut ints = vec![];
    for (i, t) in params.iter().enumerate() {
        match slice_elem(p, *t) {
            Some((false, _)) if src.is_none() => src = Some(i),
            Some((false, _)) if wts.is_none() => wts = Some(i),
            Some((true, _)) if dst.is_none() => dst = Some(i),
            Some(_) => return None,
            None => match &p.t(*t).kind {
                TyKind::Int { bits: 64, signed: false, .. } => ints.push(i),
                TyKind::Int { bits: 32, signed: false, .. } => q.depth = Some(i),
                _ if names(p, *t, "::FilterWeights") => fw = Some(i),
                _ if names(p, *t, "::FilterBounds") => q.bounds = Some(i),
                TyKind::Adt { path, .. } if path.ends_with("::FilterBounds") => q.bounds = Some(i),
                _ if p.t(*t).size == Some(0) => {}
                TyKind::Ptr { to, .. } if p.t(*to).size == Some(0) => {}
                _ => return None,
            },
        }
    }
    q.src = src?;
    q.dst = dst?;
    let (a, b) = (slice_elem(p, params[q.src])?.1, slice_elem(p, params[q.dst])?.1);
    if a != b {
        return None;
    }
    for i in ints {
        if q.src + 1 == i || q.dst + 1 == i {
            q.strides.push(i);
        } else {
            q.widths.push(i);
        }
    }
    match (fw, q.bounds, wts, q.strides.len()) {
        (Some(w), None, None, 0) if matches!(q.widths.len(), 0 | 2) => {
            q.weights = w;
            Some((RowK::Row, q))
        }
        (Some(w), None, None, 2) if matches!(q.widths.len(), 0 | 2) => {
            q.weights = w;
            Some((RowK::Rows, q))
        }
        (None, Some(_), Some(w), 1) if q.widths.len() <= 1 => {
            q.weights = w;
            Some((RowK::Column, q))
        }
        _ => None,
    }
}
pub fn row_table(p: &Prog) -> HashMap<FnId, StubK> {
    let mut m = HashMap::new();
    for (i, f) in p.p.fns.iter().enumerate() {
        if f.krate != "pic_scale" || f.body.is_none() || f.path.contains("{closure") {
            continue;
        }
        if let Some((k, _)) = row_shape(p, &f.params) {
            m.insert(i as FnId, StubK::Row(k));
        }
    }
    m
}
/// the passes and steps over whole images
pub fn kern_jobs(p: &Prog) -> Vec<(FnId, KSpec)> {
    let mut v = vec![];
    for (f, k) in super::driver::stub_table(p) {
        let fi = p.f(f);
        let cn = fi.params.iter().find_map(|t| match &p.t(*t).kind {
            TyKind::Ptr { to, .. } => store_info(p, *to).map(|x| x.2),
            _ => None,
        });
        match k {
            StubK::Vert | StubK::Horiz => v.push((f, KSpec { kind: KernK::Pass(k), cn: cn.unwrap_or(0), deep: true })),
            StubK::VertSlice | StubK::HorizSlice => v.push((f, KSpec { kind: KernK::Pass(k), cn: 4, deep: true })),
            StubK::Premul | StubK::Unpremul | StubK::Needed => v.push((f, KSpec { kind: KernK::Direct(k), cn: cn.unwrap_or(0), deep: true })),
            StubK::Nearest => {
                let cn = fi.gargs.iter().find_map(|g| if let GArg::Const(k) = g { Some(*k as u64) } else { None });
                v.push((f, KSpec { kind: KernK::Direct(k), cn: cn.unwrap_or(0), deep: true }))
            }
            StubK::Weights => v.push((f, KSpec { kind: KernK::Weights, cn: 0, deep: true })),
            StubK::Pool | StubK::Row(_) => {}
        }
    }
    v.sort();
    v
}

fn put_int(cells: &mut Vec<Cell>, o: u64, n: u64, v: Poly) {
    put(cells, o, n, &[Cell { off: 0, sz: n, val: Val::Int(v) }]);
}
const TOP: i128 = u64::MAX as i128;
/// no buffer is larger than the address space of a process
const SPACE: i128 = 1 << 47;

impl<'p> Interp<'p> {
    /// filter weights for `inn` source positions and `out` destination positions
    fn weights_value(&mut self, st: &mut State, t: TyId, inn: &Poly, out: &Poly) -> Option<Blob> {
        let mut cells = vec![];
        let ks = Poly::sym(fresh("kernel_size", 1, SPACE));
        let (wo, wt) = self.named(t, &["weights"])?;
        let (bo, bt) = self.named(t, &["bounds"])?;
        let elem = |me: &Self, t: TyId| -> Option<TyId> {
            match &me.p.t(t).kind {
                TyKind::Adt { args, .. } => args.iter().find_map(|a| if let GArg::Ty(t) = a { Some(*t) } else { None }),
                _ => None,
            }
        };
        let we = elem(self, wt)?;
        let be = elem(self, bt)?;
        self.ln_ks = Some(ks.clone());
        let n = ks.mul(out)?;
        let ws = self.sz(we) as i128;
        st.cons.add_ge(&n.scale(ws).neg().addc(SPACE));
        let wid = self.new_region(st, n.scale(ws), ws as u64, Fill::Unknown, None, "weights");
        let b = self.vec_blob(st, wt, wid, n.clone(), Some(n));
        for c in b.cells {
            put(&mut cells, wo + c.off, c.sz, &[Cell { off: 0, sz: c.sz, val: c.val }]);
        }
        let bs = self.sz(be) as i128;
        let (so, _) = self.named(be, &["start"])?;
        let (zo, _) = self.named(be, &["size"])?;
        let start = fresh("start", 0, TOP);
        let size = fresh("size", 0, TOP);
        let (ps, pz) = (Poly::sym(start), Poly::sym(size));
        let rows = vec![inn.sub(&ps).sub(&pz), ks.sub(&pz), pz.addc(-1), inn.sub(&ps).addc(-1)];
        st.cons.add_ge(&out.scale(bs).neg().addc(SPACE));
        let bid = self.new_region(st, out.scale(bs), bs as u64, Fill::Unknown, Some(Tmpl { fields: vec![(so, 8, start), (zo, 8, size)], rows }), "bounds");
        let b = self.vec_blob(st, bt, bid, out.clone(), Some(out.clone()));
        for c in b.cells {
            put(&mut cells, bo + c.off, c.sz, &[Cell { off: 0, sz: c.sz, val: c.val }]);
        }
        for (f, v) in [("kernel_size", ks.clone()), ("aligned_size", ks.clone()), ("distinct_elements", out.clone())] {
            let (o, _) = self.named(t, &[f])?;
            put_int(&mut cells, o, 8, v);
        }
        if let Some((o, _)) = self.named(t, &["coeffs_size"]) {
            put_int(&mut cells, o, 4, Poly::sym(fresh("coeffs", i32::MIN as i128, i32::MAX as i128)));
        }
        Some(Blob { cells })
    }
    /// an object behind a pointer
    fn boxed(&mut self, st: &mut State, t: TyId, b: Blob) -> Val {
        let id = self.new_region(st, Poly::c(self.sz(t) as i128), 0, Fill::Unknown, None, "arg");
        if let Some(r) = st.region_mut(id) {
            r.cells = b.cells;
        }
        self.region_ptr(st, id, Meta::Thin)
    }
    fn dim(&self, st: &mut State, name: &'static str) -> Poly {
        let p = Poly::sym(fresh(name, 1, SPACE));
        let _ = st;
        p
    }
    /// arguments of a layer below the drivers
    pub fn kern_args(&mut self, st: &mut State, job: &Job, k: KSpec) -> Option<Vec<Blob>> {
        let p = self.p;
        let fi = p.f(job.root);
        let params: Vec<TyId> = fi.params.clone();
        let mut args: Vec<Option<Blob>> = vec![None; params.len()];
        let max = SPACE;
        match k.kind {
            KernK::Row(rk, rows) => {
                let (_, q) = row_shape(p, &params)?;
                let e = slice_elem(p, params[q.src])?.1;
                let esz = self.sz(e);
                let cn = k.cn as i128;
                let mut col: Option<(Poly, Poly)> = None;
                let dw = self.dim(st, "dw");
                let ds = self.dim(st, "ds");
                let ss = self.dim(st, "ss");
                let (sw, sh) = match rk {
                    RowK::Column => (dw.clone(), self.dim(st, "sh")),
                    _ => (self.dim(st, "sw"), Poly::c(rows as i128)),
                };
                st.cons.add_ge(&ss.sub(&sw.scale(cn)));
                st.cons.add_ge(&ds.sub(&dw.scale(cn)));
                let (sb, sn) = self.add_image(st, "source", false, esz, k.cn, sw.clone(), sh.clone(), ss.clone(), None, None, Layout::Strided);
                let full = ss.mul(&sh)?;
                match rk {
                    RowK::Row => st.cons.add_ge(&sn.sub(&sw.scale(cn))),
                    _ => st.cons.add_eq(&sn.sub(&full)),
                }
                st.cons.add_ge(&full.scale(esz as i128).neg().addc(max));
                let (db, dn) = self.add_image(st, "destination", true, esz, k.cn, dw.clone(), Poly::c(rows as i128), ds.clone(), None, None, Layout::Strided);
                match rk {
                    RowK::Rows => st.cons.add_eq(&dn.sub(&ds.scale(rows as i128))),
                    RowK::Column => st.cons.add_eq(&dn.sub(&dw.scale(cn))),
                    _ => st.cons.add_ge(&dn.sub(&dw.scale(cn))),
                }
                args[q.src] = Some(Blob::one(16, self.region_ptr(st, sb, Meta::Len(sn))));
                args[q.dst] = Some(Blob::one(16, self.region_ptr(st, db, Meta::Len(dn))));
                let (ss0, ds0) = (ss.clone(), ds.clone());
                match rk {
                    RowK::Row => {}
                    RowK::Rows => {
                        let (i, j) = if q.src < q.dst { (0, 1) } else { (1, 0) };
                        args[q.strides[i]] = Some(Blob::one(8, Val::Int(ss)));
                        args[q.strides[j]] = Some(Blob::one(8, Val::Int(ds)));
                    }
                    RowK::Column => {
                        args[q.strides[0]] = Some(Blob::one(8, Val::Int(ss)));
                    }
                }
                for (i, v) in q.widths.iter().zip([&dw, &sw]) {
                    args[*i] = Some(Blob::one(8, Val::Int(v.clone())));
                }
                if rk == RowK::Column {
                    let bi = q.bounds?;
                    let bt = match &p.t(params[bi]).kind {
                        TyKind::Ptr { to, .. } => *to,
                        _ => params[bi],
                    };
                    let start = Poly::sym(fresh("start", 0, max));
                    let size = Poly::sym(fresh("size", 1, max));
                    st.cons.add_ge(&sh.sub(&start).sub(&size));
                    col = Some((start.clone(), size.clone()));
                    let mut cells = vec![];
                    put_int(&mut cells, self.named(bt, &["start"])?.0, 8, start);
                    put_int(&mut cells, self.named(bt, &["size"])?.0, 8, size.clone());
                    args[bi] = Some(if bt == params[bi] { Blob { cells } } else { Blob::one(8, self.boxed(st, bt, Blob { cells })) });
                    let we = slice_elem(p, params[q.weights])?.1;
                    let ws = self.sz(we) as i128;
                    let n = Poly::sym(fresh("weights", 1, max / ws));
                    st.cons.add_ge(&n.sub(&size));
                    let wid = self.new_region(st, n.scale(ws), ws as u64, Fill::Unknown, None, "weights");
                    args[q.weights] = Some(Blob::one(16, self.region_ptr(st, wid, Meta::Len(n))));
                } else {
                    let wt = self.pointee(params[q.weights])?;
                    let b = self.weights_value(st, wt, &sw, &dw)?;
                    args[q.weights] = Some(Blob::one(8, self.boxed(st, wt, b)));
                }
                let depth = Poly::sym(fresh("depth", 1, if self.want_range && !k.deep { 12 } else { 16 }));
                if self.want_lanes {
                    let by = |n: &str| st.heap.iter().find(|(_, r)| &*r.name == n).map(|x| (*x.0, x.1.clone()));
                    let (w, b) = (by("weights"), by("bounds"));
                    let t = b.as_ref().and_then(|x| x.1.tmpl.clone());
                    super::lanes::compared_none();
                    self.lanes = Some(Rc::new(super::lanes::LnCtx {
                        column: rk == RowK::Column,
                        rows,
                        src: sb,
                        dst: db,
                        weights: w.as_ref()?.0,
                        bounds: b.as_ref().map(|x| x.0).unwrap_or(u64::MAX),
                        esz: esz as i128,
                        cn,
                        wsz: w.as_ref()?.1.esz as i128,
                        ks: if rk == RowK::Column { None } else { self.ln_ks.clone() },
                        ss: ss0,
                        ds: ds0,
                        start: col.as_ref().map(|c| c.0.clone()),
                        size: col.as_ref().map(|c| c.1.clone()),
                        bsz: b.as_ref().map(|x| x.1.esz as i128).unwrap_or(1),
                        start_off: t.as_ref().map(|t| t.fields[0].0).unwrap_or(0),
                        size_off: t.as_ref().map(|t| t.fields[1].0).unwrap_or(0),
                        range: self.want_range,
                        alpha: false,
                        depth: q.depth.map(|_| depth.clone()),
                        deep: k.deep,
                    }));
                }
                if let Some(d) = q.depth {
                    args[d] = Some(Blob::one(4, Val::Int(depth)));
                }
            }
            KernK::Pass(s @ (StubK::VertSlice | StubK::HorizSlice)) => {
                let vert = s == StubK::VertSlice;
                let fat: Vec<usize> = (0..params.len()).filter(|i| slice_elem(p, params[*i]).is_some()).collect();
                let ints: Vec<usize> = (0..params.len()).filter(|i| matches!(p.t(params[*i]).kind, TyKind::Int { bits: 64, .. })).collect();
                if fat.len() != 2 || ints.len() != if vert { 3 } else { 2 } {
                    return None;
                }
                let (sw, sh, dw, dh) = (self.dim(st, "sw"), self.dim(st, "sh"), self.dim(st, "dw"), self.dim(st, "dh"));
                let (dw, dh) = if vert { (sw.clone(), dh) } else { (dw, sh.clone()) };
                for (j, (w, h)) in [(&sw, &sh), (&dw, &dh)].into_iter().enumerate() {
                    let s = self.dim(st, if j == 0 { "ss" } else { "ds" });
                    let (id, n) = self.add_image(st, if j == 0 { "source" } else { "destination" }, j == 1, 1, 4, w.clone(), h.clone(), s.clone(), None, None, Layout::Strided);
                    st.cons.add_eq(&n.sub(&s.mul(h)?));
                    st.cons.add_ge(&s.sub(&w.scale(4)));
                    args[fat[j]] = Some(Blob::one(16, self.region_ptr(st, id, Meta::Len(n))));
                    args[ints[j]] = Some(Blob::one(8, Val::Int(s)));
                }
                if vert {
                    args[ints[2]] = Some(Blob::one(8, Val::Int(sw.clone())));
                }
                let wi = (0..params.len()).find(|i| matches!(&p.t(params[*i]).kind, TyKind::Adt { path, .. } if path.ends_with("::FilterWeights")))?;
                let (a, b) = if vert { (sh, dh) } else { (sw, dw) };
                args[wi] = Some(self.weights_value(st, params[wi], &a, &b)?);
            }
            KernK::Direct(StubK::Nearest) => {
                let fat: Vec<usize> = (0..params.len()).filter(|i| slice_elem(p, params[*i]).is_some()).collect();
                let ints: Vec<usize> = (0..params.len()).filter(|i| matches!(p.t(params[*i]).kind, TyKind::Int { bits: 64, .. })).collect();
                if fat.len() != 2 || ints.len() != 6 {
                    return None;
                }
                let e = slice_elem(p, params[fat[0]])?.1;
                let esz = self.sz(e);
                for j in 0..2 {
                    let (w, h, s) = (self.dim(st, if j == 0 { "sw" } else { "dw" }), self.dim(st, if j == 0 { "sh" } else { "dh" }), self.dim(st, if j == 0 { "ss" } else { "ds" }));
                    let (id, n) = self.add_image(st, if j == 0 { "source" } else { "destination" }, j == 1, esz, k.cn, w.clone(), h.clone(), s.clone(), None, None, Layout::Strided);
                    st.cons.add_eq(&n.sub(&s.mul(&h)?));
                    st.cons.add_ge(&s.sub(&w.scale(k.cn as i128)));
                    args[fat[j]] = Some(Blob::one(16, self.region_ptr(st, id, Meta::Len(n))));
                    for (m, v) in [s, w, h].into_iter().enumerate() {
                        args[ints[3 * j + m]] = Some(Blob::one(8, Val::Int(v)));
                    }
                }
            }
            KernK::Pass(_) | KernK::Direct(_) => {
                for (i, t) in params.iter().enumerate() {
                    if let TyKind::Ptr { to, .. } = &p.t(*t).kind {
                        if store_info(p, *to).is_some() {
                            args[i] = Some(Blob::one(8, self.store_arg(st, *to, job.layout, job.owned)));
                        }
                    }
                }
                if k.kind == KernK::Direct(StubK::Unpremul) {
                    for x in self.images.iter_mut() {
                        x.alpha = x.esz as i128;
                    }
                }
                let ims = self.images.clone();
                if let (true, Some(x)) = (self.want_range || self.want_alpha, ims.iter().find(|x| x.is_dst)) {
                    let Reg::Heap(h) = x.reg else { return None };
                    let from = match ims.iter().find(|x| !x.is_dst && self.want_alpha).map(|x| x.reg) {
                        Some(Reg::Heap(s)) => s,
                        _ => h,
                    };
                    super::lanes::compared_none();
                    self.lanes = Some(Rc::new(super::lanes::LnCtx {
                        column: false,
                        rows: 0,
                        src: from,
                        dst: h,
                        weights: u64::MAX,
                        bounds: u64::MAX,
                        esz: x.esz as i128,
                        cn: x.cn as i128,
                        wsz: 1,
                        ks: None,
                        ss: x.s.clone(),
                        ds: x.s.clone(),
                        start: None,
                        size: None,
                        bsz: 1,
                        start_off: 0,
                        size_off: 0,
                        range: self.want_range,
                        alpha: self.want_alpha,
                        depth: x.depth.clone(),
                        deep: true,
                    }));
                }
                for x in &ims {
                    st.cons.add_ge(&x.w.addc(-1));
                    st.cons.add_ge(&x.h.addc(-1));
                    for y in [&x.w, &x.h, &x.s, &x.len] {
                        st.cons.add_ge(&y.neg().addc(SPACE));
                    }
                    st.cons.add_ge(&x.s.sub(&x.w.scale(x.cn as i128)));
                    st.cons.add_eq(&x.len.sub(&x.s.mul(&x.h)?));
                    if let Some(c) = &x.ch {
                        st.cons.add_eq(&c.addc(-(x.cn as i128)));
                    }
                    if let (Some(d), true) = (&x.depth, x.is_dst) {
                        st.cons.add_ge(&d.addc(-1));
                        st.cons.add_ge(&d.neg().addc(16));
                    }
                }
                let s = ims.iter().find(|i| !i.is_dst);
                let d = ims.iter().find(|i| i.is_dst);
                if let (Some(s), Some(d)) = (s, d) {
                    let horiz = k.kind == KernK::Pass(StubK::Horiz);
                    let vert = k.kind == KernK::Pass(StubK::Vert);
                    if !horiz {
                        st.cons.add_eq(&s.w.sub(&d.w));
                    }
                    if !vert {
                        st.cons.add_eq(&s.h.sub(&d.h));
                    }
                    if horiz || vert {
                        let wi = (0..params.len()).find(|i| matches!(&p.t(params[*i]).kind, TyKind::Adt { path, .. } if path.ends_with("::FilterWeights")))?;
                        let (a, b) = if vert { (s.h.clone(), d.h.clone()) } else { (s.w.clone(), d.w.clone()) };
                        args[wi] = Some(self.weights_value(st, params[wi], &a, &b)?);
                    }
                }
            }
            KernK::Weights => {
                let ints: Vec<usize> = (0..params.len()).filter(|i| matches!(p.t(params[*i]).kind, TyKind::Int { bits: 64, .. })).collect();
                if ints.len() != 2 {
                    return None;
                }
                let (a, b) = (self.dim(st, "in"), self.dim(st, "out"));
                args[ints[0]] = Some(Blob::one(8, Val::Int(a.clone())));
                args[ints[1]] = Some(Blob::one(8, Val::Int(b.clone())));
                self.weight_sizes = Some((a, b));
            }
            KernK::Float => self.float_root = Some(job.root),
        }
        let mut out = vec![];
        for (i, t) in params.iter().enumerate() {
            out.push(match args[i].take() {
                Some(b) => b,
                None => match &p.t(*t).kind {
                    TyKind::Ptr { to, .. } if p.t(*t).size == Some(8) => Blob::one(8, self.fresh_region_ptr(st, *to, false, "arg")),
                    _ => self.any_value(st, *t),
                },
            });
        }
        Some(out)
    }

    /// a layer returns
    pub fn kern_return(&mut self, mut s: State, b: Blob, job: &Job, k: KSpec) {
        let fi = self.p.f(job.root);
        if s.cons.is_bottom() {
            return;
        }
        if k.kind == KernK::Weights {
            let (inn, out) = self.weight_sizes.clone().unwrap();
            self.stack.push((job.root, fi.line));
            self.weights_keep(&mut s, &b, fi.ret, &inn, &out);
            self.stack.pop();
            return;
        }
        self.ghost_norm(&mut s);
        for i in 0..self.images.len() {
            let im = self.images[i].clone();
            if im.is_dst && im.track {
                let r = self.covered_rows(&s, i);
                let ok = s.cons.entails(&r.sub(&im.height));
                let text = if ok {
                    String::new()
                } else {
                    let open: Vec<String> = (1..9).map(|k| self.ghost_get(&s, im.ghost, 8 * k)).filter(|p| !p.is_zero()).map(|p| p.show()).collect();
                    let first = self.ghost_get(&s, im.ghost, 8);
                    let (a, b) = if first.is_zero() { (&r, &im.height) } else { (&first, &im.width) };
                    format!("it returns with only {} of {} rows known to be written, and {} of {} bytes{}", r.show(), im.height.show(), open.join(" "), im.width.show(), self.explain(&s, a, b))
                };
                self.obs.push(Ob { kind: ObK::Coverage, f: job.root, line: fi.line, what: "destination".into(), ok, text });
            }
        }
    }
    fn rule(&mut self, st: &State, what: &str, ok: bool, text: impl FnOnce() -> String) {
        self.ob(st, ObK::Rows, what, ok, text);
    }
    /// does the value keep the contract of filter weights for `inn` and `out` positions?
    fn weights_keep(&mut self, st: &mut State, b: &Blob, t: TyId, inn: &Poly, out: &Poly) {
        let int = |me: &Self, n: &str| -> Option<Poly> {
            let (o, _) = me.named(t, &[n])?;
            match &b.cells.iter().find(|c| c.off == o)?.val {
                Val::Int(p) => Some(p.clone()),
                _ => None,
            }
        };
        let vec = |me: &Self, n: &str| -> Option<(PtrV, Poly)> {
            let (o, vt) = me.named(t, &[n])?;
            let (po, _) = me.named(vt, &["buf", "inner", "ptr"])?;
            let (lo, _) = me.named(vt, &["len"])?;
            let Val::Ptr(q) = &b.cells.iter().find(|c| c.off == o + po)?.val else { return None };
            let Val::Int(l) = &b.cells.iter().find(|c| c.off == o + lo)?.val else { return None };
            Some(((**q).clone(), l.clone()))
        };
        let (Some(ks), Some(al), Some((wp, wn)), Some((bp, bn))) = (int(self, "kernel_size"), int(self, "aligned_size"), vec(self, "weights"), vec(self, "bounds")) else {
            self.rule(st, "weights", false, || "the filter weights are not known".into());
            return;
        };
        let _ = wp;
        let ok = st.cons.entails(&al.sub(&ks)) && st.cons.entails(&ks.addc(-1));
        self.rule(st, "weights", ok, || format!("kernel size {} and aligned size {} of the weights are not in order", ks.show(), al.show()));
        let ok = st.cons.entails(&bn.sub(out));
        self.rule(st, "weights", ok, || format!("{} bounds for {} positions", bn.show(), out.show()));
        let ok = al.mul(out).map(|n| st.cons.entails(&wn.sub(&n))).unwrap_or(false);
        self.rule(st, "weights", ok, || format!("{} weights for {} positions of {}", wn.show(), out.show(), al.show()));
        // every element of the bounds
        if let Reg::Heap(h) = bp.reg {
            self.flush(st, h);
        }
        let tm = match bp.reg {
            Reg::Heap(h) => st.region(h).and_then(|r| r.tmpl.clone()),
            _ => None,
        };
        let bt = self.named(t, &["bounds"]).and_then(|(_, vt)| match &self.p.t(vt).kind {
            TyKind::Adt { args, .. } => args.iter().find_map(|a| if let GArg::Ty(t) = a { Some(*t) } else { None }),
            _ => None,
        });
        let f = |me: &Self, n: &str| -> Option<Poly> {
            let (o, _) = me.named(bt?, &[n])?;
            tm.as_ref()?.fields.iter().find(|f| f.0 == o).map(|f| Poly::sym(f.2))
        };
        match (f(self, "start"), f(self, "size"), &tm) {
            (Some(s), Some(z), Some(t)) => {
                let mut c = st.cons.clone();
                for r in &t.rows {
                    c.add_ge(r);
                }
                let ok = c.entails(&inn.sub(&s).sub(&z)) && c.entails(&ks.sub(&z));
                self.rule(st, "weights", ok, || format!("the window of a position is not known to lie inside the {} source positions and the kernel {}: {}", inn.show(), { let (a,b)=st.cons.range(&ks); format!("{} [{a},{b}]", ks.show()) }, t.rows.iter().map(|r| r.show()).collect::<Vec<_>>().join("; ")));
            }
            _ => self.rule(st, "weights", false, || "the windows of the weights are not known".into()),
        }
    }
    /// a row handler is called
    pub fn row_stub(&mut self, st: &mut State, f: FnId, rk: RowK, args: &[(Blob, TyId)]) -> Vec<(State, Blob)> {
        let tys: Vec<TyId> = args.iter().map(|a| a.1).collect();
        let done = |st: &State| vec![(st.clone(), Blob::default())];
        let Some((_, q)) = row_shape(self.p, &tys).filter(|x| x.0 == rk) else {
            self.unmodelled(st, "unexpected arguments of a row handler");
            return done(st);
        };
        let (sp, dp) = (self.arg_ptr(args, q.src), self.arg_ptr(args, q.dst));
        let (si, di) = (self.image_of(st, sp.reg), self.image_of(st, dp.reg));
        let (Some(si), Some(di)) = (si.map(|i| self.images[i].clone()), di.map(|i| self.images[i].clone())) else {
            self.rule(st, "rows", false, || "a row handler works on other memory than the images of the pass".into());
            return done(st);
        };
        let ok = !si.is_dst && di.is_dst;
        self.rule(st, "rows", ok, || "a row handler does not read the source and write the destination".into());
        let (Meta::Len(sn), Meta::Len(dn)) = (sp.meta.clone(), dp.meta.clone()) else { return done(st) };
        let e = si.esz as i128;
        let (Some((sy, sc)), Some((dy, dc))) = (Self::split_row(&sp.off, &si.stride), Self::split_row(&dp.off, &di.stride)) else {
            self.rule(st, "rows", false, || "the position of a row in its image is not known".into());
            return done(st);
        };
        let ok = sc.is_zero() && dc.is_zero();
        self.rule(st, "rows", ok, || "a row handler is not given the beginning of a row".into());
        let iv: Vec<Poly> = q.strides.clone().into_iter().map(|i| self.arg_int(st, args, i)).collect();
        let wv: Vec<Poly> = q.widths.clone().into_iter().map(|i| self.arg_int(st, args, i)).collect();
        for (v, w) in wv.iter().zip([&di.w, &si.w]) {
            let ok = st.cons.entails_eq(&v.sub(w));
            self.rule(st, "rows", ok, || format!("the width given is {}, the image has {}", v.show(), w.show()));
        }
        let (srow, drow) = (si.w.scale(si.cn as i128), di.w.scale(di.cn as i128));
        let mut rows = 1u64;
        if rk == RowK::Column {
            let ok = sp.off.is_zero() && st.cons.entails_eq(&sn.sub(&si.len));
            self.rule(st, "rows", ok, || "a column handler is not given the whole source".into());
            let ok = st.cons.entails_eq(&iv[0].sub(&si.s));
            self.rule(st, "rows", ok, || format!("the stride given is {}, the source has {}", iv[0].show(), si.s.show()));
            let ok = st.cons.entails(&dn.sub(&drow)) && st.cons.entails(&drow.sub(&dn));
            self.rule(st, "rows", ok, || format!("a row of {} elements for {}", dn.show(), drow.show()));
            // window and weights of this row
            let bi = q.bounds.unwrap();
            let b = match self.pointee(args[bi].1) {
                Some(t) if !matches!(&self.p.t(args[bi].1).kind, TyKind::Adt { .. }) => {
                    let bp = self.arg_ptr(args, bi);
                    let l = self.ptr_loc(&bp, t);
                    Some((self.load(st, &l), t))
                }
                _ => Some((args[bi].0.clone(), args[bi].1)),
            };
            let get = |me: &Self, n: &str| -> Option<Poly> {
                let (b, t) = b.as_ref()?;
                let (o, _) = me.named(*t, &[n])?;
                match &b.cells.iter().find(|c| c.off == o)?.val {
                    Val::Int(p) => Some(p.clone()),
                    _ => None,
                }
            };
            let wp = self.arg_ptr(args, q.weights);
            match (get(self, "start"), get(self, "size"), wp.meta.clone()) {
                (Some(s), Some(z), Meta::Len(wn)) => {
                    let ok = st.cons.entails(&si.h.sub(&s).sub(&z));
                    self.rule(st, "window", ok, || format!("the window {} + {} may leave the {} source rows", s.show(), z.show(), si.h.show()));
                    let ok = st.cons.entails(&wn.sub(&z));
                    let dbg = if ok { String::new() } else { self.explain(st, &wn, &z) };
                    self.rule(st, "window", ok, || format!("{} weights for a window of {}{dbg}", wn.show(), z.show()));
                    // the window of row y
                    let at = z.syms().iter().find_map(|x| self.elt_origin.get(x).cloned());
                    let bsz = b.as_ref().map(|x| self.sz(x.1) as i128).unwrap_or(0);
                    let ok = at.as_ref().map(|(_, o)| st.cons.entails_eq(&o.sub(&dy.scale(bsz)))).unwrap_or(false);
                    self.rule(st, "window", ok, || format!("row {} is computed with the window of another row", dy.show()));
                    let reg = match wp.reg {
                        Reg::Heap(h) => st.region(h).map(|r| r.size.clone()),
                        _ => None,
                    };
                    let ok = match reg.as_ref().and_then(|n| Some((wp.off.mul(&di.h)?, dy.mul(n)?))) {
                        Some((a, b)) => a == b || st.cons.entails_eq(&a.sub(&b)),
                        None => false,
                    };
                    self.rule(st, "window", ok, || format!("row {} is computed with the weights of another row", dy.show()));
                }
                _ => self.rule(st, "window", false, || "the window of a row is not known".into()),
            }
        } else {
            let d = sy.sub(&dy);
            let ok = st.cons.entails_eq(&d);
            self.rule(st, "rows", ok, || format!("source row {} is filtered into destination row {}", sy.show(), dy.show()));
            if rk == RowK::Rows {
                let (i, j) = if q.src < q.dst { (0, 1) } else { (1, 0) };
                let ok = st.cons.entails_eq(&iv[i].sub(&si.s)) && st.cons.entails_eq(&iv[j].sub(&di.s));
                self.rule(st, "rows", ok, || format!("strides {} and {} are given for images with {} and {}", iv[i].show(), iv[j].show(), si.s.show(), di.s.show()));
                let k = (1..=16).find(|k| st.cons.entails_eq(&dn.sub(&di.s.scale(*k))));
                let ok = k.map(|k| st.cons.entails_eq(&sn.sub(&si.s.scale(k)))).unwrap_or(false);
                self.rule(st, "rows", ok, || format!("{} and {} elements are not the same number of rows", sn.show(), dn.show()));
                rows = k.unwrap_or(1) as u64;
            } else {
                let ok = st.cons.entails(&sn.sub(&srow)) && st.cons.entails(&dn.sub(&drow));
                self.rule(st, "rows", ok, || format!("rows of {} and {} elements, {} and {} are needed", sn.show(), dn.show(), srow.show(), drow.show()));
            }
            if let Some(t) = self.pointee(args[q.weights].1) {
                let wp = self.arg_ptr(args, q.weights);
                let l = self.ptr_loc(&wp, t);
                let b = self.load(st, &l);
                self.weights_keep(st, &b, t, &si.w, &di.w);
            }
        }
        if let (Some(d), Some(x)) = (q.depth, &di.depth) {
            let v = self.arg_int(st, args, d);
            let ok = st.cons.entails_eq(&v.sub(x));
            self.rule(st, "depth", ok, || format!("a row handler is given the bit depth {}, the destination has {}", v.show(), x.show()));
        }
        let deep = di.depth.as_ref().map(|d| !st.cons.entails(&d.neg().addc(12))).unwrap_or(false);
        self.kern_targets.insert((f, KSpec { kind: KernK::Row(rk, rows), cn: di.cn, deep }));
        // the rows are written from their first to their last pixel
        for k in 0..rows {
            let mut l = self.ptr_loc(&dp, tys[q.dst]);
            l.off = dp.off.add(&di.stride.scale(k as i128));
            self.write_event(st, &l, &drow.scale(e));
        }
        done(st)
    }
}
