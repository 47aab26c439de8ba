//! Harness: abstract arguments of the public entry points, and the rules checked at their return.
use super::interp::*;
use super::mem::*;
use super::poly::*;
use crate::prog::Prog;
use ps_ir::*;
use std::rc::Rc;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Layout {
    /// the row stride is a symbol of its own
    Strided,
    /// stride 0: rows follow each other
    Tight,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Policy {
    Single,
    Pool,
    Any,
}

/// what is assumed about the arguments
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Scen {
    /// contents of samples followed
    Lanes,
    /// kernel layers: ranges of samples
    Range,
    Alpha,
    /// nothing
    Any,
    /// source and destination have the same size
    Same,
    /// the filter is before (-1), is (0), or is after (1) the nearest-neighbour one in declaration order
    Filter(i8),
    /// a request that can be served: nothing wrong with either image, sizes far from overflow
    Valid,
    /// one defect of one image; `exact`: everything else is valid
    Reject { dst: bool, kind: Defect, exact: bool },
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Defect {
    ZeroW,
    ZeroH,
    Short,
    Long,
    Stride,
    DepthLow,
    DepthHigh,
    Huge,
}
impl Defect {
    pub fn error(&self) -> Option<&'static str> {
        Some(match self {
            Defect::ZeroW | Defect::ZeroH => "ZeroImageDimensions",
            Defect::Short | Defect::Long => "BufferMismatch",
            Defect::Stride => "InvalidStride",
            Defect::DepthLow | Defect::DepthHigh => "UnsupportedBitDepth",
            Defect::Huge => return None,
        })
    }
    pub fn what(&self) -> &'static str {
        match self {
            Defect::ZeroW => "zero width",
            Defect::ZeroH => "zero height",
            Defect::Short => "buffer shorter than stride * height",
            Defect::Long => "buffer longer than stride * height",
            Defect::Stride => "stride smaller than a row",
            Defect::DepthLow => "bit depth 0",
            Defect::DepthHigh => "bit depth above 16",
            Defect::Huge => "size overflowing the address space",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Job {
    pub root: FnId,
    pub layout: Layout,
    pub policy: Policy,
    pub owned: bool,
    /// kernels are recorded as events
    pub driver: bool,
    pub scen: Scen,
    /// a layer below the drivers
    pub kern: Option<super::kern::KSpec>,
}

pub struct Done {
    pub job: Job,
    pub obs: Vec<Ob>,
    pub float_fns: Vec<FnId>,
    pub secs: f64,
    pub steps: u64,
    pub returns: usize,
    pub oks: usize,
    pub errs: usize,
    pub events: usize,
    pub targets: Vec<(FnId, super::kern::KSpec)>,
}

pub fn store_info(p: &Prog, t: TyId) -> Option<(bool, TyId, u64)> {
    if let TyKind::Adt { path, args, .. } = &p.t(t).kind {
        let m = path.ends_with("::ImageStoreMut");
        if !m && !path.ends_with("::ImageStore") {
            return None;
        }
        let mut e = None;
        let mut n = None;
        for a in args {
            match a {
                GArg::Ty(t) => e = Some(*t),
                GArg::Const(k) => n = Some(*k as u64),
                _ => {}
            }
        }
        return Some((m, e?, n?));
    }
    None
}
/// offset of the first field of the named type inside `t`
pub fn find_type(p: &Prog, t: TyId, suffix: &str, depth: u32) -> Option<(u64, TyId)> {
    let TyKind::Adt { path, kind, variants, .. } = &p.t(t).kind else { return None };
    if path.ends_with(suffix) {
        return Some((0, t));
    }
    if depth == 0 || *kind != AdtK::Struct {
        return None;
    }
    let v = &variants[0];
    for (i, f) in v.fields.iter().enumerate() {
        if let Some((o, t)) = find_type(p, f.1, suffix, depth - 1) {
            return Some((o + v.offsets[i], t));
        }
    }
    None
}

impl<'p> Interp<'p> {
    /// a value of any type with unknown content
    pub fn any_value(&mut self, st: &mut State, t: TyId) -> Blob {
        let size = self.sz(t);
        if size == 0 {
            return Blob::default();
        }
        if self.is_scalar(t) && !matches!(self.class(t), K::Thin(_) | K::Fat(_)) {
            let v = if self.class(t) == K::Bool { Val::Int(Poly::sym(fresh("flag", 0, 1))) } else { self.fresh_val(t, "arg") };
            return Blob::one(size, v);
        }
        let v = self.fresh_region_ptr(st, t, false, "arg");
        let p = self.as_ptr(&v, false);
        let loc = self.ptr_loc(&p, t);
        self.load(st, &loc)
    }
    fn set_policy(&mut self, st: &mut State, h: u64, t: TyId, pol: Policy) {
        if pol == Policy::Any {
            return;
        }
        if let Some((o, pt)) = find_type(self.p, t, "::ThreadingPolicy", 4) {
            let TyKind::Adt { variants, .. } = &self.p.t(pt).kind else { return };
            let single = variants.iter().position(|v| v.name == "Single");
            if let (Some(s), Some(tag)) = (single, self.p.t(pt).tag.clone()) {
                let mut cells = vec![];
                if pol == Policy::Single {
                    self.set_tag(pt, s as u32, &mut cells);
                } else {
                    let ks: Vec<i128> = variants.iter().map(|v| v.discr).collect();
                    let d = variants[s].discr;
                    let lo = ks.iter().copied().filter(|k| *k != d).min().unwrap_or(0);
                    let hi = ks.iter().copied().filter(|k| *k != d).max().unwrap_or(0);
                    if d > lo && d < hi {
                        return;
                    }
                    put(&mut cells, tag.offset, tag.size, &[Cell { off: 0, sz: tag.size, val: Val::Int(Poly::sym(fresh("policy", lo, hi))) }]);
                }
                if let Some(r) = st.region_mut(h) {
                    let n = self.p.t(pt).size.unwrap_or(0);
                    for c in cells {
                        put(&mut r.cells, o + c.off, c.sz, &[Cell { off: 0, sz: c.sz, val: c.val }]);
                    }
                    let _ = n;
                }
            }
        }
    }
    pub fn add_image(&mut self, st: &mut State, name: &'static str, is_dst: bool, esz: u64, cn: u64, w: Poly, h: Poly, stride: Poly, ch: Option<Poly>, depth: Option<Poly>, layout: Layout) -> (u64, Poly) {
        let n = Poly::sym(fresh(if is_dst { "dst_len" } else { "src_len" }, 0, i64::MAX as i128 / esz as i128));
        let id = self.new_region(st, n.scale(esz as i128), esz, Fill::Unknown, None, name);
        let ix = self.images.len() as u8;
        if let Some(r) = st.region_mut(id) {
            r.img = Some(ix);
        }
        let ghost = if is_dst { self.new_ghost(st) } else { 0 };
        self.images.push(Image { name, width: w.scale((cn * esz) as i128), height: h.clone(), stride: stride.scale(esz as i128), w, h, s: stride, len: n.clone(), ch, depth, cn, esz, reg: Reg::Heap(id), is_dst, ghost, track: is_dst && layout == Layout::Strided, alpha: 0 });
        (id, n)
    }
    /// an ImageStore / ImageStoreMut with symbolic geometry
    pub fn store_arg(&mut self, st: &mut State, t: TyId, layout: Layout, owned: bool) -> Val {
        let (m, e, cn) = store_info(self.p, t).unwrap();
        let esz = self.sz(e);
        let (nw, nh, ns) = if m { ("dw", "dh", "ds") } else { ("sw", "sh", "ss") };
        let big = u64::MAX as i128;
        let w = Poly::sym(fresh(nw, 0, big));
        let h = Poly::sym(fresh(nh, 0, big));
        let s = if layout == Layout::Strided { Poly::sym(fresh(ns, 1, big)) } else { w.scale(cn as i128) };
        let depth = Poly::sym(fresh("depth", 0, big));
        let ch = Poly::sym(fresh("channels", 0, big));
        // only 16 bit integer pixels have a bit depth
        let has_depth = matches!(self.p.t(e).kind, TyKind::Int { bits: 16, .. });
        let stride_val = if layout == Layout::Strided { s.clone() } else { Poly::c(0) };
        let (buf, n) = self.add_image(st, if m { "destination" } else { "source" }, m, esz, cn, w.clone(), h.clone(), s, Some(ch.clone()), has_depth.then(|| depth.clone()), layout);
        let id = self.new_region(st, Poly::c(self.sz(t) as i128), 0, Fill::Unknown, None, "arg");
        let mut cells: Vec<Cell> = vec![];
        for (f, v) in [("width", w), ("height", h), ("stride", stride_val), ("bit_depth", depth), ("channels", ch)] {
            if let Some((o, _)) = self.named(t, &[f]) {
                put(&mut cells, o, 8, &[Cell { off: 0, sz: 8, val: Val::Int(v) }]);
            }
        }
        if let Some((bo, bt)) = self.named(t, &["buffer"]) {
            let TyKind::Adt { variants, .. } = &self.p.t(bt).kind else { panic!("buffer type") };
            let vi = variants.iter().position(|v| v.name == if owned { "Owned" } else { "Borrowed" }).expect("buffer variant");
            let (fo, ft) = self.field(bt, vi as u32, 0);
            let mut bc = vec![];
            if owned {
                let cap = Poly::sym(fresh("cap", 0, i64::MAX as i128));
                st.cons.add_ge(&cap.sub(&n));
                for (path, v) in [(vec!["buf", "inner", "ptr"], self.region_ptr(st, buf, Meta::Thin)), (vec!["buf", "inner", "cap"], Val::Int(cap)), (vec!["len"], Val::Int(n))] {
                    let (o, _) = self.named(ft, &path).expect("vector layout");
                    put(&mut bc, fo + o, 8, &[Cell { off: 0, sz: 8, val: v }]);
                }
            } else {
                let p = self.region_ptr(st, buf, Meta::Len(n));
                put(&mut bc, fo, 16, &[Cell { off: 0, sz: 16, val: p }]);
            }
            self.set_tag(bt, vi as u32, &mut bc);
            for c in bc {
                put(&mut cells, bo + c.off, c.sz, &[Cell { off: 0, sz: c.sz, val: c.val }]);
            }
        }
        if let Some(r) = st.region_mut(id) {
            r.cells = cells;
        }
        self.region_ptr(st, id, Meta::Thin)
    }
    pub fn variant_of(&self, st: &State, b: &Blob, t: TyId) -> Option<u32> {
        let info = self.p.t(t);
        let Some(tag) = &info.tag else { return info.single.or(Some(0)) };
        let TyKind::Adt { variants, .. } = &info.kind else { return Some(0) };
        let c = b.cells.iter().find(|c| c.off <= tag.offset && c.off + c.sz >= tag.offset + tag.size)?;
        let mask = if tag.size >= 8 { u64::MAX as i128 } else { (1i128 << (tag.size * 8)) - 1 };
        let k = match &c.val {
            Val::Tag(k) => Some(*k),
            Val::Int(p) => p.is_const(),
            _ => None,
        };
        match tag.niche {
            None => {
                let k = k?;
                variants.iter().position(|v| v.discr & mask == k & mask).map(|x| x as u32)
            }
            Some((u, first, last, start)) => match k {
                Some(k) => {
                    let rel = (k - start as i128) & mask;
                    Some(if rel <= (last - first) as i128 { first + rel as u32 } else { u })
                }
                None => match &c.val {
                    Val::Int(p) => {
                        let (lo, hi) = st.cons.range(p);
                        let s = start as i128;
                        if hi < s || lo > s + (last - first) as i128 { Some(u) } else if lo >= s && hi <= s + (last - first) as i128 && first == last { Some(first) } else if lo >= s && hi <= s + (last - first) as i128 { Some(first) } else { None }
                    }
                    Val::Ptr(_) => Some(u),
                    _ => None,
                },
            },
        }
    }
}

pub struct Setup<'p> {
    pub me: Interp<'p>,
    pub st: State,
    pub args: Vec<Blob>,
    pub set: super::driver::Settings,
    pub flags: Vec<Poly>,
}

impl<'p> Interp<'p> {
    /// settings of a scaler argument, and identities for its float fields
    fn read_settings(&mut self, st: &mut State, v: &Val, t: TyId, set: &mut super::driver::Settings) {
        let q = self.as_ptr(v, false);
        if find_type(self.p, t, "::ResamplingFunction", 4).is_none() {
            return;
        }
        let mut lv = vec![];
        let mut tags = vec![];
        self.leaves(t, 0, &mut lv, &mut tags);
        for (o, ft) in lv {
            if self.is_float(ft) {
                let mut l = self.ptr_loc(&q, ft);
                l.off = l.off.addc(o as i128);
                let n = self.sz(ft);
                let tok = Val::Tok(fresh("float field", 0, 0));
                self.store_raw(st, &l, n, &[Cell { off: 0, sz: n, val: tok }]);
            }
        }
        let mut rd = |me: &mut Self, n: &str| -> Option<Blob> {
            let (o, et) = find_type(me.p, t, n, 4)?;
            let mut l = me.ptr_loc(&q, et);
            l.off = l.off.addc(o as i128);
            l.deref = false;
            Some(me.load(st, &l))
        };
        let tag = |b: Option<Blob>| b.and_then(|b| b.cells.into_iter().next()).map(|c| c.val);
        set.function = tag(rd(self, "::ResamplingFunction"));
        set.workload = tag(rd(self, "::WorkloadStrategy"));
        set.policy = rd(self, "::ThreadingPolicy");
    }
}

/// assumptions of a scenario, added to the state
fn assume_scen(me: &Interp, st: &mut State, scen: Scen) -> bool {
    let (s, d) = (me.images.iter().find(|i| !i.is_dst).cloned(), me.images.iter().find(|i| i.is_dst).cloned());
    match scen {
        Scen::Any | Scen::Lanes | Scen::Range | Scen::Alpha | Scen::Filter(_) => true,
        Scen::Same => {
            let (Some(s), Some(d)) = (s, d) else { return false };
            st.cons.add_eq(&s.w.sub(&d.w));
            st.cons.add_eq(&s.h.sub(&d.h));
            true
        }
        Scen::Valid => {
            let (Some(s), Some(d)) = (s, d) else { return false };
            for x in [&s, &d] {
                for y in [&x.w, &x.h] {
                    st.cons.add_ge(&y.addc(-1));
                    st.cons.add_ge(&y.neg().addc(1 << 24));
                }
                st.cons.add_ge(&x.s.neg().addc(1 << 30));
                st.cons.add_ge(&x.s.sub(&x.w.scale(x.cn as i128)));
                let Some(f) = x.s.mul(&x.h) else { return false };
                st.cons.add_eq(&x.len.sub(&f));
                if let Some(c) = &x.ch {
                    st.cons.add_eq(&c.addc(-(x.cn as i128)));
                }
                if let Some(dp) = &x.depth {
                    st.cons.add_ge(&dp.addc(-1));
                    st.cons.add_ge(&dp.neg().addc(16));
                }
            }
            true
        }
        Scen::Reject { dst, kind, exact } => {
            let Some(im) = (if dst { d.clone() } else { s.clone() }) else { return false };
            let row = im.w.scale(im.cn as i128);
            let Some(full) = im.s.mul(&im.h) else { return false };
            if exact {
                for x in [&s, &d] {
                    let Some(x) = x else { continue };
                    let bad = x.is_dst == dst;
                    if !(bad && kind == Defect::ZeroW) {
                        st.cons.add_ge(&x.w.addc(-1));
                    }
                    if !(bad && kind == Defect::ZeroH) {
                        st.cons.add_ge(&x.h.addc(-1));
                    }
                    if let Some(c) = &x.ch {
                        st.cons.add_eq(&c.addc(-(x.cn as i128)));
                    }
                    if !(bad && kind == Defect::Huge) {
                        let Some(t) = x.w.scale(x.cn as i128).mul(&x.h) else { return false };
                        st.cons.add_ge(&t.neg().addc(i64::MAX as i128));
                        st.cons.add_ge(&x.w.scale(x.cn as i128).neg().addc(i64::MAX as i128));
                    }
                    if !(bad && matches!(kind, Defect::Short | Defect::Long)) {
                        let Some(f) = x.s.mul(&x.h) else { return false };
                        st.cons.add_eq(&x.len.sub(&f));
                    }
                    if !(bad && kind == Defect::Stride) {
                        st.cons.add_ge(&x.s.sub(&x.w.scale(x.cn as i128)));
                    }
                    if let Some(dp) = &x.depth {
                        if x.is_dst && !(bad && matches!(kind, Defect::DepthLow | Defect::DepthHigh)) {
                            st.cons.add_ge(&dp.addc(-1));
                            st.cons.add_ge(&dp.neg().addc(16));
                        }
                    }
                }
            }
            match kind {
                Defect::ZeroW => st.cons.add_eq(&im.w),
                Defect::ZeroH => st.cons.add_eq(&im.h),
                Defect::Short => {
                    st.cons.add_ge(&full.sub(&im.len).addc(-1));
                    // the product of the sizes is positive here
                    st.cons.add_ge(&im.w.addc(-1));
                    st.cons.add_ge(&im.h.addc(-1));
                }
                Defect::Long => st.cons.add_ge(&im.len.sub(&full).addc(-1)),
                Defect::Stride => st.cons.add_ge(&row.sub(&im.s).addc(-1)),
                Defect::DepthLow | Defect::DepthHigh => {
                    let Some(dp) = &im.depth else { return false };
                    if kind == Defect::DepthLow {
                        st.cons.add_eq(dp)
                    } else {
                        st.cons.add_ge(&dp.addc(-17))
                    }
                }
                Defect::Huge => {
                    let Some(t) = row.mul(&im.h) else { return false };
                    st.cons.add_ge(&t.addc(-(1i128 << 64)));
                    st.cons.add_ge(&im.w.addc(-1));
                    st.cons.add_ge(&im.h.addc(-1));
                }
            }
            true
        }
    }
}

pub fn setup<'p>(p: &'p Prog, job: &Job, secs: u64, trace: bool) -> Setup<'p> {
    reset_tables();
    super::num::reset_cache();
    let fi = p.f(job.root);
    let mut me = Interp::new(p, &fi.path, secs);
    me.trace = trace;
    me.assume_single = job.policy == Policy::Single;
    let mut st = State::new();
    let mut args: Vec<Blob> = vec![];
    let mut sizes: Vec<(Poly, Poly)> = vec![];
    let mut set = super::driver::Settings::default();
    let mut flags: Vec<Poly> = vec![];
    // slices with stride and size parameters
    let has_size = fi.params.iter().any(|t| matches!(&p.t(*t).kind, TyKind::Adt{path,..} if path.ends_with("::ImageSize")));
    let slice_roots = has_size && fi.params.iter().any(|t| p.t(*t).size == Some(16) && matches!(p.t(*t).kind, TyKind::Ptr { .. }));
    let mut pending: Vec<(bool, usize)> = vec![];
    for (i, t) in fi.params.iter().enumerate() {
        let t = *t;
        let info = p.t(t);
        match &info.kind {
            TyKind::Ptr { to, .. } if store_info(p, *to).is_some() => {
                let v = me.store_arg(&mut st, *to, job.layout, job.owned);
                args.push(Blob::one(8, v));
            }
            TyKind::Ptr { mutable, .. } if info.size == Some(16) && slice_roots => {
                pending.push((*mutable, i));
                args.push(Blob::default());
            }
            TyKind::Ptr { to, .. } if info.size == Some(8) => {
                let v = me.fresh_region_ptr(&mut st, *to, false, "arg");
                if let Val::Ptr(q) = &v {
                    if let Reg::Heap(h) = q.reg {
                        me.set_policy(&mut st, h, *to, job.policy);
                    }
                }
                me.read_settings(&mut st, &v, *to, &mut set);
                args.push(Blob::one(8, v));
            }
            TyKind::Ptr { to, .. } => {
                let v = me.fresh_region_ptr(&mut st, *to, true, "buffer");
                args.push(Blob::one(16, v));
            }
            TyKind::Adt { path, .. } if path.ends_with("::ImageSize") => {
                let w = Poly::sym(fresh("w", 0, u64::MAX as i128));
                let h = Poly::sym(fresh("h", 0, u64::MAX as i128));
                let mut cells = vec![];
                for (f, v) in [("width", &w), ("height", &h)] {
                    let (o, _) = me.named(t, &[f]).unwrap();
                    put(&mut cells, o, 8, &[Cell { off: 0, sz: 8, val: Val::Int(v.clone()) }]);
                }
                sizes.push((w, h));
                args.push(Blob { cells });
            }
            TyKind::Adt { .. } if find_type(p, t, "::ThreadingPolicy", 4).is_some() => {
                let v = me.fresh_region_ptr(&mut st, t, false, "arg");
                let q = me.as_ptr(&v, false);
                if let Reg::Heap(h) = q.reg {
                    me.set_policy(&mut st, h, t, job.policy);
                }
                let loc = me.ptr_loc(&q, t);
                let b = me.load(&mut st, &loc);
                args.push(b);
            }
            _ => {
                let b = me.any_value(&mut st, t);
                if matches!(info.kind, TyKind::Bool) {
                    if let Some(Cell { val: Val::Int(p), .. }) = b.cells.first() {
                        flags.push(p.clone());
                    }
                }
                let mut b = b;
                if let Some((o, _)) = me.named(t, &["premultiply_alpha"]) {
                    let f = Poly::sym(fresh("flag", 0, 1));
                    put(&mut b.cells, o, 1, &[Cell { off: 0, sz: 1, val: Val::Int(f.clone()) }]);
                    flags.push(f);
                    if let Some((o, _)) = me.named(t, &["use_multithreading"]) {
                        let v = match job.policy {
                            Policy::Single => Poly::c(0),
                            Policy::Pool => Poly::c(1),
                            Policy::Any => Poly::sym(fresh("multi", 0, 1)),
                        };
                        put(&mut b.cells, o, 1, &[Cell { off: 0, sz: 1, val: Val::Int(v.clone()) }]);
                        set.multi = Some(v);
                    }
                    if let Some((o, et)) = find_type(p, t, "::ResamplingFunction", 4) {
                        let n = me.sz(et);
                        set.function = get(&b.cells, o, n).into_iter().next().map(|c| c.val);
                    }
                }
                args.push(b);
            }
        }
    }
    if slice_roots && pending.len() == sizes.len() {
        for (k, (m, i)) in pending.iter().enumerate() {
            // the parameter after the slice is its stride
            let s = Poly::sym(fresh(if *m { "ds" } else { "ss" }, 0, u64::MAX as i128));
            let (w, h) = sizes[k].clone();
            let (id, n) = me.add_image(&mut st, if *m { "destination" } else { "source" }, *m, 1, 4, w, h, s.clone(), None, None, Layout::Strided);
            args[*i] = Blob::one(16, me.region_ptr(&st, id, Meta::Len(n)));
            args[*i + 1] = Blob::one(8, Val::Int(s));
        }
    }
    Setup { me, st, args, set, flags }
}

/// a layer below the drivers: interpreted under its contract, with what it calls recorded
pub fn run_kern(p: &Prog, job: &Job, k: super::kern::KSpec, secs: u64, trace: bool) -> Done {
    let t0 = std::time::Instant::now();
    reset_tables();
    super::num::reset_cache();
    let fi = p.f(job.root);
    let mut me = Interp::new(p, &fi.path, secs);
    me.trace = trace;
    let mut st = State::new();
    me.kern = true;
    me.want_lanes = matches!(job.scen, Scen::Lanes | Scen::Range | Scen::Alpha);
    me.want_alpha = job.scen == Scen::Alpha;
    me.want_range = job.scen == Scen::Range;
    let args = me.kern_args(&mut st, job, k);
    let mut returns = 0;
    match args {
        Some(args) => {
            if matches!(k.kind, super::kern::KernK::Pass(_)) {
                me.stubs = super::kern::row_table(p);
            }
            me.max_states = 24;
            let outs = me.call_flat(st, job.root, args);
            returns = outs.len();
            for (s, b) in outs {
                me.kern_return(s, b, job, k);
            }
        }
        None => me.obs.push(Ob { kind: ObK::Unmodelled, f: job.root, line: fi.line, what: "parameters".into(), ok: false, text: "the parameters of this function have an unexpected shape".into() }),
    }
    Done { job: job.clone(), float_fns: me.float_fns.iter().copied().collect(), obs: me.obs, secs: t0.elapsed().as_secs_f64(), steps: me.steps, returns, oks: returns, errs: 0, events: 0, targets: me.kern_targets.iter().copied().collect() }
}
pub fn run_job(p: &Prog, job: &Job, secs: u64, trace: bool) -> Done {
    if let Some(k) = job.kern {
        return run_kern(p, job, k, secs, trace);
    }
    let t0 = std::time::Instant::now();
    let Setup { mut me, mut st, args, set, flags } = setup(p, job, secs, trace);
    let fi = p.f(job.root);
    let color = fi.path.split("::").any(|s| s.starts_with("c_"));
    if !assume_scen(&me, &mut st, job.scen) || st.cons.is_bottom() {
        return Done { job: job.clone(), float_fns: vec![], obs: vec![], secs: 0.0, steps: 0, returns: 0, oks: 0, errs: 0, events: 0, targets: vec![] };
    }
    if let Scen::Filter(k) = job.scen {
        let n = me.nearest_discr();
        match (&set.function, n) {
            (Some(Val::Int(p)), Some(n)) => match k {
                -1 => st.cons.add_ge(&p.neg().addc(n - 1)),
                0 => st.cons.add_eq(&p.addc(-n)),
                _ => st.cons.add_ge(&p.addc(-n - 1)),
            },
            _ => me.unmodelled(&st, "the filter setting of this entry point is not known"),
        }
    }
    if job.driver {
        me.stubs = super::driver::stub_table(p);
        me.max_states = 64;
    }
    me.copy_mode = job.scen == Scen::Same;
    let mut events = 0;
    let ret = fi.ret;
    let assumed: Vec<Poly> = if let Scen::Reject { dst, kind, .. } = job.scen {
        let im = me.images.iter().find(|i| i.is_dst == dst);
        im.and_then(|im| {
            let full = im.s.mul(&im.h)?;
            match kind {
                Defect::Short => Some(full.sub(&im.len).addc(-1)),
                Defect::Long => Some(im.len.sub(&full).addc(-1)),
                _ => None,
            }
        })
        .into_iter()
        .collect()
    } else {
        vec![]
    };
    // the cases of each dimension shrinking, keeping and growing one by one
    let mut starts = vec![st];
    let ims: Vec<(Poly, Poly)> = [false, true].iter().filter_map(|d| me.images.iter().find(|i| i.is_dst == *d)).map(|i| (i.w.clone(), i.h.clone())).collect();
    if job.driver && ims.len() == 2 {
        for d in [ims[0].0.sub(&ims[1].0), ims[0].1.sub(&ims[1].1)] {
            starts = starts
                .iter()
                .flat_map(|s| {
                    (0..3).map(|k| {
                        let mut s = s.clone();
                        match k {
                            0 => s.cons.add_ge(&d.addc(-1)),
                            1 => s.cons.add_eq(&d),
                            _ => s.cons.add_ge(&d.neg().addc(-1)),
                        }
                        s
                    })
                })
                .filter(|s| !s.cons.is_bottom())
                .collect();
        }
    }
    let mut outs = vec![];
    for s in starts {
        outs.extend(me.call_flat(s, job.root, args.clone()));
    }
    let (mut oks, mut errs) = (0, 0);
    let result = matches!(&p.t(ret).kind, TyKind::Adt { path, .. } if path.ends_with("result::Result"));
    let returns = outs.len();
    for (mut s, b) in outs {
        if job.driver {
            me.settle(&mut s);
            // the case this scenario assumes is excluded by what the path established
            if assumed.iter().any(|p| s.cons.entails(&p.neg().addc(-1))) {
                continue;
            }
        }
        if s.cons.is_bottom() {
            continue;
        }
        let v = if result { me.variant_of(&s, &b, ret) } else { Some(0) };
        match v {
            Some(0) => {
                oks += 1;
                events += s.ev.len();
                me.ghost_norm(&mut s);
                if job.driver {
                    me.check_success(&s, job.root, &set, &flags, color, job.scen);
                }
                if job.scen == Scen::Valid {
                    me.obs.push(Ob { kind: ObK::Prop(6), f: job.root, line: fi.line, what: "valid request".into(), ok: true, text: String::new() });
                }
                if let Scen::Reject { dst, kind, .. } = job.scen {
                    me.obs.push(Ob { kind: ObK::Prop(6), f: job.root, line: fi.line, what: format!("{} of the {}", kind.what(), if dst { "destination" } else { "source" }), ok: false, text: "success may be returned for an invalid request".into() });
                }
                for i in 0..me.images.len() {
                    let im = me.images[i].clone();
                    if im.is_dst && im.track {
                        let r = me.covered_rows(&s, i);
                        let ok = s.cons.entails(&r.sub(&im.height));
                        let dbg = if ok { String::new() } else { me.explain(&s, &r, &im.height) };
                        let slots: Vec<String> = (0..4u64).map(|k| s.region(im.ghost).unwrap().cells[(k + 1) as usize].val.clone()).map(|v| if let Val::Int(p) = v { p.show() } else { "?".into() }).collect();
                        me.obs.push(Ob { kind: ObK::Coverage, f: job.root, line: fi.line, what: "destination".into(), ok, text: if ok { String::new() } else { format!("success is returned with only {} of {} rows known to be written (open rows: {}){dbg}", r.show(), im.height.show(), slots.join(", ")) } });
                    }
                }
            }
            Some(ev) => {
                errs += 1;
                if job.scen == Scen::Valid {
                    let (o, et) = me.field(ret, ev, 0);
                    let b2 = Blob { cells: get(&b.cells, o, me.sz(et)) };
                    let got = me.variant_of(&s, &b2, et).and_then(|v| if let TyKind::Adt { variants, .. } = &p.t(et).kind { variants.get(v as usize).map(|v| v.name.clone()) } else { None });
                    me.obs.push(Ob { kind: ObK::Prop(6), f: job.root, line: fi.line, what: "valid request".into(), ok: false, text: format!("a request that can be served is rejected with {}", got.unwrap_or("an error".into())) });
                }
                if let Scen::Reject { dst, kind, exact: true } = job.scen {
                    if let Some(want) = kind.error() {
                        let (o, et) = me.field(ret, ev, 0);
                        let b2 = Blob { cells: get(&b.cells, o, me.sz(et)) };
                        let got = me.variant_of(&s, &b2, et).and_then(|v| if let TyKind::Adt { variants, .. } = &p.t(et).kind { variants.get(v as usize).map(|v| v.name.clone()) } else { None });
                        let ok = got.as_deref() == Some(want);
                        me.obs.push(Ob { kind: ObK::Prop(6), f: job.root, line: fi.line, what: format!("{} of the {}", kind.what(), if dst { "destination" } else { "source" }), ok, text: if ok { String::new() } else { format!("the error returned is {} instead of {want}", got.unwrap_or("unknown".into())) } });
                    }
                }
                for i in 0..me.images.len() {
                    if me.images[i].is_dst {
                        let t = me.touched(&s, i);
                        let ok = t.is_zero() || s.cons.entails(&t.neg());
                        me.obs.push(Ob { kind: ObK::ErrTouch, f: job.root, line: fi.line, what: "destination".into(), ok, text: if ok { String::new() } else { "an error is returned after the destination was written".into() } });
                    }
                }
            }
            None => me.obs.push(Ob { kind: ObK::Unmodelled, f: job.root, line: fi.line, what: "result".into(), ok: false, text: "the result of the call is not known".into() }),
        }
    }
    Done { job: job.clone(), float_fns: me.float_fns.iter().copied().collect(), obs: me.obs, secs: t0.elapsed().as_secs_f64(), steps: me.steps, returns, oks, errs, events, targets: me.kern_targets.iter().copied().collect() }
}

/// run all jobs on a few threads with large stacks
pub fn run_jobs(p: &Prog, jobs: &[Job], secs: u64, threads: usize, trace: bool) -> Vec<Done> {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, Done)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            let (next, out) = (&next, &out);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, move || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= jobs.len() {
                        break;
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_job(p, &jobs[i], secs, trace)));
                    let d = r.unwrap_or_else(|e| {
                        let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        Done {
                            job: jobs[i].clone(),
                            obs: vec![Ob { kind: ObK::Unmodelled, f: jobs[i].root, line: 0, what: "analyser".into(), ok: false, text: format!("analyser failed: {t}") }],
                            float_fns: vec![],
                            secs: 0.0,
                            steps: 0,
                            returns: 0,
                            oks: 0,
                            errs: 0,
                            events: 0,
                            targets: vec![],
                        }
                    });
                    out.lock().unwrap().push((i, d));
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

/// development aid: ps_scan AI IR PATTERN LAYOUT POLICY [trace]
pub fn debug(a: &[String]) {
    let p = Prog::load(&a[0]);
    let lay = if a.get(2).map(|s| s == "tight").unwrap_or(false) { Layout::Tight } else { Layout::Strided };
    let pol = match a.get(3).map(|s| s.as_str()) {
        Some("single") => Policy::Single,
        Some("pool") => Policy::Pool,
        _ => Policy::Any,
    };
    let trace = a.iter().any(|s| s == "trace");
    let owned = a.iter().any(|s| s == "owned");
    let driver = a.iter().any(|s| s == "driver");
    let scen = match a.iter().find_map(|s| s.strip_prefix("scen=")) {
        None => Scen::Any,
        Some("same") => Scen::Same,
        Some("f0") => Scen::Filter(0),
        Some("f1") => Scen::Filter(1),
        Some("f-1") => Scen::Filter(-1),
        Some("valid") => Scen::Valid,
        Some("lanes") => Scen::Lanes,
        Some("range") => Scen::Range,
        Some("alpha") => Scen::Alpha,
        Some(x) => {
            let v: Vec<&str> = x.split(',').collect();
            let kind = match v[0] { "zw" => Defect::ZeroW, "zh" => Defect::ZeroH, "short" => Defect::Short, "long" => Defect::Long, "stride" => Defect::Stride, "dl" => Defect::DepthLow, "dh" => Defect::DepthHigh, _ => Defect::Huge };
            Scen::Reject { kind, dst: v.contains(&"dst"), exact: v.contains(&"exact") }
        }
    };
    if a.iter().any(|s| s == "kern") {
        let pass = super::kern::kern_jobs(&p);
        let rows = a.iter().any(|s| s == "rows");
        let mut jobs: Vec<Job> = pass.into_iter().filter(|j| rows || p.f(j.0).path.contains(&a[1])).map(|(f, k)| Job { root: f, layout: lay, policy: pol, owned, driver: false, scen, kern: Some(k) }).collect();
        if rows {
            let mut t = std::collections::BTreeSet::new();
            jobs.retain(|j| matches!(j.kern, Some(super::kern::KSpec { kind: super::kern::KernK::Pass(_), .. })));
            for d in run_jobs(&p, &jobs, 60, 8, false) {
                t.extend(d.targets.iter().copied());
            }
            println!("{} row handlers", t.len());
            jobs = t.into_iter().filter(|j| p.f(j.0).path.contains(&a[1])).map(|(f, k)| Job { root: f, layout: lay, policy: pol, owned, driver: false, scen, kern: Some(k) }).collect();
        }
        show(&p, &jobs, trace);
        return;
    }
    let jobs: Vec<Job> = p.p.roots.iter().filter(|r| p.f(**r).path.contains(&a[1])).map(|r| Job { root: *r, layout: lay, policy: pol, owned, driver, scen, kern: None }).collect();
    show(&p, &jobs, trace);
}
fn show(p: &Prog, jobs: &[Job], trace: bool) {
    let secs = std::env::var("PS_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    for d in run_jobs(p, jobs, secs, if trace { 1 } else { 8 }, trace) {
        let bad: Vec<&Ob> = d.obs.iter().filter(|o| !o.ok).collect();
        println!("{} {:?} {:.1}s steps {} obligations {} failed {} returns {} ok {} err {}", p.f(d.job.root).path, d.job.kern.map(|k| (k.kind, k.cn)), d.secs, d.steps, d.obs.len(), bad.len(), d.returns, d.oks, d.errs);
        let c = |k: ObK| d.obs.iter().filter(|o| o.kind == k).count();
        if c(ObK::Lane) + c(ObK::LaneUnk) > 0 {
            println!("   LANES {} unknown {} bad {}", c(ObK::Lane), c(ObK::LaneUnk), d.obs.iter().filter(|o| o.kind == ObK::Lane && !o.ok).count());
        }
        let mut seen = std::collections::BTreeSet::new();
        for o in bad {
            if seen.insert((o.kind, o.f, o.line, o.what.clone())) {
                println!("   {:?} {} {} [{}] {}", o.kind, p.loc(o.f, o.line), p.f(o.f).path, o.what, o.text);
            }
        }
    }
    let _ = Rc::new(0);
}
