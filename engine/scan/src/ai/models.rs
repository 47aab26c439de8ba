//! Functions without a body, and functions replaced by an exact summary.
use super::interp::*;
use super::mem::*;
use super::poly::*;
use ps_ir::*;
use std::rc::Rc;

/// bytes accessed through the pointer argument of a vector load or store
fn vector_access(name: &str) -> Option<(u64, bool)> {
    let n = name;
    let write = n.contains("store");
    if !write && !n.contains("load") && !n.contains("broadcast") && !n.contains("lddqu") {
        return None;
    }
    if n.contains("gather") || n.contains("scatter") || n.contains("expand") || n.contains("compress") {
        return None;
    }
    let wide = if n.starts_with("_mm512") {
        64
    } else if n.starts_with("_mm256") {
        32
    } else if n.starts_with("_mm_") {
        16
    } else {
        return None;
    };
    let t = |s: &str| n.ends_with(s);
    let sz = if t("_si64") || t("loadl_epi64") || t("storel_epi64") || t("load_sd") || t("store_sd") || t("load1_pd") || t("loadl_pd") || t("loadh_pd") || t("storel_pd") || t("storeh_pd") || t("broadcast_sd") || t("loadl_pi") {
        8
    } else if t("_si32") || t("load_ss") || t("store_ss") || t("load1_ps") || t("load_ps1") || t("broadcast_ss") {
        4
    } else if t("_si16") || t("_sh") {
        2
    } else if t("_si128") || t("_si256") || t("_si512") || t("_ps") || t("_pd") || t("_ph") || t("_epi8") || t("_epi16") || t("_epi32") || t("_epi64") {
        wide
    } else {
        return None;
    };
    Some((sz, write))
}
/// bytes per mask bit
fn mask_unit(name: &str) -> u64 {
    if name.ends_with("epi8") {
        1
    } else if name.ends_with("epi16") || name.ends_with("ph") {
        2
    } else if name.ends_with("epi32") || name.ends_with("ps") {
        4
    } else {
        8
    }
}

impl<'p> Interp<'p> {
    pub fn new_region(&mut self, st: &mut State, size: Poly, esz: u64, fill: Fill, tmpl: Option<Tmpl>, name: &str) -> u64 {
        let id = self.next_heap;
        self.next_heap += 1;
        Rc::make_mut(&mut st.heap).insert(
            id,
            Rc::new(Region { size, cells: vec![], fill, esz, tmpl: tmpl.map(Rc::new), focus: None, dirty: false, memo: None, name: Rc::from(name), img: None, writable: true }),
        );
        id
    }
    pub fn region_ptr(&self, st: &State, id: u64, meta: Meta) -> Val {
        let size = st.region(id).map(|r| r.size.clone()).unwrap_or(Poly::c(0));
        Val::Ptr(Rc::new(PtrV { reg: Reg::Heap(id), off: Poly::c(0), lo: Poly::c(0), hi: size, meta }))
    }
    fn name_here(&self, st: &State) -> String {
        let (f, _) = self.site_fn(st);
        let n = self.p.f(f).path.rsplit("::").next().unwrap_or("").to_string();
        format!("buffer of {n}")
    }
    /// int leaves of an element type when it consists of integers only
    fn int_fields(&self, t: TyId) -> Option<Vec<(u64, u64)>> {
        if self.is_scalar(t) {
            return None;
        }
        let mut lv = vec![];
        let mut tags = vec![];
        self.leaves(t, 0, &mut lv, &mut tags);
        if !tags.is_empty() || lv.is_empty() || lv.len() > 8 {
            return None;
        }
        let mut v = vec![];
        for (o, ty) in lv {
            match self.class(ty) {
                K::Int { .. } => v.push((o, self.sz(ty))),
                _ => return None,
            }
        }
        Some(v)
    }
    pub fn vec_blob(&mut self, st: &State, ret: TyId, id: u64, cap: Poly, len: Option<Poly>) -> Blob {
        let inner = match &self.p.t(ret).kind {
            TyKind::Adt { path, .. } if path.ends_with("RawVecInner") => vec![],
            _ => vec!["buf", "inner"],
        };
        let mut cells = vec![];
        let ptr = self.region_ptr(st, id, Meta::Thin);
        let mut pp = inner.clone();
        pp.push("ptr");
        let mut pc = inner;
        pc.push("cap");
        if let Some((o, _)) = self.named(ret, &pp) {
            put(&mut cells, o, 8, &[Cell { off: 0, sz: 8, val: ptr }]);
        }
        if let Some((o, _)) = self.named(ret, &pc) {
            put(&mut cells, o, 8, &[Cell { off: 0, sz: 8, val: Val::Int(cap) }]);
        }
        if let (Some(n), Some((o, _))) = (len, self.named(ret, &["len"])) {
            put(&mut cells, o, 8, &[Cell { off: 0, sz: 8, val: Val::Int(n) }]);
        }
        Blob { cells }
    }
    pub fn arg_int(&mut self, st: &mut State, args: &[(Blob, TyId)], i: usize) -> Poly {
        let (s, n) = self.ty_int(args[i].1);
        let v = args[i].0.cells.iter().find(|c| c.off == 0).map(|c| c.val.clone()).unwrap_or(Val::Opaque);
        let p = self.as_int(st, &v, s, n);
        self.resolve(st, &p, s, n)
    }
    pub fn arg_ptr(&mut self, args: &[(Blob, TyId)], i: usize) -> Rc<PtrV> {
        let v = args[i].0.cells.iter().find(|c| c.off == 0).map(|c| c.val.clone()).unwrap_or(Val::Opaque);
        let fat = self.sz(args[i].1) == 16;
        self.as_ptr(&v, fat)
    }
    pub fn fresh_blob(&mut self, ret: TyId, name: &str) -> Blob {
        let size = self.sz(ret);
        if size == 0 {
            return Blob::default();
        }
        if self.is_scalar(ret) {
            let v = self.fresh_val(ret, name);
            return Blob::one(size, v);
        }
        Blob::default()
    }
    pub fn pointee(&self, t: TyId) -> Option<TyId> {
        match self.class(t) {
            K::Thin(t) | K::Fat(t) => Some(t),
            _ => None,
        }
    }

    pub fn model(&mut self, mut st: State, f: FnId, args: Vec<(Blob, TyId)>) -> Vec<(State, Blob)> {
        let fi = self.p.f(f);
        let ret = fi.ret;
        let last = fi.path.rsplit("::").next().unwrap_or("").to_string();
        if matches!(self.p.t(ret).kind, TyKind::Never) {
            let p = fi.path.clone();
            if std::env::var_os("PS_ROWS").is_some() && self.quiet == 0 { for r in st.cons.rows.iter() { eprintln!("   ROW {}", r.show()); } }
            self.ob(&st, ObK::Panic, "panic", false, || format!("{p} can be reached"));
            return vec![];
        }
        let vector = fi.path.contains("arch::x86") || fi.path.contains("core_arch");
        if vector {
            if fi.path.contains("__is_feature_detected") || last.starts_with("is_x86_feature") {
                let s = *self.features.entry(fi.path.clone()).or_insert_with(|| fresh("cpu", 0, 1));
                return vec![(st, Blob::one(1, Val::Bool(Cond::Eq(Poly::sym(s).addc(-1)))))];
            }
            let pi = fi.params.iter().position(|t| self.pointee(*t).is_some());
            if let Some(pi) = pi {
                match vector_access(&last) {
                    Some((sz, write)) => {
                        let p = self.arg_ptr(&args, pi);
                        let mut size = Poly::c(sz as i128);
                        if last.contains("mask") {
                            let mi = fi.params.iter().position(|t| matches!(self.class(*t), K::Int { .. }));
                            if let Some(mi) = mi {
                                let m = self.arg_int(&mut st, &args, mi);
                                if let Some(k) = m.is_const() {
                                    let bits = 128 - (k as u128).leading_zeros();
                                    size = Poly::c((bits as u64 * mask_unit(&last)) as i128);
                                } else if m.0.len() == 1 && m.0[0].1 == 1 {
                                    let s = mono_syms(m.0[0].0);
                                    if s.len() == 1 {
                                        if let Some(b) = self.masks.get(&s[0]) {
                                            size = b.scale(mask_unit(&last) as i128);
                                        }
                                    }
                                }
                            }
                        }
                        let mut loc = self.ptr_loc(&p, fi.params[pi]);
                        loc.meta = Meta::Thin;
                        self.check_access(&mut st, &loc, &size, write);
                        if write {
                            self.write_event(&mut st, &loc, &size);
                            // contents become unknown
                            let n = size.is_const().unwrap_or(sz as i128) as u64;
                            if self.lanes.is_some() && last.contains("mask") {
                                // lanes outside the mask are not written; the rest as without a mask
                                let vi = (0..args.len()).find(|i| *i != pi && self.sz(args[*i].1) >= sz);
                                let c = vi.map(|i| super::lanes::tidy(&super::lanes::bytes(&args[i].0.cells, 0, sz, &super::lanes::B::U))).unwrap_or_default();
                                self.ln_store(&mut st, &loc, &Poly::c(sz as i128), &c);
                            } else if self.lanes.is_some() {
                                let vi = (0..args.len()).find(|i| *i != pi && self.sz(args[*i].1) >= n);
                                let c = vi.map(|i| { let all = &args[i].0.cells; super::lanes::tidy(&super::lanes::bytes(all, 0, n, &super::lanes::B::U)) }).unwrap_or_default();
                                self.ln_store(&mut st, &loc, &size, &c);
                                self.store_raw(&mut st, &loc, n, &c);
                                return vec![(st, Blob::default())];
                            }
                            self.store_raw(&mut st, &loc, n, &[Cell { off: 0, sz: n, val: Val::Opaque }]);
                        } else if self.lanes.is_some() && (!last.contains("mask") || last.contains("maskz_loadu")) {
                            let n = self.sz(ret);
                            let b = self.ln_load(&st, &last, &loc, sz, n);
                            return vec![(st, b)];
                        }
                    }
                    None => self.unmodelled(&st, &format!("memory access of {last}")),
                }
            }
            if self.lanes.is_some() && pi.is_none() {
                let n = self.sz(ret);
                let b = self.ln_vector(&st, f, &last, &args).unwrap_or_else(|| Blob::one(n, Val::Opaque));
                if self.trace && std::env::var_os("PS_LN2").is_some() {
                    if b.cells.iter().any(|c| c.val == Val::Opaque) || std::env::var("PS_LN2").as_deref() == Ok("2") {
                        for a in &args {
                            eprintln!("     arg {}", a.0.cells.iter().map(|c| format!("{}+{}:{}", c.off, c.sz, super::lanes::show_lane(&c.val))).collect::<Vec<_>>().join("; "));
                        }
                    }
                    eprintln!("  LN {last} -> {}", b.cells.iter().map(|c| format!("{}+{}:{}", c.off, c.sz, super::lanes::show_lane(&c.val))).collect::<Vec<_>>().join("; "));
                }
                return vec![(st, b)];
            }
            let b = self.fresh_blob(ret, "lane");
            return vec![(st, b)];
        }
        match last.as_str() {
            "from_elem" => {
                // a length that may exceed the machine word: once as it is, once wrapped
                let raw = match args[1].0.cells.first().map(|c| &c.val) {
                    Some(Val::Int(p)) => p.clone(),
                    _ => Poly::c(0),
                };
                let top = u64::MAX as i128;
                if raw.is_const().is_none() && raw.syms().len() > 1 && !st.cons.entails(&raw.neg().addc(top)) {
                    let mut big = st.clone();
                    big.cons.add_ge(&raw.addc(-top - 1));
                    st.cons.add_ge(&raw.neg().addc(top));
                    if !big.cons.is_bottom() {
                        let w = self.fresh_int("wrap", false, 64);
                        let mut a2 = args.clone();
                        a2[1].0 = Blob::one(8, Val::Int(w));
                        let mut out = if st.cons.is_bottom() { vec![] } else { self.model(st, f, args) };
                        out.extend(self.model(big, f, a2));
                        return out;
                    }
                }
                let n = self.arg_int(&mut st, &args, 1);
                let et = args[0].1;
                let es = self.sz(et);
                let size = n.scale(es as i128);
                // allocation succeeded
                st.cons.add_ge(&size.neg().addc(i64::MAX as i128));
                let zero = args[0].0.cells.iter().all(|c| matches!(&c.val, Val::Int(p) if p.is_zero())) && !args[0].0.cells.is_empty();
                let tm = self.int_fields(et).map(|fs| {
                    let mut fields = vec![];
                    let mut rows = vec![];
                    for (o, s) in fs {
                        let ph = fresh("elt", 0, (1i128 << (8 * s)) - 1);
                        fields.push((o, s, ph));
                        if let Some(Val::Int(p)) = args[0].0.cells.iter().find(|c| c.off == o && c.sz == s).map(|c| &c.val) {
                            rows.push(Poly::sym(ph).sub(p));
                            rows.push(p.sub(&Poly::sym(ph)));
                        }
                    }
                    Tmpl { fields, rows }
                });
                let nm = self.name_here(&st);
                let fill = if zero { Fill::Zero } else { Fill::Unknown };
                let id = self.new_region(&mut st, size, es, fill, tm, &nm);
                let b = self.vec_blob(&st, ret, id, n.clone(), Some(n));
                vec![(st, b)]
            }
            "with_capacity_in" => {
                let n = self.arg_int(&mut st, &args, 0);
                let lay = &args[args.len() - 1];
                let es = match self.named(lay.1, &["size"]) {
                    Some((o, _)) => match lay.0.cells.iter().find(|c| c.off == o && c.sz == 8).map(|c| &c.val) {
                        Some(Val::Int(p)) => p.is_const(),
                        _ => None,
                    },
                    None => None,
                };
                let Some(es) = es else {
                    self.unmodelled(&st, "allocation of unknown element size");
                    return vec![];
                };
                let size = n.scale(es);
                st.cons.add_ge(&size.neg().addc(i64::MAX as i128));
                let nm = self.name_here(&st);
                let id = self.new_region(&mut st, size, es.max(1) as u64, Fill::Unknown, None, &nm);
                let b = self.vec_blob(&st, ret, id, n, None);
                vec![(st, b)]
            }
            "do_reserve_and_handle" => {
                let p = self.arg_ptr(&args, 0);
                let len = self.arg_int(&mut st, &args, 1);
                let add = self.arg_int(&mut st, &args, 2);
                let ty = self.pointee(args[0].1).unwrap_or(ret);
                let loc = self.ptr_loc(&p, ty);
                let (po, _) = self.named(ty, &["ptr"]).unwrap_or((0, 0));
                let mut pl = loc.clone();
                pl.off = pl.off.addc(po as i128);
                let old = self.load_at(&mut st, &pl, 8, None);
                let es = args.last().and_then(|l| self.named(l.1, &["size"]).map(|x| (l.0.clone(), x.0))).and_then(|(b, o)| b.cells.iter().find(|c| c.off == o).and_then(|c| if let Val::Int(p) = &c.val { p.is_const() } else { None }));
                let Some(es) = es else {
                    self.unmodelled(&st, "allocation of unknown element size");
                    return vec![];
                };
                let cap = Poly::sym(fresh("cap", 0, i64::MAX as i128));
                st.cons.add_ge(&cap.sub(&len).sub(&add));
                st.cons.add_ge(&cap.scale(es).neg().addc(i64::MAX as i128));
                let mut tm = None;
                if let Some(Val::Ptr(q)) = &old {
                    if let Reg::Heap(h) = q.reg {
                        self.flush(&mut st, h);
                        tm = st.region(h).and_then(|r| r.tmpl.as_ref().map(|t| (**t).clone()));
                    }
                }
                let nm = self.name_here(&st);
                let id = self.new_region(&mut st, cap.scale(es), es.max(1) as u64, Fill::Unknown, tm, &nm);
                let np = self.region_ptr(&st, id, Meta::Thin);
                self.store_raw(&mut st, &pl, 8, &[Cell { off: 0, sz: 8, val: np }]);
                if let Some((co, _)) = self.named(ty, &["cap"]) {
                    let mut cl = loc.clone();
                    cl.off = cl.off.addc(co as i128);
                    self.store_raw(&mut st, &cl, 8, &[Cell { off: 0, sz: 8, val: Val::Int(cap) }]);
                }
                vec![(st, Blob::default())]
            }
            "new" if fi.path.contains("Arc::<T>::new") => {
                // Arc { ptr: NonNull<ArcInner<T>> }
                let inner = match self.named(ret, &["ptr", "pointer"]).map(|x| self.p.t(x.1)) {
                    Some(t) => {
                        let nm = t.name.trim_start_matches("pattern_type!(*const ").trim_end_matches(" is !null)").to_string();
                        self.p.p.types.iter().position(|t| t.name == nm).map(|x| x as u32)
                    }
                    None => None,
                };
                let Some((o, it)) = inner.and_then(|it| self.named(it, &["data"]).map(|x| (x.0, it))) else {
                    self.unmodelled(&st, "Arc layout");
                    return vec![];
                };
                let size = self.sz(it);
                let id = self.new_region(&mut st, Poly::c(size as i128), 0, Fill::Unknown, None, "shared value");
                if let Some(r) = st.region_mut(id) {
                    let mut cells = vec![];
                    put(&mut cells, o, self.p.t(args[0].1).size.unwrap_or(0), &args[0].0.cells);
                    r.cells = cells;
                }
                let p = self.region_ptr(&st, id, Meta::Thin);
                vec![(st, Blob::one(8, p))]
            }
            "num_threads" if fi.krate.starts_with("rayon") => vec![(st, Blob::default())],
            "new" if fi.krate.starts_with("rayon") => vec![(st, Blob::default())],
            "build" if fi.krate.starts_with("rayon") => {
                if self.assume_single {
                    self.ob(&st, ObK::Single, "thread pool", false, || "a thread pool is created under the single-thread policy".into());
                }
                let mut out = vec![];
                for v in 0..2u32 {
                    let s2 = st.clone();
                    let mut cells = vec![];
                    let (o, t) = self.field(ret, v, 0);
                    let _ = t;
                    if v == 0 {
                        // registry pointer of the pool
                        put(&mut cells, o, 8, &[Cell { off: 0, sz: 8, val: self.unknown_ptr(false) }]);
                    }
                    self.set_tag(ret, v, &mut cells);
                    out.push((s2, Blob { cells }));
                }
                out
            }
            "install" if fi.krate.starts_with("rayon") => {
                let body = fi.gargs.iter().find_map(|g| match g {
                    GArg::Ty(t) => match &self.p.t(*t).kind {
                        TyKind::Closure { body, .. } => Some((*body, *t)),
                        _ => None,
                    },
                    _ => None,
                });
                let Some((body, ct)) = body else {
                    self.unmodelled(&st, "install of something that is not a closure");
                    return vec![];
                };
                if self.assume_single {
                    self.ob(&st, ObK::Single, "thread pool", false, || "work is handed to a thread pool under the single-thread policy".into());
                }
                st.in_pool += 1;
                let c = args[1].0.clone();
                let outs = self.call_closure(st, body, ct, c, vec![]);
                outs.into_iter()
                    .map(|(mut s, b)| {
                        s.in_pool -= 1;
                        (s, b)
                    })
                    .collect()
            }
            "par_chunks_exact" | "par_chunks_exact_mut" | "par_chunks" | "par_chunks_mut" if fi.krate.starts_with("rayon") => {
                if self.assume_single {
                    self.ob(&st, ObK::Single, "parallel iterator", false, || "a parallel iterator is reached under the single-thread policy".into());
                }
                let p = self.arg_ptr(&args, 0);
                let n = self.arg_int(&mut st, &args, 1);
                let e = self.pointee(args[0].1).and_then(|t| self.elem(t));
                let Some(e) = e else {
                    self.unmodelled(&st, "parallel chunks of an unknown element");
                    return vec![];
                };
                let ok = st.cons.entails(&n.addc(-1));
                self.ob(&st, ObK::Panic, "chunk size", ok, || "the chunk size may be zero".into());
                st.cons.add_ge(&n.addc(-1));
                if st.cons.is_bottom() {
                    return vec![];
                }
                let it = ParIter::Chunks { ptr: (*p).clone(), chunk: n, esz: self.sz(e), exact: last.contains("exact") };
                vec![(st, Blob::one(self.sz(ret), Val::Par(Rc::new(it))))]
            }
            "enumerate" | "zip" | "for_each" if fi.krate.starts_with("rayon") => {
                let get_par = |b: &Blob| match b.cells.first().map(|c| &c.val) {
                    Some(Val::Par(p)) => Some(p.clone()),
                    _ => None,
                };
                let Some(a) = get_par(&args[0].0) else {
                    self.unmodelled(&st, "untracked parallel iterator");
                    return vec![];
                };
                match last.as_str() {
                    "enumerate" => vec![(st, Blob::one(self.sz(ret), Val::Par(Rc::new(ParIter::Enumerate(a)))))],
                    "zip" => {
                        let Some(b) = get_par(&args[1].0) else {
                            self.unmodelled(&st, "untracked parallel iterator");
                            return vec![];
                        };
                        vec![(st, Blob::one(self.sz(ret), Val::Par(Rc::new(ParIter::Zip(a, b)))))]
                    }
                    _ => {
                        let body = fi.gargs.iter().find_map(|g| match g {
                            GArg::Ty(t) => match &self.p.t(*t).kind {
                                TyKind::Closure { body, .. } => Some((*body, *t)),
                                _ => None,
                            },
                            _ => None,
                        });
                        let Some((body, ct)) = body else {
                            self.unmodelled(&st, "for_each without a closure");
                            return vec![];
                        };
                        let c = args[1].0.clone();
                        let outs = self.par_for_each(st, &a, body, ct, c);
                        outs.into_iter().map(|s| (s, Blob::default())).collect()
                    }
                }
            }
            "available_parallelism" => {
                let mut out = vec![];
                for v in 0..2u32 {
                    let s2 = st.clone();
                    let mut cells = vec![];
                    let (o, t) = self.field(ret, v, 0);
                    if v == 0 {
                        let n = Poly::sym(fresh("cpus", 1, 1 << 20));
                        put(&mut cells, o, self.sz(t), &[Cell { off: 0, sz: 8, val: Val::Int(n) }]);
                    }
                    self.set_tag(ret, v, &mut cells);
                    out.push((s2, Blob { cells }));
                }
                out
            }
            "saturating_sub" => {
                let a = self.arg_int(&mut st, &args, 0);
                let b = self.arg_int(&mut st, &args, 1);
                let (s, _) = self.ty_int(ret);
                if s {
                    let b = self.fresh_blob(ret, "sat");
                    return vec![(st, b)];
                }
                let v = self.min_max(&mut st, &a.sub(&b), &Poly::c(0), true);
                vec![(st, Blob::one(self.sz(ret), Val::Int(v)))]
            }
            "saturating_add" => {
                let a = self.arg_int(&mut st, &args, 0);
                let b = self.arg_int(&mut st, &args, 1);
                let (s, n) = self.ty_int(ret);
                if s {
                    let b = self.fresh_blob(ret, "sat");
                    return vec![(st, b)];
                }
                let v = self.min_max(&mut st, &a.add(&b), &Poly::c(lin_hi(n, false).1), false);
                vec![(st, Blob::one(self.sz(ret), Val::Int(v)))]
            }
            "integer_max" | "integer_min" => {
                let a = self.arg_int(&mut st, &args, 0);
                let b = self.arg_int(&mut st, &args, 1);
                let piece = self.kern && last == "integer_min" && self.stack.iter().rev().take(4).any(|f| {
                    let x = &self.p.f(f.0).path;
                    (x.contains("slice::Chunks<") || x.contains("slice::ChunksMut<")) && x.ends_with("::next")
                });
                let d = a.sub(&b);
                if piece && !st.cons.entails(&d) && !st.cons.entails(&d.neg()) {
                    // a whole piece, or the shorter last one
                    let n = self.sz(ret);
                    let mut other = st.clone();
                    st.cons.add_ge(&d);
                    other.cons.add_ge(&d.neg().addc(-1));
                    if a.is_const().is_some() {
                        st.part += 1;
                    } else {
                        other.part += 1;
                    }
                    return vec![(st, Blob::one(n, Val::Int(b))), (other, Blob::one(n, Val::Int(a)))];
                }
                let v = self.min_max(&mut st, &a, &b, last == "integer_max");
                vec![(st, Blob::one(self.sz(ret), Val::Int(v)))]
            }
            "ptr_offset_from_unsigned" | "ptr_offset_from" => {
                let p = self.arg_ptr(&args, 0);
                let q = self.arg_ptr(&args, 1);
                let es = self.pointee(args[0].1).map(|t| self.sz(t)).unwrap_or(1).max(1) as i128;
                if p.reg == q.reg && p.reg != Reg::Unknown {
                    let d = p.off.sub(&q.off);
                    let v = match d.div_const(es) {
                        Some(v) => Some(v),
                        None => self.div_floor(&mut st, &d, &Poly::c(es)),
                    };
                    if let Some(v) = v {
                        return vec![(st, Blob::one(8, Val::Int(v)))];
                    }
                }
                let b = self.fresh_blob(ret, "ptrdiff");
                vec![(st, b)]
            }
            "write_bytes" | "volatile_set_memory" if args.len() == 3 => {
                let d = args[0].0.cells.first().map(|c| c.val.clone()).unwrap_or(Val::Opaque);
                let es = self.pointee(args[0].1).map(|t| self.sz(t)).unwrap_or(1);
                let v = self.arg_int(&mut st, &args, 1);
                let n = self.arg_int(&mut st, &args, 2);
                self.memset(&mut st, &d, &v, &n, es, args[0].1);
                vec![(st, Blob::default())]
            }
            "copy" | "copy_nonoverlapping" if args.len() == 3 => {
                let s = args[0].0.cells.first().map(|c| c.val.clone()).unwrap_or(Val::Opaque);
                let d = args[1].0.cells.first().map(|c| c.val.clone()).unwrap_or(Val::Opaque);
                let es = self.pointee(args[0].1).map(|t| self.sz(t)).unwrap_or(1);
                let n = self.arg_int(&mut st, &args, 2);
                self.memcpy(&mut st, &s, &d, &n, es, args[0].1);
                vec![(st, Blob::default())]
            }
            "compare_bytes" if args.len() == 3 => {
                let n = self.arg_int(&mut st, &args, 2);
                if !n.is_zero() {
                    for i in 0..2 {
                        let p = self.arg_ptr(&args, i);
                        let mut loc = self.ptr_loc(&p, args[i].1);
                        loc.meta = Meta::Thin;
                        self.check_access(&mut st, &loc, &n, false);
                    }
                }
                let b = self.fresh_blob(ret, "cmp");
                vec![(st, b)]
            }
            "raw_eq" if args.len() == 2 => {
                for i in 0..2 {
                    let p = self.arg_ptr(&args, i);
                    let n = self.pointee(args[i].1).map(|t| self.sz(t)).unwrap_or(0);
                    let loc = self.ptr_loc(&p, args[i].1);
                    self.check_access(&mut st, &loc, &Poly::c(n as i128), false);
                }
                let b = self.fresh_blob(ret, "eq");
                vec![(st, b)]
            }
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => vec![(st, Blob::default())],
            _ if fi.krate == "colorutils_rs" => self.color_model(st, f, &args),
            _ => {
                let has_ptr = fi.params.iter().any(|t| self.pointee(*t).is_some());
                if has_ptr && !fi.path.contains("fmt") {
                    self.unmodelled(&st, &format!("call of {}", fi.path));
                }
                let b = self.fresh_blob(ret, "ret");
                vec![(st, b)]
            }
        }
    }

    /// closure body with its captures and (already untupled) arguments
    pub fn call_closure(&mut self, mut st: State, body: FnId, ct: TyId, caps: Blob, args: Vec<(Blob, TyId)>) -> Vec<(State, Blob)> {
        let b = self.p.f(body).body.as_ref().unwrap();
        let self_ty = b.locals[1];
        let first = if self_ty == ct {
            (caps, ct)
        } else {
            let size = self.sz(ct);
            let id = self.new_region(&mut st, Poly::c(size as i128), 0, Fill::Unknown, None, "closure");
            if let Some(r) = st.region_mut(id) {
                r.cells = caps.cells;
            }
            let p = self.region_ptr(&st, id, Meta::Thin);
            (Blob::one(8, p), self_ty)
        };
        let mut v = vec![first];
        v.extend(args);
        if b.nargs as usize == v.len() + 0 {
            return self.call_flat(st, body, v.into_iter().map(|x| x.0).collect());
        }
        self.unmodelled(&st, "closure signature");
        vec![]
    }

    fn par_count(&mut self, st: &mut State, it: &ParIter) -> Option<Poly> {
        match it {
            ParIter::Chunks { ptr, chunk, exact, .. } => {
                let Meta::Len(n) = &ptr.meta else { return None };
                let n = self.resolve(st, n, false, 64);
                if *exact {
                    self.div_floor(st, &n, chunk)
                } else {
                    self.div_floor(st, &n.add(chunk).addc(-1), chunk)
                }
            }
            ParIter::Zip(a, b) => {
                let x = self.par_count(st, a)?;
                let y = self.par_count(st, b)?;
                Some(self.min_max(st, &x, &y, false))
            }
            ParIter::Enumerate(a) => self.par_count(st, a),
        }
    }
    fn par_item(&mut self, st: &mut State, it: &ParIter, i: &Poly, ty: TyId) -> Option<Blob> {
        match it {
            ParIter::Chunks { ptr, chunk, esz, exact } => {
                let step = i.mul(chunk)?;
                let off = ptr.off.add(&step.scale(*esz as i128));
                let len = if *exact {
                    chunk.clone()
                } else {
                    let Meta::Len(n) = &ptr.meta else { return None };
                    let n = n.clone();
                    self.min_max(st, chunk, &n.sub(&step), false)
                };
                let hi = off.add(&len.scale(*esz as i128));
                Some(Blob::one(16, Val::Ptr(Rc::new(PtrV { reg: ptr.reg, lo: off.clone(), off, hi, meta: Meta::Len(len) }))))
            }
            ParIter::Zip(a, b) => {
                let TyKind::Tuple(ts) = &self.p.t(ty).kind else { return None };
                let offs = self.p.t(ty).offs.clone();
                let x = self.par_item(st, a, i, ts[0])?;
                let y = self.par_item(st, b, i, ts[1])?;
                let mut cells = vec![];
                put(&mut cells, offs[0], self.sz(ts[0]), &x.cells);
                put(&mut cells, offs[1], self.sz(ts[1]), &y.cells);
                Some(Blob { cells })
            }
            ParIter::Enumerate(a) => {
                let TyKind::Tuple(ts) = &self.p.t(ty).kind else { return None };
                let offs = self.p.t(ty).offs.clone();
                let y = self.par_item(st, a, i, ts[1])?;
                let mut cells = vec![];
                put(&mut cells, offs[0], 8, &[Cell { off: 0, sz: 8, val: Val::Int(i.clone()) }]);
                put(&mut cells, offs[1], self.sz(ts[1]), &y.cells);
                Some(Blob { cells })
            }
        }
    }
    fn par_for_each(&mut self, mut st: State, it: &Rc<ParIter>, body: FnId, ct: TyId, caps: Blob) -> Vec<State> {
        let Some(count) = self.par_count(&mut st, it) else {
            self.unmodelled(&st, "length of a parallel iterator");
            return vec![];
        };
        let b = self.p.f(body).body.as_ref().unwrap();
        let item_ty = *b.locals.get(2).unwrap_or(&0);
        let counter = self.new_region(&mut st, Poly::c(8), 0, Fill::Unknown, None, "ghost counter");
        if let Some(r) = st.region_mut(counter) {
            r.cells = vec![Cell { off: 0, sz: 8, val: Val::Int(Poly::c(0)) }];
        }
        // the closure object and the iterator live outside the loop
        let size = self.sz(ct);
        let cid = self.new_region(&mut st, Poly::c(size as i128), 0, Fill::Unknown, None, "ghost closure");
        if let Some(r) = st.region_mut(cid) {
            r.cells = caps.cells;
        }
        let iid = self.new_region(&mut st, Poly::c(8), 0, Fill::Unknown, None, "ghost iterator");
        if let Some(r) = st.region_mut(iid) {
            r.cells = vec![Cell { off: 0, sz: 0, val: Val::Par(it.clone()) }, Cell { off: 0, sz: 8, val: Val::Int(count.clone()) }];
        }
        let self_ty = b.locals[1];
        let by_ref = self_ty != ct;
        let o = self.generic_loop(
            st,
            &mut |me: &mut Self, s: State| {
                let mut out = RegionOut::default();
                let i = match s.region(counter).and_then(|r| r.cells.first().map(|c| c.val.clone())) {
                    Some(Val::Int(p)) => p,
                    _ => {
                        me.unmodelled(&s, "parallel loop counter");
                        return out;
                    }
                };
                let (it, count) = match s.region(iid).map(|r| r.cells.clone()) {
                    Some(c) => match (&c[0].val, &c[1].val) {
                        (Val::Par(p), Val::Int(n)) => (p.clone(), n.clone()),
                        _ => return out,
                    },
                    None => return out,
                };
                // exit
                let mut e = s.clone();
                e.cons.add_ge(&i.sub(&count));
                if !e.cons.is_bottom() {
                    out.exits.push((0, e));
                }
                let mut s = s;
                s.cons.add_ge(&count.sub(&i).addc(-1));
                s.cons.add_ge(&i);
                if s.cons.is_bottom() {
                    return out;
                }
                let Some(item) = me.par_item(&mut s, &it, &i, item_ty) else {
                    me.unmodelled(&s, "item of a parallel iterator");
                    return out;
                };
                let selfv = if by_ref { Blob::one(8, me.region_ptr(&s, cid, Meta::Thin)) } else { Blob { cells: s.region(cid).map(|r| r.cells.clone()).unwrap_or_default() } };
                for (mut s2, _) in me.call_flat(s, body, vec![selfv, item]) {
                    if let Some(r) = s2.region_mut(counter) {
                        r.cells = vec![Cell { off: 0, sz: 8, val: Val::Int(i.addc(1)) }];
                    }
                    out.back.push(s2);
                }
                out
            },
            &mut |_me: &mut Self, _s: &mut State| {},
        );
        let mut v = vec![];
        for (_, mut s) in o.exits {
            Rc::make_mut(&mut s.heap).retain(|k, _| *k != counter && *k != cid && *k != iid);
            v.push(s);
        }
        self.merge_list(v)
    }

    /// (source, source stride in bytes, destination, destination stride, width, height, ...)
    fn exact_div(&mut self, st: &mut State, a: &Poly, k: i128) -> Option<Poly> {
        if k == 1 {
            return Some(a.clone());
        }
        a.div_const(k).or_else(|| self.div_floor(st, a, &Poly::c(k)))
    }
    fn color_model(&mut self, mut st: State, f: FnId, args: &[(Blob, TyId)]) -> Vec<(State, Blob)> {
        let fi = self.p.f(f);
        let slices: Vec<usize> = (0..args.len()).filter(|i| self.sz(args[*i].1) == 16 && matches!(self.class(args[*i].1), K::Fat(_))).collect();
        let ints: Vec<usize> = (0..args.len()).filter(|i| matches!(self.class(args[*i].1), K::Int { bits: 32, .. })).collect();
        if slices.len() != 2 || ints.len() < 4 {
            self.unmodelled(&st, &format!("call of {}", fi.path));
            let b = self.fresh_blob(fi.ret, "ret");
            return vec![(st, b)];
        }
        let chan = |n: &str| -> i128 { if n.contains("rgba") || n.contains("bgra") || n.contains("_with_alpha") { 4 } else { 3 } };
        let cn = chan(&fi.path);
        let w = self.arg_int(&mut st, args, ints[2]);
        let h = self.arg_int(&mut st, args, ints[3]);
        let mut bufs = vec![];
        for (k, si) in slices.iter().enumerate() {
            let p = self.arg_ptr(args, *si);
            let stride = self.arg_int(&mut st, args, ints[k]);
            let e = self.pointee(args[*si].1).and_then(|t| self.elem(t)).map(|t| self.sz(t)).unwrap_or(1) as i128;
            let Meta::Len(n) = &p.meta else { continue };
            let bytes = n.scale(e);
            // rows [0, h) of `stride` bytes, pixels inside the row
            let row = w.scale(cn * e);
            let ok1 = st.cons.entails(&stride.sub(&row));
            let ok2 = match stride.mul(&h) {
                Some(t) => st.cons.entails(&bytes.sub(&t)),
                None => false,
            };
            let (what, write) = if k == 0 { ("read", false) } else { ("write", true) };
            let name = fi.path.clone();
            self.ob(&st, ObK::Access, what, ok1 && ok2, || format!("{name}: rows of {} bytes at stride {} times {} not provably inside {} bytes", row.show(), stride.show(), h.show(), bytes.show()));
            if !self.stubs.is_empty() {
                let Some(s) = self.exact_div(&mut st, &stride, e) else {
                    self.unmodelled(&st, "stride of a colour conversion");
                    continue;
                };
                bufs.push(super::driver::Buf { reg: p.reg, off: p.off.clone(), len: n.clone(), w: w.clone(), h: Some(h.clone()), stride: s, depth: None, cn: cn as u64, esz: e as u64 });
            } else if write {
                self.rows_event(&mut st, &p, &stride, &row, &h);
            }
        }
        if !self.stubs.is_empty() {
            let rest: Vec<usize> = (0..args.len()).filter(|i| !slices.contains(i) && !ints.contains(i)).collect();
            self.color_event(&mut st, &fi.path, args, bufs, rest);
        }
        let b = self.fresh_blob(fi.ret, "ret");
        vec![(st, b)]
    }

    pub fn override_model(&mut self, st: &mut State, f: FnId, args: &[(Blob, TyId)]) -> Option<Vec<(State, Blob)>> {
        let fi = self.p.f(f);
        // functions from floats to a float only compute
        let fl = |t: TyId| matches!(self.p.t(t).kind, TyKind::Float { .. });
        if (self.lanes.is_none() || fi.krate != "pic_scale") && !fi.params.is_empty() && fi.params.iter().all(|t| fl(*t)) && fl(fi.ret) && self.float_root != Some(f) {
            self.float_fns.insert(f);
            let vs: Vec<Val> = args.iter().map(|a| a.0.cells.first().map(|c| c.val.clone()).unwrap_or(Val::Opaque)).collect();
            let known = ["core", "std", "num_traits"].contains(&fi.krate.as_str());
            let v = if known { self.float_fn(fi.path.rsplit("::").next().unwrap_or(""), fi.ret, &vs) } else { Val::Opaque };
            return Some(vec![(st.clone(), Blob::one(self.sz(fi.ret), v))]);
        }
        if fi.path.starts_with("core::num::<impl ") && fi.params.len() == 2 {
            let op = match fi.path.rsplit("::").next().unwrap_or("") {
                "saturating_add" => 0,
                "saturating_sub" => 1,
                "saturating_mul" => 2,
                _ => return None,
            };
            let (s, n) = self.ty_int(fi.ret);
            let mut v: Vec<Poly> = vec![];
            for i in 0..2 {
                let x = args[i].0.cells.first().map(|c| c.val.clone()).unwrap_or(Val::Opaque);
                let x = self.as_int(st, &x, s, n);
                v.push(self.resolve(st, &x, s, n));
            }
            let e = match op {
                0 => v[0].add(&v[1]),
                1 => v[0].sub(&v[1]),
                _ => v[0].mul(&v[1])?,
            };
            let (lo, hi) = lin_hi(n, s);
            let e = self.min_max(st, &e, &Poly::c(hi), false);
            let e = self.min_max(st, &e, &Poly::c(lo), true);
            return Some(vec![(st.clone(), Blob::one(self.sz(fi.ret), Val::Int(e)))]);
        }
        None
    }

    // ---------- destination bookkeeping ----------
    /// quotient and remainder of an offset by the row stride
    pub fn split_row(off: &Poly, stride: &Poly) -> Option<(Poly, Poly)> {
        if stride.0.len() != 1 {
            return None;
        }
        let (sm, sk) = stride.0[0];
        let mut y = vec![];
        let mut c = vec![];
        for (m, k) in off.0.iter() {
            match mono_div(*m, sm) {
                Some(q) if k % sk == 0 => y.push((q, k / sk)),
                _ => c.push((*m, *k)),
            }
        }
        Some((Poly::from_vec(y), Poly::from_vec(c)))
    }
    pub fn ghost_get(&self, st: &State, g: u64, off: u64) -> Poly {
        match st.region(g).and_then(|r| r.cells.iter().find(|c| c.off == off)).map(|c| &c.val) {
            Some(Val::Int(p)) => p.clone(),
            _ => Poly::c(0),
        }
    }
    fn ghost_set(&self, st: &mut State, g: u64, off: u64, p: Poly) {
        if let Some(r) = st.region_mut(g) {
            if let Some(c) = r.cells.iter_mut().find(|c| c.off == off) {
                c.val = Val::Int(p);
            }
        }
    }
    pub fn new_ghost(&mut self, st: &mut State) -> u64 {
        let id = self.new_region(st, Poly::c(80), 0, Fill::Unknown, None, "ghost coverage");
        if let Some(r) = st.region_mut(id) {
            r.cells = (0..10).map(|k| Cell { off: k * 8, sz: 8, val: Val::Int(Poly::c(0)) }).collect();
        }
        id
    }
    pub fn covered_rows(&self, st: &State, i: usize) -> Poly {
        self.ghost_get(st, self.images[i].ghost, 0)
    }
    pub fn touched(&self, st: &State, i: usize) -> Poly {
        self.ghost_get(st, self.images[i].ghost, 72)
    }
    /// complete rows move from the slots to the row counter
    pub fn ghost_norm(&self, st: &mut State) {
        for i in 0..self.images.len() {
            let im = &self.images[i];
            if !im.is_dst || !im.track {
                continue;
            }
            if self.kern {
                // one name for equal values
                let defs = st.cons.defs();
                for k in 0..9u64 {
                    let p = self.ghost_get(st, im.ghost, 8 * k);
                    if p.is_const().is_none() {
                        if let Some(q) = super::num::apply_defs(&p, &defs) {
                            if q != p {
                                self.ghost_set(st, im.ghost, 8 * k, q);
                            }
                        }
                    }
                }
            }
            for _ in 0..8 {
                let c0 = self.ghost_get(st, im.ghost, 8);
                if c0.is_zero() || !st.cons.entails(&c0.sub(&im.width)) {
                    break;
                }
                let r = self.ghost_get(st, im.ghost, 0);
                self.ghost_set(st, im.ghost, 0, r.addc(1));
                for k in 0..8u64 {
                    let nx = if k == 7 { Poly::c(0) } else { self.ghost_get(st, im.ghost, 8 * (k + 2)) };
                    self.ghost_set(st, im.ghost, 8 * (k + 1), nx);
                }
            }
            let r = self.ghost_get(st, im.ghost, 0);
            if r != im.height && !r.is_zero() && st.cons.entails(&r.sub(&im.height)) && st.cons.entails(&im.height.sub(&r)) {
                self.ghost_set(st, im.ghost, 0, im.height.clone());
            }
        }
    }
    pub fn image_of(&self, st: &State, r: Reg) -> Option<usize> {
        match r {
            Reg::Heap(h) => st.region(h).and_then(|r| r.img).map(|x| x as usize),
            _ => None,
        }
    }
    pub fn write_event(&mut self, st: &mut State, loc: &Loc, size: &Poly) {
        let Some(i) = self.image_of(st, loc.reg) else { return };
        let im = self.images[i].clone();
        if !im.is_dst {
            self.ob(st, ObK::SrcWrite, "source image", false, || "the source image is written".into());
            return;
        }
        self.ghost_set(st, im.ghost, 72, Poly::c(1));
        if !im.track {
            return;
        }
        let Some((y, c)) = Self::split_row(&loc.off, &im.stride) else {
            self.ob(st, ObK::Padding, "destination row", false, || "position of the written bytes within the row is unknown".into());
            return;
        };
        let end = c.add(size);
        let ok = st.cons.entails(&c) && st.cons.entails(&im.width.sub(&end));
        let dbg = if !ok && self.quiet == 0 { self.explain(st, &c, &im.width.sub(&end)) } else { String::new() };
        self.ob(st, ObK::Padding, "destination row", ok, || format!("bytes [{}, {}) of row {} are written, a row has {} bytes{dbg}", c.show(), end.show(), y.show(), im.width.show()));
        self.cover(st, i, &y, &c, &end);
    }
    /// bytes [c, end) of row y of the destination are done
    fn cover(&mut self, st: &mut State, i: usize, y: &Poly, c: &Poly, end: &Poly) {
        let im = self.images[i].clone();
        let (mut c, mut end) = (c.clone(), end.clone());
        if im.alpha > 0 {
            // whole pixels
            let px = 4 * im.alpha;
            if c.terms().iter().chain(end.terms()).all(|t| t.1 % px == 0) {
                c = c.addc(-c.konst().rem_euclid(px));
                end = end.addc((-end.konst()).rem_euclid(px));
            }
        }
        // which open row
        let r = self.ghost_get(st, im.ghost, 0);
        let d = y.sub(&r);
        let k = match d.is_const() {
            Some(k) => Some(k),
            None => {
                let (lo, hi) = st.cons.range(&d);
                (lo.max(0)..=hi.min(7)).find(|k| st.cons.entails_eq(&d.addc(-k)))
            }
        };
        let Some(k) = k else { return };
        if !(0..8).contains(&k) {
            return;
        }
        let slot = 8 * (k as u64 + 1);
        let have = self.ghost_get(st, im.ghost, slot);
        if c == have || st.cons.entails(&have.sub(&c)) {
            if st.cons.entails(&end.sub(&have)) {
                self.ghost_set(st, im.ghost, slot, end);
            }
        }
    }
    /// a pixel that is changed in place is dealt with when it is looked at
    pub fn look_event(&mut self, st: &mut State, loc: &Loc, size: &Poly) {
        if self.images.iter().all(|i| i.alpha == 0) {
            return;
        }
        let Some(i) = self.image_of(st, loc.reg) else { return };
        let im = &self.images[i];
        if im.alpha == 0 || !im.track || !im.is_dst {
            return;
        }
        if let Some((y, c)) = Self::split_row(&loc.off, &im.stride) {
            let end = c.add(size);
            self.cover(st, i, &y, &c, &end);
        }
    }
    /// rows [0, h) at `stride`, `row` bytes each, are written completely
    pub fn rows_event(&mut self, st: &mut State, p: &PtrV, stride: &Poly, row: &Poly, h: &Poly) {
        let Some(i) = self.image_of(st, p.reg) else { return };
        let im = self.images[i].clone();
        if !im.is_dst {
            self.ob(st, ObK::SrcWrite, "source image", false, || "the source image is written".into());
            return;
        }
        self.ghost_set(st, im.ghost, 72, Poly::c(1));
        if !im.track {
            return;
        }
        let same = p.off.is_zero() && st.cons.entails_eq(&stride.sub(&im.stride)) && st.cons.entails(&im.width.sub(row));
        self.ob(st, ObK::Padding, "destination row", same, || format!("rows of {} bytes at stride {} are written, the image has rows of {} bytes at stride {}", row.show(), stride.show(), im.width.show(), im.stride.show()));
        if same && st.cons.entails(&row.sub(&im.width)) {
            let r = self.ghost_get(st, im.ghost, 0);
            if st.cons.entails(&h.sub(&r)) {
                self.ghost_set(st, im.ghost, 0, h.clone());
            }
        }
    }
}
