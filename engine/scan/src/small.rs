//! Small public functions, interpreted whole: settings, codes, conversions.
use crate::ai::interp::*;
use crate::ai::mem::*;
use crate::ai::poly::*;
use crate::ai::roots::*;
use crate::prog::*;
use crate::report::Report;
use ps_ir::*;
use std::collections::BTreeMap;

const SETTINGS: &[&str] = &["::ThreadingPolicy", "::WorkloadStrategy", "::ResamplingFunction", "::TransferFunction"];

pub fn last(p: &Prog, r: FnId) -> &str {
    p.f(r).path.rsplit("::").next().unwrap_or("")
}
pub fn roots(p: &Prog, f: &dyn Fn(&str) -> bool) -> Vec<FnId> {
    p.p.roots.iter().copied().filter(|r| f(last(p, *r))).collect()
}
fn pointee(p: &Prog, t: TyId) -> TyId {
    match p.t(t).kind {
        TyKind::Ptr { to, .. } => to,
        _ => t,
    }
}
pub fn plain(root: FnId) -> Job {
    Job { root, layout: Layout::Strided, policy: Policy::Any, owned: false, driver: false, scen: Scen::Any, kern: None }
}
pub fn adt_name(p: &Prog, t: TyId) -> String {
    match &p.t(t).kind {
        TyKind::Adt { path, .. } => format!("::{}", path.rsplit("::").next().unwrap_or("")),
        _ => String::new(),
    }
}
/// failed panic and decision obligations of an interpretation
pub fn troubles(p: &Prog, me: &Interp, root: FnId, rep: &mut Report) {
    for o in &me.obs {
        let bad = matches!(o.kind, ObK::Panic | ObK::Unmodelled);
        if bad {
            rep.ob(o.ok);
        }
        if bad && !o.ok {
            let what = if o.kind == ObK::Panic { "may panic" } else { "not decided" };
            rep.violate(format!("{what}:{}:{}:{}", p.f(root).path, p.f(o.f).path, o.what), format!("{}: {what}: {} (entry {}): {}", p.loc(o.f, o.line), o.what, p.f(root).path, o.text));
        }
    }
}
fn same_cells(st: &State, a: &[Cell], b: &[Cell]) -> bool {
    a.len() == b.len()
        && !a.is_empty()
        && a.iter().zip(b).all(|(x, y)| {
            x.off == y.off
                && x.sz == y.sz
                && match (&x.val, &y.val) {
                    (Val::Int(p), Val::Int(q)) => p == q || st.cons.entails_eq(&p.sub(q)),
                    (Val::Int(p), Val::Tag(k)) | (Val::Tag(k), Val::Int(p)) => st.cons.entails_eq(&p.addc(-*k)),
                    (Val::Opaque, _) | (_, Val::Opaque) => false,
                    (u, v) => u == v,
                }
        })
}
/// cells of an enum that matter: the payload only of variants that have one
fn tag_cells(p: &Prog, t: TyId, c: &[Cell]) -> Vec<Cell> {
    let mut v: Vec<Cell> = c.to_vec();
    v.sort_by_key(|c| c.off);
    if let (Some(tag), TyKind::Adt { variants, .. }) = (&p.t(t).tag, &p.t(t).kind) {
        if variants.iter().all(|v| v.fields.is_empty()) {
            v.retain(|c| c.off == tag.offset);
        }
    }
    v
}

/// setters and constructors keep the settings they are given
pub fn settings(p: &Prog, rep: &mut Report) {
    let cfg = p.p.config.clone();
    rep.rule("a setter stores its argument and leaves the other settings alone; a constructor stores the settings it is given, and a new scaler uses one thread");
    let is_setter = |l: &str| l == "ep_policy" || l.starts_with("ep_set_");
    let is_new = |l: &str| l == "ep_new_scaler" || l.starts_with("ep_cnew_");
    for r in roots(p, &|l| is_setter(l) || is_new(l)) {
        let path = p.f(r).path.clone();
        let set = is_setter(last(p, r));
        rep.count(&format!("{cfg}: setters and constructors"), 1);
        let s = setup(p, &plain(r), 30, false);
        let (mut me, mut st, mut args) = (s.me, s.st, s.args);
        let params = p.f(r).params.clone();
        for i in 0..params.len() {
            if me.is_float(params[i]) {
                args[i] = Blob::one(me.sz(params[i]), Val::Tok(fresh("number", 0, 0)));
            }
        }
        let mut fail = |rep: &mut Report, ok: bool, what: &str| {
            rep.ob(ok);
            if !ok {
                rep.violate(format!("setting:{path}:{what}"), format!("{}: {path}: {what}", p.loc(r, p.f(r).line)));
            }
        };
        let object = if set { me.pointee(params[0]) } else { None };
        let optr = if set { Some(me.as_ptr(&args[0].cells[0].val, false)) } else { None };
        let mut before = BTreeMap::new();
        if let (Some(t), Some(q)) = (object, &optr) {
            for k in SETTINGS {
                if let Some((b, et)) = me.enum_at(&mut st, q, t, k) {
                    before.insert(*k, tag_cells(p, et, &b.cells));
                }
            }
        }
        let outs = me.call_flat(st, r, args.clone());
        troubles(p, &me, r, rep);
        let mut returned = 0;
        for (mut s, b) in outs {
            if s.cons.is_bottom() {
                continue;
            }
            returned += 1;
            let from = if set { 1 } else { 0 };
            let mut given = vec![];
            for i in from..params.len() {
                let n = adt_name(p, params[i]);
                if let Some(k) = SETTINGS.iter().find(|k| **k == n) {
                    given.push((*k, tag_cells(p, params[i], &args[i].cells)));
                } else if me.is_float(params[i]) {
                    let ok = b.cells.iter().any(|c| c.val == args[i].cells[0].val && c.val != Val::Opaque);
                    fail(rep, ok, "a number given to the constructor is not kept");
                } else {
                    fail(rep, false, "a parameter of unknown kind");
                }
            }
            for k in SETTINGS {
                let now = match (object, &optr) {
                    (Some(t), Some(q)) => me.enum_at(&mut s, q, t, k).map(|(b, et)| (tag_cells(p, et, &b.cells), et)),
                    _ => find_type(p, p.f(r).ret, k, 4).map(|(o, et)| (tag_cells(p, et, &get(&b.cells, o, me.sz(et))), et)),
                };
                let g = given.iter().find(|x| x.0 == *k);
                match (&now, g) {
                    (Some((n, _)), Some((_, v))) => {
                        // the tag decides, the payload follows where both have one
                        let ok = same_cells(&s, &[n[0].clone()], &[v[0].clone()]) && n.iter().all(|c| v.iter().find(|d| d.off == c.off).map(|d| same_cells(&s, &[c.clone()], &[d.clone()])).unwrap_or(true));
                        fail(rep, ok, &format!("the {} given is not the one kept", &k[2..]));
                    }
                    (None, Some(_)) => fail(rep, false, &format!("the {} given is dropped", &k[2..])),
                    (Some((n, et)), None) if set => {
                        let _ = et;
                        let ok = before.get(k).map(|b| same_cells(&s, b, n)).unwrap_or(false);
                        fail(rep, ok, &format!("the {} is changed by setting something else", &k[2..]));
                    }
                    (Some((n, et)), None) if *k == "::ThreadingPolicy" => {
                        let v = me.variant_of(&s, &Blob { cells: n.clone() }, *et);
                        let TyKind::Adt { variants, .. } = &p.t(*et).kind else { continue };
                        fail(rep, v.map(|v| variants[v as usize].name == "Single").unwrap_or(false), "a new scaler does not use a single thread");
                    }
                    _ => {}
                }
            }
        }
        fail(rep, returned > 0, "no return could be followed");
    }
}

/// the value of a field-less enum or integer result, when there is exactly one
fn single_value(p: &Prog, me: &Interp, outs: &[(State, Blob)], t: TyId) -> Option<i128> {
    let mut v = None;
    for (s, b) in outs {
        if s.cons.is_bottom() {
            continue;
        }
        let x = match &p.t(t).kind {
            TyKind::Int { .. } => match &b.cells.first()?.val {
                Val::Int(q) => q.is_const().or_else(|| {
                    let (l, h) = s.cons.range(q);
                    (l == h).then_some(l)
                })?,
                Val::Tag(k) => *k,
                _ => return None,
            },
            _ => me.variant_of(s, b, t)? as i128,
        };
        if v.map(|y| y != x).unwrap_or(false) {
            return None;
        }
        v = Some(x);
    }
    v
}

pub fn codes(p: &Prog, rep: &mut Report) {
    let cfg = p.p.config.clone();
    rep.rule("PicScaleError::code is total, non-zero and injective over the error kinds");
    rep.rule("ResamplingFunction::from maps every filter from at least one number, no two small numbers to the same filter, and every other number to one fixed filter");
    rep.rule("get_resampling_filter returns for every filter a kernel function and a positive support, without panicking; different filters differ in it (nearest-neighbour excepted)");
    let viol = |rep: &mut Report, r: FnId, ok: bool, what: String| {
        rep.ob(ok);
        if !ok {
            rep.violate(format!("code:{}:{what}", p.f(r).path), format!("{}: {}: {what}", p.loc(r, p.f(r).line), p.f(r).path));
        }
    };
    // --- error codes
    for r in roots(p, &|l| l == "ep_err_code") {
        let t = pointee(p, p.f(r).params[0]);
        let TyKind::Adt { variants, .. } = &p.t(t).kind else { continue };
        let mut seen: BTreeMap<i128, String> = BTreeMap::new();
        for (k, v) in variants.iter().enumerate() {
            let s = setup(p, &plain(r), 30, false);
            let (mut me, mut st, args) = (s.me, s.st, s.args);
            pin(&mut me, &mut st, &args[0], t, k as u32);
            let outs = me.call_flat(st, r, args);
            troubles(p, &me, r, rep);
            rep.count(&format!("{cfg}: error kinds"), 1);
            match single_value(p, &me, &outs, p.f(r).ret) {
                Some(c) => {
                    viol(rep, r, c != 0, format!("{} has the code of success", v.name));
                    let dup = seen.insert(c, v.name.clone());
                    viol(rep, r, dup.is_none(), format!("{} and {} share code {c}", v.name, dup.clone().unwrap_or_default()));
                }
                None => viol(rep, r, false, format!("{} has no single code", v.name)),
            }
        }
    }
    // --- numbers to filters
    for r in roots(p, &|l| l == "ep_resampling_from" || l == "ep_byteorder_from") {
        let ret = p.f(r).ret;
        let TyKind::Adt { variants, .. } = &p.t(ret).kind else { continue };
        let n = variants.len() as i128;
        let eval = |rep: &mut Report, lo: i128, hi: i128| -> Option<i128> {
            let s = setup(p, &plain(r), 30, false);
            let (mut me, st, mut args) = (s.me, s.st, s.args);
            let sz = me.sz(p.f(r).params[0]);
            args[0] = Blob::one(sz, Val::Int(if lo == hi { Poly::c(lo) } else { Poly::sym(fresh("number", lo, hi)) }));
            let outs = me.call_flat(st, r, args);
            troubles(p, &me, r, rep);
            rep.count(&format!("{cfg}: numbers evaluated"), 1);
            single_value(p, &me, &outs, ret)
        };
        // byte orders: numbers without a meaning are refused by a panic, known ones are distinct
        if last(p, r) == "ep_byteorder_from" {
            let vals: Vec<Option<i128>> = (0..n).map(|k| eval(rep, k, k)).collect();
            for k in 0..n as usize {
                viol(rep, r, vals[k].is_some() && !vals[..k].contains(&vals[k]), format!("number {k} does not give a byte order of its own"));
            }
            continue;
        }
        let max = u32::MAX as i128;
        let rest = eval(rep, 256, max);
        viol(rep, r, rest.is_some(), "large numbers do not map to one fixed value".into());
        let mut by: BTreeMap<i128, Vec<i128>> = BTreeMap::new();
        for k in 0..256 {
            match eval(rep, k, k) {
                Some(v) => by.entry(v).or_default().push(k),
                None => viol(rep, r, false, format!("number {k} has no single value")),
            }
        }
        for v in 0..n {
            let name = &variants[v as usize].name;
            let nums = by.get(&v).cloned().unwrap_or_default();
            viol(rep, r, !nums.is_empty(), format!("no number gives {name}"));
            if Some(v) != rest {
                viol(rep, r, nums.len() <= 1, format!("several numbers give {name}: {:?}", &nums[..nums.len().min(4)]));
            }
        }
        // the known numbers are the first ones, without a gap
        let first_rest = (0..256).find(|k| *k >= n).unwrap_or(0);
        viol(rep, r, (first_rest..256).all(|k| rest.map(|v| by.get(&v).map(|x| x.contains(&k)).unwrap_or(false)).unwrap_or(false)), "numbers beyond the known ones do not all give the fallback".into());
    }
    // --- filters to kernels
    for r in roots(p, &|l| l.starts_with("ep_resampling_filter")) {
        let t = pointee(p, p.f(r).params[0]);
        let ret = p.f(r).ret;
        let TyKind::Adt { variants, .. } = &p.t(t).kind else { continue };
        let mut seen: Vec<(String, Vec<Cell>)> = vec![];
        for (k, v) in variants.iter().enumerate() {
            let s = setup(p, &plain(r), 30, false);
            let (mut me, mut st, args) = (s.me, s.st, s.args);
            pin(&mut me, &mut st, &args[0], t, k as u32);
            let outs: Vec<(State, Blob)> = me.call_flat(st, r, args).into_iter().filter(|x| !x.0.cons.is_bottom()).collect();
            troubles(p, &me, r, rep);
            rep.count(&format!("{cfg}: filters evaluated"), 1);
            let [(_, b)] = &outs[..] else {
                viol(rep, r, false, format!("{} has no single description", v.name));
                continue;
            };
            let field = |n: &str| me.named(ret, &[n]).map(|(o, ft)| (get(&b.cells, o, me.sz(ft)), ft));
            let kernel = field("kernel").map(|x| x.0).unwrap_or_default();
            let ok = matches!(kernel.first().map(|c| &c.val), Some(Val::Fns(f)) if f.len() == 1);
            viol(rep, r, ok, format!("{} has no kernel function", v.name));
            let size = field("min_kernel_size").and_then(|x| x.0.first().cloned());
            let ok = matches!(size.map(|c| c.val), Some(Val::F(a, _)) if f64::from_bits(a) > 0.);
            viol(rep, r, ok, format!("{} has no positive support", v.name));
            let mut cells = b.cells.clone();
            cells.sort_by_key(|c| c.off);
            if v.name != "Nearest" {
                let dup = seen.iter().find(|x| x.1 == cells).map(|x| x.0.clone());
                viol(rep, r, dup.is_none(), format!("{} and {} have the same description", v.name, dup.unwrap_or_default()));
                seen.push((v.name.clone(), cells));
            }
        }
    }
}
/// fixes the variant of the enum a reference argument points to
fn pin(me: &mut Interp, st: &mut State, arg: &Blob, t: TyId, k: u32) {
    let q = me.as_ptr(&arg.cells[0].val, false);
    let mut cells = vec![];
    me.set_tag(t, k, &mut cells);
    let Reg::Heap(h) = q.reg else { panic!("argument region") };
    if let Some(r) = st.region_mut(h) {
        for c in cells {
            put(&mut r.cells, c.off, c.sz, &[Cell { off: 0, sz: c.sz, val: c.val }]);
        }
    }
}

/// a vector of unknown content by value; its region and length
fn vec_arg(me: &mut Interp, st: &mut State, t: TyId, esz: u64) -> (Blob, u64, Poly) {
    let n = Poly::sym(fresh("len", 0, i64::MAX as i128 / esz as i128));
    let cap = Poly::sym(fresh("cap", 0, i64::MAX as i128));
    st.cons.add_ge(&cap.sub(&n));
    let id = me.new_region(st, n.scale(esz as i128), esz, Fill::Unknown, None, "vector");
    let mut cells = vec![];
    for (path, v) in [(vec!["buf", "inner", "ptr"], me.region_ptr(st, id, Meta::Thin)), (vec!["buf", "inner", "cap"], Val::Int(cap)), (vec!["len"], Val::Int(n.clone()))] {
        let (o, _) = me.named(t, &path).expect("vector layout");
        put(&mut cells, o, 8, &[Cell { off: 0, sz: 8, val: v }]);
    }
    (Blob { cells }, id, n)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Case {
    /// the buffer is exactly as long as the image needs
    Fits,
    Shorter,
    Longer,
}

pub fn stores(p: &Prog, rep: &mut Report) {
    let cfg = p.p.config.clone();
    rep.rule("a constructor given a buffer returns success iff its length is width * height * N, and then the container has that buffer, width, height, N channels, bit depth 0 and tight rows");
    rep.rule("an allocating constructor makes a buffer of width * height * N elements with that geometry and the bit depth asked for");
    rep.rule("stride() is the stride field, or width * N when that is zero; get_size and as_bytes return what the container holds");
    rep.rule("copies and views have the size, row stride, length and bit depth of the original; copies hold the same elements, views the same memory");
    for r in p.p.roots.clone() {
        let path = p.f(r).path.clone();
        if !path.contains("::store_") {
            continue;
        }
        let l = last(p, r).to_string();
        let params = p.f(r).params.clone();
        let line = p.f(r).line;
        let mut fail = |rep: &mut Report, ok: bool, what: &str| {
            rep.ob(ok);
            rep.count(&format!("{cfg}: container obligations"), 1);
            if !ok {
                rep.violate(format!("store:{path}:{what}"), format!("{}: {path}: {what}", p.loc(r, line)));
            }
        };
        let job = |layout, owned| Job { root: r, layout, policy: Policy::Any, owned, driver: true, scen: Scen::Any, kern: None };
        let prepare = |layout, owned| {
            let mut s = setup(p, &job(layout, owned), 30, false);
            s.me.stubs = crate::ai::driver::stub_table(p);
            s.me.max_states = 64;
            s
        };
        let ret = p.f(r).ret;
        let base = l.trim_end_matches("_mut");
        rep.count(&format!("{cfg}: container functions"), 1);
        match base {
            "ep_new" | "ep_borrow" | "ep_from_slice" => {
                for case in [Case::Fits, Case::Shorter, Case::Longer] {
                    let s = prepare(Layout::Strided, false);
                    let (mut me, mut st, mut args) = (s.me, s.st, s.args);
                    let TyKind::Adt { variants, .. } = &p.t(ret).kind else { continue };
                    let (oo, store) = (variants[0].offsets[0], variants[0].fields[0].1);
                    let Some((_, e, n)) = store_info(p, store) else { continue };
                    let esz = me.sz(e);
                    let (reg, len) = if base == "ep_new" {
                        let (b, id, len) = vec_arg(&mut me, &mut st, params[0], esz);
                        args[0] = b;
                        (Reg::Heap(id), len)
                    } else {
                        let q = me.as_ptr(&args[0].cells[0].val, true);
                        let Meta::Len(k) = &q.meta else { continue };
                        (q.reg, k.clone())
                    };
                    let w = Poly::sym(fresh("w", 0, u64::MAX as i128));
                    let h = Poly::sym(fresh("h", 0, u64::MAX as i128));
                    args[1] = Blob::one(8, Val::Int(w.clone()));
                    args[2] = Blob::one(8, Val::Int(h.clone()));
                    let full = w.mul(&h).unwrap().scale(n as i128);
                    match case {
                        Case::Fits => {
                            st.cons.add_eq(&len.sub(&full));
                            // rows of an image without rows may have any length
                            st.cons.add_ge(&h.addc(-1));
                            let t = w.mul(&h).unwrap().sub(&w);
                            st.cons.add_ge(&t);
                        }
                        Case::Shorter => st.cons.add_ge(&full.sub(&len).addc(-1)),
                        Case::Longer => st.cons.add_ge(&len.sub(&full).addc(-1)),
                    }
                    let assumed = match case {
                        Case::Fits => None,
                        Case::Shorter => Some(full.sub(&len).addc(-1)),
                        Case::Longer => Some(len.sub(&full).addc(-1)),
                    };
                    let outs = me.call_flat(st, r, args);
                    troubles(p, &me, r, rep);
                    let mut seen = 0;
                    for (mut s, b) in outs {
                        me.settle(&mut s);
                        if s.cons.is_bottom() || assumed.as_ref().map(|q| s.cons.entails(&q.neg().addc(-1))).unwrap_or(false) {
                            continue;
                        }
                        seen += 1;
                        match (case, me.variant_of(&s, &b, ret)) {
                            (Case::Fits, Some(0)) => {
                                let sb = Blob { cells: get(&b.cells, oo, me.sz(store)) };
                                let x = held(&mut me, &mut s, store, &sb);
                                check_geometry(&s, x, &w, &h, n, Some(&w.scale(n as i128)), Some(Poly::c(0)), &len, Some(reg), &mut |ok, what| fail(rep, ok, what));
                                fail(rep, channels(&mut me, &s, store, &sb) == Some(n as i128), "the channel count is not N");
                            }
                            (Case::Fits, Some(1)) => fail(rep, false, "a buffer of the right length is refused"),
                            (_, Some(1)) => fail(rep, true, ""),
                            (_, Some(0)) => fail(rep, false, &format!("a buffer {} than width * height * N is accepted", if case == Case::Shorter { "shorter" } else { "longer" })),
                            _ => fail(rep, false, "the result is not known"),
                        }
                    }
                    fail(rep, seen > 0, "no return could be followed");
                }
            }
            "ep_alloc" | "ep_alloc_with_depth" => {
                let s = prepare(Layout::Strided, false);
                let (mut me, mut st, mut args) = (s.me, s.st, s.args);
                let Some((_, _, n)) = store_info(p, ret) else { continue };
                let w = Poly::sym(fresh("w", 0, 1 << 30));
                let h = Poly::sym(fresh("h", 0, 1 << 30));
                let full = w.mul(&h).unwrap().scale(n as i128);
                st.cons.add_ge(&full.neg().addc(i64::MAX as i128 / 16));
                args[0] = Blob::one(8, Val::Int(w.clone()));
                args[1] = Blob::one(8, Val::Int(h.clone()));
                let depth = if base == "ep_alloc" { Poly::c(0) } else { Poly::sym(fresh("depth", 0, u64::MAX as i128)) };
                if base != "ep_alloc" {
                    args[2] = Blob::one(8, Val::Int(depth.clone()));
                }
                let outs = me.call_flat(st, r, args);
                troubles(p, &me, r, rep);
                let mut seen = 0;
                for (mut s, b) in outs {
                    me.settle(&mut s);
                    if s.cons.is_bottom() {
                        continue;
                    }
                    seen += 1;
                    let x = held(&mut me, &mut s, ret, &b);
                    check_geometry(&s, x, &w, &h, n, Some(&w.scale(n as i128)), Some(depth.clone()), &full, None, &mut |ok, what| fail(rep, ok, what));
                    fail(rep, channels(&mut me, &s, ret, &b) == Some(n as i128), "the channel count is not N");
                }
                fail(rep, seen > 0, "no return could be followed");
            }
            "ep_stride" | "ep_get_size" | "ep_as_bytes" | "ep_copied" | "ep_to_immutable" => {
                for (layout, owned) in [(Layout::Strided, false), (Layout::Strided, true), (Layout::Tight, false), (Layout::Tight, true)] {
                    let s = prepare(layout, owned);
                    let (mut me, mut st, args) = (s.me, s.st, s.args);
                    let im = me.images[0].clone();
                    let e = im.esz as i128;
                    if layout == Layout::Tight {
                        // rows that fit into the address space
                        st.cons.add_ge(&im.w.scale(im.cn as i128).neg().addc(u64::MAX as i128));
                    }
                    let (st0, a0) = (args[0].clone(), params[0]);
                    let q = me.as_ptr(&st0.cells[0].val, false);
                    let outs = me.call_flat(st, r, args);
                    troubles(p, &me, r, rep);
                    let mut seen = 0;
                    for (mut s, b) in outs {
                        me.settle(&mut s);
                        if s.cons.is_bottom() {
                            continue;
                        }
                        seen += 1;
                        let orig = me.pointee(a0).and_then(|t| me.read_store(&mut s, &q, t));
                        let Some(orig) = orig else {
                            fail(rep, false, "the container is not known");
                            continue;
                        };
                        let s0 = s.clone();
                        let eq = |x: &Poly, y: &Poly| s0.cons.entails_eq(&x.sub(y));
                        match base {
                            "ep_stride" => {
                                let ok = matches!(b.cells.first().map(|c| &c.val), Some(Val::Int(x)) if eq(x, &im.s));
                                fail(rep, ok, "stride() is not the row stride of the container");
                            }
                            "ep_get_size" => {
                                let f = |n: &str| me.named(ret, &[n]).and_then(|(o, _)| b.cells.iter().find(|c| c.off == o)).and_then(|c| if let Val::Int(x) = &c.val { Some(x.clone()) } else { None });
                                let ok = matches!((f("width"), f("height")), (Some(x), Some(y)) if eq(&x, &im.w) && eq(&y, &im.h));
                                fail(rep, ok, "get_size() is not the size of the container");
                            }
                            "ep_as_bytes" => {
                                let ok = matches!(b.cells.first().map(|c| &c.val), Some(Val::Ptr(x)) if x.reg == orig.reg && x.off == orig.off && matches!(&x.meta, Meta::Len(n) if eq(n, &orig.len)));
                                fail(rep, ok, "as_bytes() is not the whole buffer of the container");
                            }
                            _ => {
                                let x = held(&mut me, &mut s, ret, &b);
                                let dst = x.as_ref().map(|x| x.reg);
                                // the immutable one may be a view of the buffer or a copy of it
                                let view = base == "ep_to_immutable" && dst == Some(orig.reg);
                                let depth = depth_field(&mut me, &mut s, a0, &q);
                                fail(rep, channels(&mut me, &s, ret, &b) == Some(im.cn as i128) || same_channels(&mut me, &mut s, ret, &b, a0, &q), "the channel count changes");
                                check_geometry(&s, x, &im.w, &im.h, im.cn, Some(&im.s), depth, &orig.len, view.then_some(orig.reg), &mut |ok, what| fail(rep, ok, what));
                                if !view {
                                    // the whole buffer in one block copy, and nothing else written to it
                                    let into: Vec<_> = me.block_copies.iter().filter(|c| Some(c.1.reg) == dst).collect();
                                    let ok = into.len() >= 1 && into.iter().all(|c| c.0.reg == orig.reg && c.0.off == orig.off && c.1.off.is_zero() && eq(&c.2, &orig.len.scale(e)));
                                    fail(rep, ok, "the copy does not hold the elements of the original");
                                    fail(rep, dst != Some(orig.reg), "the copy shares the memory of the original");
                                }
                            }
                        }
                    }
                    fail(rep, seen > 0, "no return could be followed");
                }
            }
            _ => {}
        }
    }
}
fn int_field(me: &mut Interp, t: TyId, b: &Blob, n: &str) -> Option<Poly> {
    let (o, _) = me.named(t, &[n])?;
    match &b.cells.iter().find(|c| c.off == o)?.val {
        Val::Int(p) => Some(p.clone()),
        Val::Tag(k) => Some(Poly::c(*k)),
        _ => None,
    }
}
fn channels(me: &mut Interp, _s: &State, t: TyId, b: &Blob) -> Option<i128> {
    int_field(me, t, b, "channels")?.is_const()
}
fn arg_store(me: &mut Interp, s: &mut State, a: TyId, q: &PtrV) -> Option<(TyId, Blob)> {
    let t = me.pointee(a)?;
    let l = me.ptr_loc(q, t);
    Some((t, me.load(s, &l)))
}
fn same_channels(me: &mut Interp, s: &mut State, t: TyId, b: &Blob, a: TyId, q: &PtrV) -> bool {
    let Some((u, c)) = arg_store(me, s, a, q) else { return false };
    matches!((int_field(me, t, b, "channels"), int_field(me, u, &c, "channels")), (Some(x), Some(y)) if s.cons.entails_eq(&x.sub(&y)))
}
fn depth_field(me: &mut Interp, s: &mut State, a: TyId, q: &PtrV) -> Option<Poly> {
    let (u, c) = arg_store(me, s, a, q)?;
    int_field(me, u, &c, "bit_depth")
}
/// what a container returned by value holds
fn held(me: &mut Interp, s: &mut State, t: TyId, b: &Blob) -> Option<crate::ai::driver::Buf> {
    let id = me.new_region(s, Poly::c(me.sz(t) as i128), 0, Fill::Unknown, None, "result");
    if let Some(r) = s.region_mut(id) {
        r.cells = b.cells.clone();
    }
    let v = me.region_ptr(s, id, Meta::Thin);
    let q = me.as_ptr(&v, false);
    me.read_store(s, &q, t)
}
#[allow(clippy::too_many_arguments)]
fn check_geometry(s: &State, x: Option<crate::ai::driver::Buf>, w: &Poly, h: &Poly, n: u64, stride: Option<&Poly>, depth: Option<Poly>, len: &Poly, reg: Option<Reg>, fail: &mut dyn FnMut(bool, &str)) {
    let Some(x) = x else { return fail(false, "the container returned is not known") };
    let eq = |x: &Poly, y: &Poly| s.cons.entails_eq(&x.sub(y));
    fail(eq(&x.w, w), "the width differs");
    fail(x.h.as_ref().map(|y| eq(y, h)).unwrap_or(false), "the height differs");
    fail(x.cn == n, "the channel count differs");
    if let Some(t) = stride {
        fail(eq(&x.stride, t), "the row stride differs");
    }
    fail(matches!((&x.depth, &depth), (Some(a), Some(b)) if eq(a, b)), "the bit depth differs");
    fail(eq(&x.len, len) && x.off.is_zero(), "the buffer has another length");
    if let Some(r) = reg {
        fail(x.reg == r, "the buffer is another one");
    }
}
