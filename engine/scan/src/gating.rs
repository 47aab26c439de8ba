//! Instruction-set gating: every call to (or fn pointer taken of) a function compiled for CPU
//! features is dominated by a successful run-time detection of those features.
use crate::prog::*;
use crate::report::Report;
use ps_ir::*;
use std::collections::{BTreeSet, HashMap, VecDeque};

pub const FEATS: &[&str] = &[
    "sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2", "fma", "f16c", "avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512vbmi", "avx512vnni", "avx512fp16",
    "avxvnni", "popcnt", "lzcnt", "bmi1", "bmi2", "fxsr", "avx512cd", "avx512ifma", "avx512vbmi2", "avx512bitalg", "avx512vpopcntdq", "avx512bf16", "sse4a", "tbm", "aes", "pclmulqdq", "gfni", "vaes",
    "vpclmulqdq", "movbe", "xsave", "adx", "rdrand", "rdseed", "sha", "rtm",
];
pub type FS = u64;
pub const ALL: FS = u64::MAX;
/// pseudo-feature: running inside an explicitly installed thread pool
pub const IN_POOL: FS = 1 << 62;

pub fn feat(n: &str) -> Option<FS> {
    FEATS.iter().position(|f| *f == n).map(|i| 1u64 << i)
}
/// closure under the implications the architecture (and rustc) guarantees
pub fn close(mut s: FS) -> FS {
    let imp: &[(&str, &[&str])] = &[
        ("sse2", &["sse"]),
        ("sse3", &["sse2"]),
        ("ssse3", &["sse3"]),
        ("sse4.1", &["ssse3"]),
        ("sse4.2", &["sse4.1"]),
        ("avx", &["sse4.2"]),
        ("avx2", &["avx"]),
        ("fma", &["avx"]),
        ("f16c", &["avx"]),
        ("avxvnni", &["avx2"]),
        ("avx512f", &["avx2", "fma", "f16c"]),
        ("avx512bw", &["avx512f"]),
        ("avx512dq", &["avx512f"]),
        ("avx512vl", &["avx512f"]),
        ("avx512cd", &["avx512f"]),
        ("avx512vbmi", &["avx512bw"]),
        ("avx512vbmi2", &["avx512bw"]),
        ("avx512vnni", &["avx512f"]),
        ("avx512fp16", &["avx512bw"]),
    ];
    loop {
        let o = s;
        for (a, bs) in imp {
            if s & feat(a).unwrap() != 0 {
                for b in *bs {
                    s |= feat(b).unwrap();
                }
            }
        }
        if o == s {
            return s;
        }
    }
}
pub fn baseline() -> FS {
    close(feat("sse2").unwrap() | feat("fxsr").unwrap())
}
pub fn required(p: &Prog, f: FnId) -> FS {
    let mut s = 0;
    for n in &p.f(f).target_features {
        s |= feat(n).unwrap_or(1 << 63);
    }
    s & !baseline()
}
pub fn names(s: FS) -> String {
    let s = s & !IN_POOL;
    let v: Vec<&str> = (0..FEATS.len()).filter(|i| s >> i & 1 == 1).map(|i| FEATS[i]).collect();
    if s >> 63 & 1 == 1 && v.len() < FEATS.len() {
        return format!("{}+unknown", v.join("+"));
    }
    v.join("+")
}
pub fn detected(path: &str) -> Option<FS> {
    let i = path.find("__is_feature_detected::")?;
    let n = path[i + "__is_feature_detected::".len()..].replace("sse4_1", "sse4.1").replace("sse4_2", "sse4.2");
    Some(close(feat(&n).unwrap_or(0)))
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct St {
    facts: FS,
    /// place key -> (features implied if true, features implied if false)
    bools: HashMap<String, (FS, FS)>,
}

/// Identity of a place for writes: fields of locals only.
fn key(p: &Place) -> Option<String> {
    if p.proj.iter().any(|e| matches!(e, Proj::Deref)) {
        return None;
    }
    rkey(p)
}
/// Identity of a place for reads. Only shared references to tracked booleans are ever given a
/// fact, so looking through a dereference is looking at the value the reference was made from.
fn rkey(p: &Place) -> Option<String> {
    let mut s = format!("{}", p.local);
    for e in &p.proj {
        match e {
            Proj::Deref => {}
            Proj::Field(i, _) => s.push_str(&format!(".{i}")),
            Proj::Downcast(v) => s.push_str(&format!("@{v}")),
            _ => return None,
        }
    }
    Some(s)
}

pub struct Gating<'a> {
    pub p: &'a Prog,
    /// features known on entry
    pub ctx: HashMap<FnId, FS>,
    /// summary of a returned bool
    pub ret: HashMap<FnId, (FS, FS)>,
    /// captured booleans: closure body -> (field -> implication)
    caps: HashMap<FnId, HashMap<u32, (FS, FS)>>,
    /// constant-bool/implied args: callee -> param -> implication
    params: HashMap<FnId, HashMap<u32, (FS, FS)>>,
    /// closures run by `ThreadPool::install`
    installed: BTreeSet<FnId>,
}

/// One place where control may enter a function.
pub struct Use {
    pub from: FnId,
    pub to: FnId,
    pub facts: FS,
    pub line: u32,
    pub how: &'static str,
}

impl<'a> Gating<'a> {
    pub fn new(p: &'a Prog) -> Self {
        Gating { p, ctx: HashMap::new(), ret: HashMap::new(), caps: HashMap::new(), params: HashMap::new(), installed: crate::pool::installed(p) }
    }

    fn val(&self, st: &St, o: &Operand) -> Option<(FS, FS)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => rkey(p).and_then(|k| st.bools.get(&k).copied()),
            Operand::Const(_, Const::Bits(b)) => Some(if *b != 0 { (st.facts, ALL) } else { (ALL, st.facts) }),
            _ => None,
        }
    }
    fn kill(st: &mut St, p: &Place) {
        match key(p) {
            Some(k) => {
                let pre = format!("{k}.");
                let pre2 = format!("{k}@");
                st.bools.retain(|q, _| q != &k && !q.starts_with(&pre) && !q.starts_with(&pre2));
            }
            None => {
                // store through a pointer: locals whose address is taken are not tracked (see transfer)
                if !p.proj.iter().any(|e| matches!(e, Proj::Deref)) {
                    let l = format!("{}", p.local);
                    st.bools.retain(|q, _| q != &l && !q.starts_with(&format!("{l}.")));
                }
            }
        }
    }
    fn copy_sub(st: &mut St, from: &Place, to: &Place) {
        if let (Some(a), Some(b)) = (rkey(from), key(to)) {
            let v: Vec<(String, (FS, FS))> = st
                .bools
                .iter()
                .filter(|(k, _)| **k == a || k.starts_with(&format!("{a}.")) || k.starts_with(&format!("{a}@")))
                .map(|(k, v)| (format!("{b}{}", &k[a.len()..]), *v))
                .collect();
            st.bools.extend(v);
        }
    }

    /// flow analysis of one body; calls `on_use` for every entry into another function
    pub fn flow(&self, f: FnId, on_use: &mut dyn FnMut(Use, &HashMap<u32, (FS, FS)>, bool)) -> Option<(FS, FS)> {
        let p = self.p;
        let fi = p.f(f);
        let body = fi.body.as_ref()?;
        let entry = close(self.ctx.get(&f).copied().unwrap_or(ALL) | required(p, f));
        // locals with an exclusive borrow or raw pointer may change behind our back
        let mut addr: BTreeSet<u32> = BTreeSet::new();
        for b in &body.blocks {
            for s in &b.stmts {
                if let StmtK::Assign(_, Rvalue::Ref(pl, true) | Rvalue::AddrOf(pl, _)) = &s.kind {
                    if !pl.proj.iter().any(|e| matches!(e, Proj::Deref)) {
                        addr.insert(pl.local);
                    }
                }
            }
        }
        let mut ins: Vec<Option<St>> = vec![None; body.blocks.len()];
        let mut b0 = HashMap::new();
        if let Some(m) = self.params.get(&f) {
            for (i, v) in m {
                b0.insert(format!("{}", i + 1), *v);
            }
        }
        if let Some(m) = self.caps.get(&f) {
            for (i, v) in m {
                b0.insert(format!("1.{i}"), *v);
            }
        }
        ins[0] = Some(St { facts: entry, bools: b0 });
        let mut q = VecDeque::from([0u32]);
        let mut ret: Option<(FS, FS)> = None;
        let mut done = false;
        let mut guard = 0;
        let _ = &mut done;
        // two phases: fixpoint, then one reporting pass
        for phase in 0..2 {
            if phase == 1 {
                q = (0..body.blocks.len() as u32).filter(|b| ins[*b as usize].is_some()).collect();
                ret = None;
            }
            while let Some(bi) = q.pop_front() {
                guard += 1;
                if guard > 200_000 {
                    return Some((0, 0));
                }
                let mut st = ins[bi as usize].clone().unwrap();
                let bl = &body.blocks[bi as usize];
                let line = bl.line;
                for s in &bl.stmts {
                    if let StmtK::Assign(pl, rv) = &s.kind {
                        if phase == 1 {
                            // function items turned into pointers, closures created
                            if let Rvalue::Cast(CastK::Reify(g) | CastK::ClosureFnPtr(g), ..) = rv {
                                on_use(Use { from: f, to: *g, facts: st.facts, line: s.line, how: "function pointer" }, &HashMap::new(), true);
                            }
                            if let Rvalue::Agg(AggK::Closure(t), ops) = rv {
                                if let Some(g) = closure_of(p, *t) {
                                    let caps = ops.iter().enumerate().filter_map(|(i, o)| self.val(&st, o).map(|v| (i as u32, v))).collect();
                                    on_use(Use { from: f, to: g, facts: st.facts, line: s.line, how: "closure" }, &caps, true);
                                }
                            }
                            for o in operands_of(rv) {
                                if let Operand::Const(_, Const::Ptr(a, _)) = o {
                                    self.alloc_fns(*a, &mut |g| on_use(Use { from: f, to: g, facts: st.facts, line: s.line, how: "function pointer" }, &HashMap::new(), true), 0);
                                }
                            }
                        }
                        let v = match rv {
                            Rvalue::Use(o) => self.val(&st, o),
                            Rvalue::Un(UnOp::Not, o) => self.val(&st, o).map(|(a, b)| (b, a)),
                            Rvalue::Bin(BinOp::And, a, b) => {
                                let (x, y) = (self.val(&st, a).unwrap_or((0, 0)), self.val(&st, b).unwrap_or((0, 0)));
                                Some((x.0 | y.0, x.1 & y.1))
                            }
                            Rvalue::Bin(BinOp::Or, a, b) => {
                                let (x, y) = (self.val(&st, a).unwrap_or((0, 0)), self.val(&st, b).unwrap_or((0, 0)));
                                Some((x.0 & y.0, x.1 | y.1))
                            }
                            Rvalue::Bin(BinOp::Eq, a, Operand::Const(_, Const::Bits(b))) => self.val(&st, a).map(|v| if *b != 0 { v } else { (v.1, v.0) }),
                            Rvalue::Bin(BinOp::Ne, a, Operand::Const(_, Const::Bits(b))) => self.val(&st, a).map(|v| if *b == 0 { v } else { (v.1, v.0) }),
                            Rvalue::Ref(src, false) => rkey(src).and_then(|k| st.bools.get(&k).copied()),
                            _ => None,
                        };
                        let isb = |t: TyId| matches!(p.t(t).kind, TyKind::Bool);
                        Self::kill(&mut st, pl);
                        match rv {
                            Rvalue::Use(Operand::Copy(src) | Operand::Move(src)) => Self::copy_sub(&mut st, src, pl),
                            Rvalue::Agg(_, ops) => {
                                if let Some(k) = key(pl) {
                                    for (i, o) in ops.iter().enumerate() {
                                        let is_bool_const = matches!(o, Operand::Const(t, _) if isb(*t));
                                        let is_place = matches!(o, Operand::Copy(_) | Operand::Move(_));
                                        if is_bool_const || is_place {
                                            if let Some(v) = self.val(&st, o) {
                                                st.bools.insert(format!("{k}.{i}"), v);
                                            }
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                        if let (Some(v), Some(k)) = (v, key(pl)) {
                            let is_bool = match rv {
                                Rvalue::Use(Operand::Const(t, _)) => isb(*t),
                                _ => true,
                            };
                            if is_bool && !addr.contains(&pl.local) {
                                st.bools.insert(k, v);
                            }
                        }
                    }
                }
                let mut outs: Vec<(u32, St)> = vec![];
                match &bl.term {
                    Term::Switch(o, vals, other) => {
                        let v = self.val(&st, o);
                        let zero = vals.iter().find(|x| x.0 == 0);
                        for (k, b) in vals {
                            let mut s2 = st.clone();
                            if let Some((t, fl)) = v {
                                s2.facts = close(s2.facts | if *k == 0 { fl } else { t });
                            }
                            outs.push((*b, s2));
                        }
                        let mut s2 = st.clone();
                        if let (Some((t, _)), Some(_)) = (v, zero) {
                            s2.facts = close(s2.facts | t);
                        }
                        outs.push((*other, s2));
                    }
                    Term::Call { f: cal, args, dest, target, line: cl } => {
                        let mut rv = None;
                        if let Callee::Fn(g) = cal {
                            if phase == 1 {
                                let prm = args.iter().enumerate().filter_map(|(i, o)| self.arg_val(&st, p, body, o).map(|v| (i as u32, v))).collect();
                                on_use(Use { from: f, to: *g, facts: st.facts, line: *cl, how: "call" }, &prm, false);
                            }
                            rv = detected(&p.f(*g).path).map(|d| (d | st.facts, st.facts)).or_else(|| self.ret.get(g).copied().filter(|_| matches!(p.t(p.f(*g).ret).kind, TyKind::Bool)).map(|(a, b)| (a | st.facts, b | st.facts)));
                        }
                        if phase == 1 {
                            for o in args {
                                if let Operand::Const(_, Const::Ptr(a, _)) = o {
                                    self.alloc_fns(*a, &mut |g| on_use(Use { from: f, to: g, facts: st.facts, line: *cl, how: "function pointer" }, &HashMap::new(), true), 0);
                                }
                            }
                        }
                        Self::kill(&mut st, dest);
                        if let (Some(v), Some(k)) = (rv, key(dest)) {
                            if !addr.contains(&dest.local) {
                                st.bools.insert(k, v);
                            }
                        }
                        if let Some(t) = target {
                            outs.push((*t, st.clone()));
                        }
                    }
                    Term::Return => {
                        let v = st.bools.get("0").map(|v| (v.0 | st.facts, v.1 | st.facts)).unwrap_or((st.facts, st.facts));
                        ret = Some(match ret {
                            None => v,
                            Some(r) => (r.0 & v.0, r.1 & v.1),
                        });
                    }
                    t => {
                        for b in succs(t) {
                            outs.push((b, st.clone()));
                        }
                    }
                }
                let _ = line;
                if phase == 1 {
                    continue;
                }
                for (b, s2) in outs {
                    let n = match &ins[b as usize] {
                        None => s2,
                        Some(o) => {
                            let mut m = HashMap::new();
                            for (k, v) in &s2.bools {
                                if let Some(w) = o.bools.get(k) {
                                    let j = ((v.0 | s2.facts) & (w.0 | o.facts), (v.1 | s2.facts) & (w.1 | o.facts));
                                    m.insert(k.clone(), j);
                                }
                            }
                            St { facts: s2.facts & o.facts, bools: m }
                        }
                    };
                    if ins[b as usize].as_ref() != Some(&n) {
                        ins[b as usize] = Some(n);
                        if !q.contains(&b) {
                            q.push_back(b);
                        }
                    }
                }
            }
        }
        ret
    }

    fn arg_val(&self, st: &St, p: &Prog, body: &Body, o: &Operand) -> Option<(FS, FS)> {
        let is_bool = match o {
            Operand::Const(t, _) => matches!(p.t(*t).kind, TyKind::Bool),
            Operand::Copy(pl) | Operand::Move(pl) => pl.proj.is_empty() && matches!(p.t(body.locals[pl.local as usize]).kind, TyKind::Bool),
            _ => false,
        };
        if is_bool {
            self.val(st, o).map(|v| (v.0 | st.facts, v.1 | st.facts))
        } else {
            None
        }
    }
    fn alloc_fns(&self, a: AllocId, cb: &mut dyn FnMut(FnId), depth: u32) {
        if depth > 4 {
            return;
        }
        match &self.p.p.allocs[a as usize] {
            AllocInfo::Fn(g) => cb(*g),
            AllocInfo::Mem { relocs, .. } => {
                for (_, r) in relocs {
                    self.alloc_fns(*r, cb, depth + 1)
                }
            }
            AllocInfo::Static { init: Some(i), .. } => {
                if let AllocInfo::Mem { relocs, .. } = &**i {
                    for (_, r) in relocs {
                        self.alloc_fns(*r, cb, depth + 1)
                    }
                }
            }
            _ => {}
        }
    }

    /// greatest fixpoint over the call graph
    pub fn solve(&mut self) {
        let p = self.p;
        let closures: BTreeSet<FnId> = p.p.types.iter().filter_map(|t| if let TyKind::Closure { body, .. } = t.kind { Some(body) } else { None }).collect();
        let callees: HashMap<FnId, BTreeSet<FnId>> = (0..p.p.fns.len() as u32)
            .filter_map(|f| p.f(f).body.as_ref().map(|b| (f, b.blocks.iter().filter_map(|x| if let Term::Call { f: Callee::Fn(g), .. } = &x.term { Some(*g) } else { None }).collect())))
            .collect();
        type Uses = Vec<(Use, HashMap<u32, (FS, FS)>, bool)>;
        let mut cache: HashMap<FnId, Uses> = HashMap::new();
        let mut dirty: BTreeSet<FnId> = p.p.roots.iter().copied().collect();
        for r in &p.p.roots {
            self.ctx.insert(*r, baseline());
        }
        for _ in 0..400 {
            let mut changed_ret = BTreeSet::new();
            for f in std::mem::take(&mut dirty) {
                if p.f(f).body.is_none() {
                    continue;
                }
                let mut uses: Uses = vec![];
                if let Some(r) = self.flow(f, &mut |u, prm, bv| uses.push((u, prm.clone(), bv))) {
                    if self.ret.get(&f) != Some(&r) {
                        self.ret.insert(f, r);
                        if matches!(p.t(p.f(f).ret).kind, TyKind::Bool) {
                            changed_ret.insert(f);
                        }
                    }
                }
                cache.insert(f, uses);
            }
            let mut nctx: HashMap<FnId, FS> = HashMap::new();
            let mut nparams: HashMap<FnId, HashMap<u32, Option<(FS, FS)>>> = HashMap::new();
            let mut ncaps: HashMap<FnId, HashMap<u32, (FS, FS)>> = HashMap::new();
            for r in &p.p.roots {
                nctx.insert(*r, baseline());
            }
            for uses in cache.values() {
                for (u, prm, by_value) in uses {
                    let by_value = *by_value;
                    if !by_value && closures.contains(&u.to) {
                        continue; // the body's context is where the closure was created
                    }
                    let add = if u.how == "closure" && self.installed.contains(&u.to) { IN_POOL } else { 0 };
                    *nctx.entry(u.to).or_insert(ALL) &= u.facts | add;
                    let nargs = p.f(u.to).body.as_ref().map(|b| b.nargs).unwrap_or(0);
                    if u.how == "closure" {
                        // created at one expression; several visits can only agree on it
                        let m = ncaps.entry(u.to).or_insert_with(|| prm.clone());
                        m.retain(|k, _| prm.contains_key(k));
                        for (k, v) in m.iter_mut() {
                            let w = prm[k];
                            *v = (v.0 & w.0, v.1 & w.1);
                        }
                    } else if !by_value {
                        let m = nparams.entry(u.to).or_default();
                        for i in 0..nargs {
                            let v = prm.get(&i).copied();
                            let e = m.entry(i).or_insert(Some((ALL, ALL)));
                            *e = match (*e, v) {
                                (Some(a), Some(b)) => Some((a.0 & b.0, a.1 & b.1)),
                                _ => None,
                            };
                        }
                    } else {
                        let m = nparams.entry(u.to).or_default();
                        for i in 0..nargs {
                            m.insert(i, None);
                        }
                    }
                }
            }
            let np: HashMap<FnId, HashMap<u32, (FS, FS)>> =
                nparams.into_iter().map(|(k, m)| (k, m.into_iter().filter_map(|(i, v)| v.map(|v| (i, v))).collect())).collect();
            for f in nctx.keys() {
                if self.ctx.get(f) != nctx.get(f) || self.params.get(f) != np.get(f) || self.caps.get(f) != ncaps.get(f) || !cache.contains_key(f) {
                    dirty.insert(*f);
                }
            }
            for (f, cs) in &callees {
                if cs.iter().any(|c| changed_ret.contains(c)) && nctx.contains_key(f) {
                    dirty.insert(*f);
                }
            }
            dirty.retain(|f| p.f(*f).body.is_some());
            self.ctx = nctx;
            self.params = np;
            self.caps = ncaps;
            if dirty.is_empty() {
                return;
            }
        }
        // no fixpoint: forget everything (sound)
        for (_, v) in self.ctx.iter_mut() {
            *v = baseline();
        }
    }
}

pub fn run(p: &Prog, rep: &mut Report) {
    let cfg = &p.p.config;
    rep.rule("call site of a function compiled with #[target_feature(F)]: F is contained in the features implied by successful runtime detection on every path from a public entry point");
    let mut g = Gating::new(p);
    g.solve();
    let mut det = BTreeSet::new();
    for f in 0..p.p.fns.len() as u32 {
        if p.f(f).body.is_none() || !g.ctx.contains_key(&f) {
            continue;
        }
        let mut uses = vec![];
        g.flow(f, &mut |u, _, _| uses.push(u));
        for u in uses {
            if let Some(n) = p.f(u.to).path.split("__is_feature_detected::").nth(1) {
                det.insert(n.to_string());
                rep.count(&format!("{cfg}: feature detection sites"), 1);
            }
            let req = required(p, u.to);
            if req == 0 {
                continue;
            }
            if p.f(u.to).krate == "core" {
                rep.count(&format!("{cfg}: vector intrinsic calls"), 1);
            } else {
                rep.count(&format!("{cfg}: calls into feature-gated kernels"), 1);
                rep.sample("gated calls", format!("{} -> {} needs {} at {}", p.f(u.from).path, p.f(u.to).path, names(req), p.loc(u.from, u.line)));
            }
            let have = close(u.facts) | baseline();
            let ok = req & !have == 0;
            rep.ob(ok);
            if !ok {
                rep.violate(
                    format!("gate:{}->{}:{}", p.f(u.from).path, p.f(u.to).path, names(req & !have)),
                    format!("{}: {} of {} (compiled for {}) is reachable without detecting {}", p.loc(u.from, u.line), u.how, p.f(u.to).path, names(req), names(req & !have)),
                );
            }
        }
    }
    rep.sample("detected features", format!("{cfg}: {det:?}"));
}
