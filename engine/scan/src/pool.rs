//! Parallel work happens only inside an explicitly installed pool, using order-independent
//! operations over disjoint exclusive chunks.
use crate::prog::*;
use crate::report::Report;
use ps_ir::*;
use std::collections::BTreeSet;

/// Parallel operations whose result cannot depend on scheduling.
const DETERMINISTIC: &[&str] = &[
    "par_chunks_exact", "par_chunks_exact_mut", "par_chunks", "par_chunks_mut", "par_iter", "par_iter_mut", "into_par_iter", "zip", "zip_eq", "enumerate", "for_each", "map", "rev", "take", "skip",
    "chunks", "with_min_len", "with_max_len", "len", "step_by", "par_rchunks", "par_rchunks_mut", "par_rchunks_exact", "par_rchunks_exact_mut", "cloned", "copied",
];

fn is_parallel_op(f: &FnInfo) -> bool {
    (f.krate == "rayon" || f.krate == "rayon_core") && !f.path.contains("ThreadPoolBuilder") && !f.path.ends_with("ThreadPool::install") && !f.path.contains("drop")
        && !f.path.ends_with("remainder") && !f.path.ends_with("into_remainder") && !f.path.ends_with("take_remainder")
}

/// closure bodies executed by `ThreadPool::install`
pub fn installed(p: &Prog) -> BTreeSet<FnId> {
    let mut s = BTreeSet::new();
    for f in &p.p.fns {
        if f.path.ends_with("ThreadPool::install") {
            for g in &f.gargs {
                if let GArg::Ty(t) = g {
                    if let Some(b) = closure_of(p, *t) {
                        s.insert(b);
                    }
                    if let TyKind::FnDef(b) = p.t(*t).kind {
                        s.insert(b);
                    }
                }
            }
        }
    }
    s
}

/// a value of this type can keep a thread pool
fn holds_pool(p: &Prog, t: TyId, seen: &mut BTreeSet<TyId>) -> bool {
    if !seen.insert(t) {
        return false;
    }
    match &p.t(t).kind {
        TyKind::Adt { path, variants, args, .. } => {
            path.ends_with("::ThreadPool") || path.ends_with("::JoinHandle")
                || args.iter().any(|a| matches!(a, GArg::Ty(x) if holds_pool(p, *x, seen)))
                || variants.iter().flat_map(|v| v.fields.iter()).any(|f| holds_pool(p, f.1, seen))
        }
        TyKind::Array(e, _) | TyKind::Slice(e) => holds_pool(p, *e, seen),
        TyKind::Ptr { to, .. } => holds_pool(p, *to, seen),
        TyKind::Tuple(v) => v.iter().any(|e| holds_pool(p, *e, seen)),
        _ => false,
    }
}

pub fn run(p: &Prog, rep: &mut Report) {
    let cfg = &p.p.config;
    rep.rule("no static keeps a thread pool beyond a call");
    rep.rule("library code starts no thread of its own");
    for a in &p.p.allocs {
        if let AllocInfo::Static { path, ty, .. } = a {
            let ok = !holds_pool(p, *ty, &mut BTreeSet::new());
            rep.ob(ok);
            if !ok {
                rep.violate(format!("pool:static:{path}"), format!("static {path} keeps a thread pool beyond the call that needs it"));
            }
        }
    }
    rep.rule("every parallel-iterator operation runs in code entered only through a closure given to ThreadPool::install");
    rep.rule("only scheduling-independent parallel operations (disjoint exclusive chunks, no reduction, no thread identity) are used");
    rep.rule("no global thread pool is configured or used");
    let ins = installed(p);
    let mut g = crate::gating::Gating::new(p);
    g.solve();
    for f in 0..p.p.fns.len() as u32 {
        if p.f(f).body.is_none() || !g.ctx.contains_key(&f) || p.f(f).krate == "ps_client" {
            continue;
        }
        let mut uses = vec![];
        g.flow(f, &mut |u, _, _| uses.push(u));
        for u in uses {
            let gi = p.f(u.to);
            if gi.path.ends_with("ThreadPool::install") {
                rep.count(&format!("{cfg}: pool installs"), 1);
            }
            if gi.krate == "rayon_core" && gi.path.ends_with("build_global") {
                rep.violate(format!("pool:global:{}", p.f(f).path), format!("{}: configures the process-wide thread pool", p.loc(f, u.line)));
            }
            let thread = gi.path.trim_start_matches('<').starts_with("std::thread::") && !gi.path.ends_with("available_parallelism");
            if gi.krate == "std" {
                rep.ob(!thread);
            }
            if thread {
                rep.violate(format!("pool:thread:{}", p.f(f).path), format!("{}: {} starts or controls a thread outside the pool", p.loc(f, u.line), gi.path));
            }
            if is_parallel_op(gi) {
                let op = gi.path.rsplit("::").next().unwrap_or("").to_string();
                rep.count(&format!("{cfg}: parallel operations"), 1);
                let inside = u.facts & crate::gating::IN_POOL != 0;
                rep.ob(inside);
                if !inside {
                    rep.violate(format!("pool:outside:{}:{op}", p.f(f).path), format!("{}: {} can run outside an installed pool (on rayon's global pool)", p.loc(f, u.line), gi.path));
                }
                let ok = DETERMINISTIC.contains(&op.as_str());
                rep.ob(ok);
                if !ok {
                    rep.violate(format!("pool:op:{}:{op}", p.f(f).path), format!("{}: {} is not a scheduling-independent operation", p.loc(f, u.line), gi.path));
                }
            }
        }
    }
    rep.sample("closures run inside a pool", format!("{cfg}: {}", ins.len()));
}
