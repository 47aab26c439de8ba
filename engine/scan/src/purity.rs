//! No process-wide mutable state, no environment, no clock, no I/O on any path from the API.
use crate::prog::*;
use crate::report::Report;
use ps_ir::*;
use std::collections::BTreeSet;

const DENY: &[(&str, &str)] = &[
    ("std::fs::", "file system"),
    ("std::io::", "input/output"),
    ("std::net::", "network"),
    ("std::env::", "environment"),
    ("std::process::", "processes"),
    ("std::time::", "clock"),
    ("std::thread::", "threads"),
    ("std::hash::random", "randomised hashing"),
    ("std::collections::HashMap", "randomised iteration order"),
    ("std::collections::HashSet", "randomised iteration order"),
    ("std::collections::hash", "randomised iteration order"),
    ("hashbrown::", "randomised iteration order"),
    ("std::sync::Mutex", "shared state"),
    ("std::sync::RwLock", "shared state"),
    ("std::sync::OnceLock", "shared state"),
    ("std::sync::LazyLock", "shared state"),
    ("std::sync::Once", "shared state"),
    ("std::sync::mpsc", "shared state"),
    ("std::sync::Condvar", "shared state"),
    ("std::sync::poison", "shared state"),
    ("std::sync::once", "shared state"),
    ("std::sync::lazy", "shared state"),
    ("std::sync::atomic", "shared state"),
    ("core::sync::atomic", "shared state"),
    ("std::sys::", "platform state"),
    ("std::os::", "platform state"),
    ("libc::", "platform state"),
    ("core::arch::x86_64::_rdtsc", "clock"),
    ("std::arch::x86_64::_rdtsc", "clock"),
    ("rayon::current_thread_index", "thread identity"),
    ("rayon_core::current_thread_index", "thread identity"),
    ("rayon_core::current_num_threads", "thread count"),
];

/// called by library code itself, whatever they do inside
const DENY_LIB: &[(&str, &str)] = &[
    ("core::sync::atomic::Atomic", "shared state"),
    ("std::sync::atomic::Atomic", "shared state"),
    ("std::mem::MaybeUninit", "uninitialised memory"),
    ("core::mem::MaybeUninit", "uninitialised memory"),
    ("core::mem::maybe_uninit", "uninitialised memory"),
    ("std::mem::uninitialized", "uninitialised memory"),
    ("core::mem::uninitialized", "uninitialised memory"),
    ("std::alloc::alloc", "uninitialised memory"),
    ("alloc::alloc::alloc", "uninitialised memory"),
    ("std::alloc::realloc", "uninitialised memory"),
    ("alloc::alloc::realloc", "uninitialised memory"),
];
/// last segments of methods that reveal memory which was never written, or addresses
const DENY_NAME: &[(&str, &str)] = &[
    ("set_len", "uninitialised memory"),
    ("spare_capacity_mut", "uninitialised memory"),
    ("new_uninit", "uninitialised memory"),
    ("new_uninit_slice", "uninitialised memory"),
    ("assume_init", "uninitialised memory"),
    ("align_offset", "addresses"),
    ("align_to", "addresses"),
    ("align_to_mut", "addresses"),
    ("is_aligned", "addresses"),
    ("expose_provenance", "addresses"),
    ("addr", "addresses"),
];

pub fn interior(p: &Prog, t: TyId, seen: &mut BTreeSet<TyId>) -> Option<String> {
    if !seen.insert(t) {
        return None;
    }
    match &p.t(t).kind {
        TyKind::Adt { path, variants, .. } => {
            if path.contains("UnsafeCell") || path.contains("::Atomic") || path.contains("OnceLock") || path.contains("Mutex") || path.contains("LazyLock") {
                return Some(path.clone());
            }
            variants.iter().flat_map(|v| v.fields.iter()).find_map(|f| interior(p, f.1, seen))
        }
        TyKind::Array(e, _) | TyKind::Slice(e) => interior(p, *e, seen),
        TyKind::Tuple(v) => v.iter().find_map(|e| interior(p, *e, seen)),
        _ => None,
    }
}

pub fn run(p: &Prog, rep: &mut Report) {
    let cfg = &p.p.config;
    rep.rule("no reachable static is mutable or interiorly mutable, and no thread-local is used");
    rep.rule("no reachable call observes or changes process state (files, environment, clock, threads, locks, randomised hashing); the number of CPUs may be read only to size a thread pool");
    for a in &p.p.allocs {
        if let AllocInfo::Static { path, mutable, ty, .. } = a {
            rep.count(&format!("{cfg}: reachable statics"), 1);
            let i = interior(p, *ty, &mut BTreeSet::new());
            let ok = !*mutable && i.is_none();
            rep.ob(ok);
            if !ok {
                rep.violate(format!("state:static:{path}"), format!("static {path} is process-wide mutable state ({})", i.unwrap_or("static mut".into())));
            }
            rep.sample("statics", path.clone());
        }
    }
    for f in 0..p.p.fns.len() as u32 {
        let fi = p.f(f);
        let Some(b) = &fi.body else { continue };
        if fi.krate == "pic_scale" {
            rep.count(&format!("{cfg}: library functions analysed"), 1);
        }
        for bl in &b.blocks {
            for s in &bl.stmts {
                if let (StmtK::Assign(_, Rvalue::Cast(k, ..)), "pic_scale") = (&s.kind, fi.krate.as_str()) {
                    let k = format!("{k:?}");
                    let ok = !k.contains("Expose") && !k.contains("PtrToInt");
                    if !ok {
                        rep.violate(format!("state:address:{}", fi.path), format!("{}: an address is turned into a number", p.loc(f, s.line)));
                    }
                }
                if let StmtK::Assign(_, Rvalue::ThreadLocal(n)) = &s.kind {
                    rep.violate(format!("state:tls:{n}"), format!("{}: thread-local {n}", p.loc(f, s.line)));
                }
            }
            match &bl.term {
                Term::Asm(_) if fi.krate == "pic_scale" => rep.violate(format!("state:asm:{}", fi.path), format!("{}: inline assembly", p.loc(f, bl.line))),
                Term::Call { f: Callee::Fn(g), line, .. } => {
                    let gi = p.f(*g);
                    if fi.krate == "pic_scale" {
                        rep.count(&format!("{cfg}: calls in library code"), 1);
                        let path = gi.path.trim_start_matches('<');
                        let last = path.rsplit("::").next().unwrap_or("");
                        let std = matches!(gi.krate.as_str(), "core" | "alloc" | "std");
                        let d = DENY_LIB.iter().chain(DENY.iter()).find(|(pre, _)| path.starts_with(pre)).or(DENY_NAME.iter().find(|(n, _)| std && *n == last));
                        let ok = d.is_none() || gi.path.ends_with("available_parallelism") && fi.path.contains("ThreadingPolicy");
                        rep.ob(ok);
                        if !ok {
                            rep.violate(format!("state:libcall:{}->{}", fi.path, gi.path), format!("{}: call of {} ({})", p.loc(f, *line), gi.path, d.unwrap().1));
                        }
                    }
                    if gi.body.is_none() {
                        rep.count(&format!("{cfg}: external call sites"), 1);
                        let d = DENY.iter().find(|(pre, _)| gi.path.starts_with(pre) || gi.path.contains(&format!("<{pre}")));
                        let allowed = gi.path.ends_with("available_parallelism") && fi.path.contains("ThreadingPolicy");
                        let ok = d.is_none() || allowed;
                        rep.ob(ok);
                        if !ok {
                            rep.violate(format!("state:call:{}->{}", fi.path, gi.path), format!("{}: call of {} ({})", p.loc(f, *line), gi.path, d.unwrap().1));
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
