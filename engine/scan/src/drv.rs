//! Rules decided by interpreting the entry points with kernels recorded as events.
use crate::ai::driver::StubK;
use crate::ai::interp::ObK;
use crate::ai::kern::{kern_jobs, KernK};
use crate::ai::roots::*;
use crate::prog::*;
use crate::report::Report;
use ps_ir::*;

fn roots(p: &Prog, f: &dyn Fn(&str) -> bool) -> Vec<FnId> {
    p.p.roots.iter().copied().filter(|r| f(&p.f(*r).path)).collect()
}
/// entry points taking a source and a destination image
pub fn is_resize(path: &str) -> bool {
    let l = path.rsplit("::").next().unwrap_or("");
    l.starts_with("ep_resize_") || l.starts_with("ep_scale_") || path.contains("::c_") && (l == "ep_rgb" || l == "ep_rgba" || l == "ep_cbcr")
}
fn has_alpha(path: &str) -> bool {
    let l = path.rsplit("::").next().unwrap_or("");
    is_resize(path) && (l.contains("rgba") || l.starts_with("ep_scale_") && l.ends_with("_4"))
}

fn job(root: FnId, layout: Layout, owned: bool, policy: Policy, scen: Scen) -> Job {
    Job { root, layout, policy, owned, driver: true, scen, kern: None }
}

pub fn jobs(p: &Prog, prop: &str) -> Vec<Job> {
    let mut v = vec![];
    let layouts = [(Layout::Strided, false), (Layout::Strided, true), (Layout::Tight, false)];
    match prop {
        "C02" => {
            for r in roots(p, &is_resize) {
                for (l, o) in layouts {
                    v.push(job(r, l, o, Policy::Single, Scen::Any));
                }
            }
        }
        "C06" => {
            use Defect::*;
            for r in roots(p, &is_resize) {
                for (l, o) in layouts {
                    v.push(job(r, l, o, Policy::Any, Scen::Any));
                    v.push(job(r, l, o, Policy::Any, Scen::Valid));
                    for kind in [ZeroW, ZeroH, Short, Long, Stride, DepthLow, DepthHigh, Huge] {
                        for dst in [false, true] {
                            if matches!(kind, DepthLow | DepthHigh) && !dst || kind == Stride && l == Layout::Tight || o && kind != Short && kind != Long {
                                continue;
                            }
                            for exact in [false, true] {
                                if exact && kind.error().is_none() {
                                    continue;
                                }
                                v.push(job(r, l, o, Policy::Any, Scen::Reject { dst, kind, exact }));
                            }
                        }
                    }
                }
            }
        }
        "C07" => {
            for r in roots(p, &is_resize) {
                for (l, o) in layouts {
                    v.push(job(r, l, o, Policy::Any, Scen::Same));
                }
            }
        }
        "C08" => {
            for r in roots(p, &has_alpha) {
                for (l, o) in layouts {
                    v.push(job(r, l, o, Policy::Any, Scen::Any));
                }
            }
        }
        "C17" => {
            for r in roots(p, &is_resize) {
                for (l, o) in layouts {
                    for k in [-1, 0, 1] {
                        v.push(job(r, l, o, Policy::Any, Scen::Filter(k)));
                    }
                }
            }
        }
        _ => {
            for r in roots(p, &is_resize) {
                for (l, o) in layouts {
                    v.push(job(r, l, o, Policy::Any, Scen::Any));
                }
            }
        }
    }
    v
}

fn relevant(prop: &str, k: ObK) -> bool {
    match prop {
        "C02" => matches!(k, ObK::Single),
        "C06" => matches!(k, ObK::Prop(6) | ObK::ErrTouch),
        "C07" => matches!(k, ObK::Prop(7) | ObK::Coverage),
        "C08" => matches!(k, ObK::Prop(8)),
        "C13" => matches!(k, ObK::Prop(13)),
        "C17" => matches!(k, ObK::Prop(5) | ObK::Prop(9) | ObK::Prop(10) | ObK::Prop(15)),
        _ => false,
    }
}

pub fn run(prop: &'static str, p: &Prog, rep: &mut Report) {
    let cfg = p.p.config.clone();
    let js = jobs(p, prop);
    rep.count(&format!("{cfg}: entry point scenarios"), js.len());
    if prop == "C08" {
        alpha_steps(p, rep);
    }
    for d in run_jobs(p, &js, 120, 8, false) {
        let path = &p.f(d.job.root).path;
        rep.count(&format!("{cfg}: returns examined"), d.returns);
        rep.count(&format!("{cfg}: successes examined"), d.oks);
        rep.count(&format!("{cfg}: errors examined"), d.errs);
        rep.count(&format!("{cfg}: driver events"), d.events);
        rep.count(&format!("{cfg}: abstract steps"), d.steps as usize);
        for o in &d.obs {
            let und = o.kind == ObK::Unmodelled;
            if !und && !relevant(prop, o.kind) {
                continue;
            }
            if !und {
                rep.count(&format!("{cfg}: obligations {:?}", o.kind), 1);
            }
            rep.ob(o.ok);
            if !o.ok {
                let at = p.f(o.f).path.clone();
                let scen = match d.job.scen {
                    Scen::Reject { .. } => "reject",
                    Scen::Same => "same",
                    Scen::Valid => "valid",
                    Scen::Any | Scen::Lanes | Scen::Range | Scen::Alpha => "any",
                    Scen::Filter(0) => "nearest",
                    Scen::Filter(_) => "filter",
                };
                let what = if und { "not decided" } else { "rule" };
                rep.violate(format!("{what}:{:?}:{path}:{at}:{}", o.kind, o.what), format!("{}: {} (entry {path}, scenario {scen}, {:?} buffers): {}", p.loc(o.f, o.line), o.what, d.job.layout, o.text.lines().next().unwrap_or("")));
            }
        }
    }
}

/// the steps that multiply by alpha and divide by it, sample by sample
fn alpha_steps(p: &Prog, rep: &mut Report) {
    let cfg = p.p.config.clone();
    let js: Vec<Job> = kern_jobs(p)
        .into_iter()
        .filter(|(_, k)| matches!(k.kind, KernK::Direct(StubK::Premul | StubK::Unpremul)))
        .map(|(f, k)| Job { root: f, layout: Layout::Strided, policy: Policy::Any, owned: false, driver: false, scen: Scen::Alpha, kern: Some(k) })
        .collect();
    for d in run_jobs(p, &js, 150, 8, false) {
        let path = &p.f(d.job.root).path;
        let n = |k: ObK| d.obs.iter().filter(|o| o.kind == k).count();
        rep.count(&format!("{cfg}: alpha steps"), 1);
        rep.count(&format!("{cfg}: alpha steps followed to every sample"), (n(ObK::Lane) > 0 && n(ObK::LaneUnk) == 0) as usize);
        rep.count(&format!("{cfg}: alpha steps: stores not followed"), n(ObK::LaneUnk));
        if d.returns == 0 {
            rep.ob(false);
            rep.violate(format!("not decided:returns:{path}"), format!("{path}: no return of it is reached by the analysis"));
        }
        for o in d.obs.iter().filter(|o| matches!(o.kind, ObK::Lane | ObK::Coverage)) {
            rep.count(&format!("{cfg}: alpha steps: {:?}", o.kind), 1);
            rep.ob(o.ok);
            if !o.ok {
                let at = &p.f(o.f).path;
                rep.violate(format!("rule:{:?}:{path}:{at}:{}", o.kind, o.what), format!("{}: {} in {at} (analysed from {path}): {}", p.loc(o.f, o.line), o.what, o.text.lines().next().unwrap_or("")));
            }
        }
    }
}

/// least numbers confirmed on the analysed tree, per configuration
pub fn floors(prop: &str) -> &'static [(&'static str, usize)] {
    match prop {
        "C06" => &[("entry point scenarios", 3286), ("successes examined", 2000), ("errors examined", 10000), ("obligations ErrTouch", 10000), ("obligations Prop(6)", 4000)],
        "C07" => &[("entry point scenarios", 159), ("successes examined", 120), ("obligations Prop(7)", 280)],
        "C08" => &[("entry point scenarios", 45), ("successes examined", 400), ("driver events", 2000), ("obligations Prop(8)", 1000), ("alpha steps", 6), ("alpha steps: Coverage", 6), ("alpha steps: Lane", 3500), ("alpha steps followed to every sample", 3)],
        "C13" => &[("entry point scenarios", 159), ("successes examined", 900), ("driver events", 4000), ("obligations Prop(13)", 2000)],
        _ => &[("entry point scenarios", 477), ("successes examined", 900), ("driver events", 4000), ("obligations Prop(5)", 1800), ("obligations Prop(9)", 4000), ("obligations Prop(10)", 160), ("obligations Prop(15)", 8000)],
    }
}
pub fn rules(prop: &str) -> &'static [&'static str] {
    match prop {
        "C06" => &[
            "an invalid request (empty, length other than stride * height, stride smaller than a row, bit depth outside 1..=16, size overflowing the address space) never returns success",
            "when that is the only defect of the request, the error returned is the variant naming it",
            "no write to the destination precedes any return of an error",
            "a valid request of ordinary size never returns an error",
        ],
        "C07" => &["with equal sizes no filter, alpha or conversion step is part of the result", "with equal sizes each destination row is a copy of the source row of the same index, and all rows are copied"],
        "C08" => &["premultiplication and unpremultiplication occur both or neither, at most once", "premultiplication precedes the first pass, unpremultiplication follows the last", "both happen iff requested, unless the library's test of the source says it is not needed", "both use the same bit depth", "the steps make each colour from itself and the alpha of its own pixel, keep alpha, and reach every pixel"],
        "C13" => &["first and last step are inverse conversions of the scaler's colour space and channel count", "same transfer function, inverse matrices, same luminance on both sides", "threads, workload and filter of the scaler reach every pass"],
        _ => &["every changed dimension is filtered exactly once, by a pass of its direction, with weights made for exactly these two sizes by the requested filter", "every step is handed images as they are: pointer, width, height, stride and bit depth", "every image handed to a step fits its buffer", "the nearest-neighbour sampler is used iff that filter is requested", "every step contributes to the result, which comes from the source"],
    }
}
