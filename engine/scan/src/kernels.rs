//! Rules decided by interpreting the filter passes, row handlers, alpha steps, sampler and weight
//! generation under the contracts the drivers keep, and the drivers themselves.
use crate::ai::interp::{Ob, ObK};
use crate::ai::driver::StubK;
use crate::ai::kern::{kern_jobs, KSpec, KernK};
use crate::ai::roots::*;
use crate::drv;
use crate::prog::*;
use crate::report::Report;
use ps_ir::*;
use std::collections::BTreeSet;

fn relevant(prop: &str, o: &Ob) -> bool {
    match prop {
        "C04" => matches!(o.kind, ObK::Access | ObK::Slice),
        "C05" => matches!(o.kind, ObK::Padding | ObK::Rows),
        "C12" => matches!(o.kind, ObK::Coverage),
        "C16" => matches!(o.kind, ObK::Panic),
        "C09" => matches!(o.kind, ObK::Lane | ObK::Rows),
        // of what a pass gives to its row handlers, the depth
        "C10" => matches!(o.kind, ObK::Lane | ObK::Prop(10)) || o.kind == ObK::Rows && o.what == "depth",
        _ => false,
    }
}
fn packed(p: &Prog, f: FnId) -> bool {
    p.f(f).path.to_lowercase().contains("ar30")
}
/// a row handler of samples with a bit depth
fn bounded(p: &Prog, f: FnId) -> bool {
    crate::ai::kern::row_shape(p, &p.f(f).params).map(|x| x.1.depth.is_some()).unwrap_or(false)
}
/// a row handler or step whose samples are 16-bit integers
fn words(p: &Prog, f: FnId) -> bool {
    let fi = p.f(f);
    let int = |t: TyId| matches!(p.t(t).kind, TyKind::Int { bits: 16, .. });
    fi.params.iter().any(|t| match &p.t(*t).kind {
        TyKind::Ptr { to, mutable: true, .. } => match &p.t(*to).kind {
            TyKind::Slice(e) => int(*e),
            _ => crate::ai::roots::store_info(p, *to).map(|x| int(x.1)).unwrap_or(false),
        },
        _ => false,
    })
}
fn job(root: FnId, layout: Layout, kern: Option<KSpec>) -> Job {
    Job { root, layout, policy: Policy::Any, owned: false, driver: kern.is_none(), scen: Scen::Any, kern }
}

pub fn run(prop: &'static str, p: &Prog, rep: &mut Report) {
    let cfg = p.p.config.clone();
    let secs = 240;
    let mut done: Vec<(&str, Done)> = vec![];
    let mut add = |what: &'static str, jobs: Vec<Job>, floats: &mut BTreeSet<FnId>, rows: &mut BTreeSet<(FnId, KSpec)>| {
        for d in run_jobs(p, &jobs, secs, 8, false) {
            rows.extend(d.targets.iter().map(|(f, k)| (*f, KSpec { deep: k.deep && prop == "C10", ..*k })));
            floats.extend(d.float_fns.iter().copied());
            done.push((what, d));
        }
    };
    // rows are told apart in strided images only
    let layouts: &[Layout] = if matches!(prop, "C05" | "C12" | "C09" | "C10") { &[Layout::Strided] } else { &[Layout::Strided, Layout::Tight] };
    let mut floats: BTreeSet<FnId> = BTreeSet::new();
    for l in layouts {
        let mut rows: BTreeSet<(FnId, KSpec)> = BTreeSet::new();
        add("passes and steps", kern_jobs(p).into_iter().map(|(f, k)| job(f, *l, Some(k))).collect(), &mut floats, &mut rows);
        let mut handlers: Vec<Job> = rows.iter().map(|(f, k)| job(*f, *l, Some(*k))).collect();
        if prop == "C09" {
            // the packed formats keep several samples in one word: not followed
            handlers.retain(|j| !packed(p, j.root));
            for j in handlers.iter_mut() {
                j.scen = Scen::Lanes;
            }
        }
        if prop == "C10" {
            handlers.retain(|j| bounded(p, j.root) && words(p, j.root));
            let steps = kern_jobs(p).into_iter().filter(|(f, k)| k.kind == KernK::Direct(StubK::Unpremul) && words(p, *f));
            handlers.extend(steps.map(|(f, k)| job(f, *l, Some(k))));
            for j in handlers.iter_mut() {
                j.scen = Scen::Range;
            }
        }
        add("row handlers", handlers, &mut floats, &mut rows);
        if prop == "C10" {
            add("drivers", drv::jobs(p, prop).into_iter().filter(|j| j.layout == *l && !j.owned && words(p, j.root)).collect(), &mut floats, &mut rows);
        }
        if matches!(prop, "C09" | "C10") {
            continue;
        }
        // containers may be used on their own, but only whole operations promise not to panic
        let all = prop == "C04";
        add("entry points", p.p.roots.iter().filter(|r| all || drv::is_resize(&p.f(**r).path)).map(|r| job(*r, *l, None)).collect(), &mut floats, &mut rows);
    }
    if matches!(prop, "C04" | "C16") {
        let own: Vec<Job> = std::mem::take(&mut floats).into_iter().filter(|f| !["core", "std", "alloc"].contains(&p.f(*f).krate.as_str())).map(|f| job(f, Layout::Tight, Some(KSpec { kind: KernK::Float, cn: 0, deep: true }))).collect();
        add("float functions", own, &mut floats, &mut BTreeSet::new());
    }
    for (what, d) in &done {
        let root = &p.f(d.job.root).path;
        if matches!(prop, "C09" | "C10") && *what == "row handlers" {
            let n = |k: ObK| d.obs.iter().filter(|o| o.kind == k).count();
            if n(ObK::Lane) > 0 && n(ObK::LaneUnk) == 0 {
                rep.count(&format!("{cfg}: row handlers followed to every sample"), 1);
            } else {
                rep.count(&format!("{cfg}: row handlers with samples not followed"), 1);
            }
            rep.count(&format!("{cfg}: stores not followed"), n(ObK::LaneUnk));
        }
        rep.count(&format!("{cfg}: {what}"), 1);
        rep.count(&format!("{cfg}: abstract steps"), d.steps as usize);
        if d.returns == 0 && d.obs.iter().all(|o| o.ok) {
            // nothing was learnt of a function that never returns
            rep.ob(false);
            rep.violate(format!("not decided:returns:{root}"), format!("{root}: no return of it is reached by the analysis"));
        }
        for o in &d.obs {
            // C15 compares what containers return
            let und = o.kind == ObK::Unmodelled && !matches!(prop, "C09" | "C10") && !(d.job.driver && !drv::is_resize(root) && o.what == "result");
            if !und && !relevant(prop, o) {
                continue;
            }
            if !und {
                rep.count(&format!("{cfg}: {what}: {:?}", o.kind), 1);
            }
            rep.ob(o.ok);
            if !o.ok {
                let at = &p.f(o.f).path;
                let w = if und { "not decided" } else { "rule" };
                rep.violate(format!("{w}:{:?}:{root}:{at}:{}", o.kind, o.what), format!("{}: {} in {at} (analysed from {root}, {:?} buffers): {}", p.loc(o.f, o.line), o.what, d.job.layout, o.text.lines().next().unwrap_or("")));
            }
        }
    }
}
/// least numbers confirmed on the analysed tree, per configuration
pub fn floors(prop: &str) -> &'static [(&'static str, usize)] {
    match prop {
        "C04" => &[("entry points", 600), ("passes and steps", 100), ("row handlers", 230), ("float functions", 20), ("entry points: Access", 30000), ("entry points: Slice", 900), ("passes and steps: Access", 1800), ("passes and steps: Slice", 1400), ("row handlers: Access", 16000), ("row handlers: Slice", 5000)],
        "C05" => &[("entry points", 50), ("passes and steps", 50), ("row handlers", 110), ("entry points: Padding", 600), ("passes and steps: Padding", 400), ("row handlers: Padding", 500), ("passes and steps: Rows", 1200)],
        "C09" => &[("passes and steps", 50), ("row handlers", 100), ("row handlers followed to every sample", 80), ("passes and steps: Rows", 1200), ("row handlers: Lane", 4000)],
        "C10" => &[("drivers", 6), ("drivers: Prop(10)", 150), ("passes and steps", 50), ("passes and steps: Rows", 40), ("row handlers", 22), ("row handlers followed to every sample", 18), ("row handlers: Lane", 1200)],
        "C12" => &[("entry points", 50), ("passes and steps", 50), ("row handlers", 110), ("entry points: Coverage", 600), ("passes and steps: Coverage", 40), ("row handlers: Coverage", 110)],
        _ => &[("entry points", 100), ("passes and steps", 100), ("row handlers", 230), ("float functions", 20), ("entry points: Panic", 700), ("passes and steps: Panic", 1200), ("row handlers: Panic", 10000)],
    }
}
pub fn rules(prop: &str) -> &'static [&'static str] {
    match prop {
        "C04" => &["every load, store, vector access and copy stays inside the allocation or slice its pointer was made from", "every unchecked slice, index and pointer offset made into a slice stays inside the slice it is taken from", "float functions outside std touch no memory but their own"],
        "C05" => &["a write to the destination through a row falls into the first width * channels samples of a row at the destination's own stride", "a row handler is given rows y*stride of the source and of the destination, the same number of rows as it processes, the strides of these images, and the weights and window of that row"],
        "C09" => &["a pass hands each row handler the rows of the source and the destination that belong together, and the weights and window of that row", "a sample written by a row handler is the sum of products of weight k and the source sample k steps after the start of the window of its own place, in its own row and channel, with every k below the size of the window exactly once"],
        "C10" => &["the passes and the division by alpha of a resize write into images of the depth of the destination", "a pass hands the bit depth of the destination to each row handler that takes one", "a 16-bit sample written by a row handler with a bit depth, or by the step that divides by alpha, is clamped to [0, 2^depth - 1] after the last computation, or is a sample of the source"],
        "C12" => &["a row handler writes all pixels of all the rows it is given", "a pass hands every row of the destination to a row handler or writes it itself", "a successful resize ends with a step that covers the whole destination"],
        _ => &["no panic, failed assertion, bounds check, slice of a bad range, division by zero, unwrap of nothing or abort is reachable for images that pass validation"],
    }
}
pub const ASSUME: &[&str] = &[
    "no buffer is larger than 2^47 bytes and allocations succeed",
    "overflow checks are off (release semantics): arithmetic wraps and wrapping is followed",
    "the pixel conversions of colorutils_rs stay inside the images described to them",
    "image containers whose fields were changed after construction still describe their buffer or are rejected by validation",
    "models of the functions without a body: allocator, rayon adaptors, vector intrinsics",
];
pub const ASSUME_RANGE: &[&str] = &[
    "the samples of the source fit the bit depth",
    "sums of weights times samples overshoot the range by less than a factor of 8 (16-bit lanes of images up to 12 bits), and no sum overflows 32 bits",
    "weights and samples are finite numbers",
];
pub const ASSUME_LANES: &[&str] = &[
    "arithmetic on samples and weights is taken as exact: widths, rounding, clamping and saturation are not judged, and a cast or shift keeps what a sum is made of",
    "the taps of weights and windows are where weight generation puts them: window x and weights x * pitch belong to pixel x",
    "the crate's own conversions of half floats keep the order of lanes",
    "lanes outside the mask of a masked access are neither read nor written",
    "packed 10-bit formats are not followed, nor the portable half-float passes, which convert the row and call the followed f32 ones",
];
