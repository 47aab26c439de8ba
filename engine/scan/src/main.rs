mod ai;
mod drv;
mod gating;
mod kernels;
mod pool;
mod prog;
mod purity;
mod report;
mod show;
mod small;
mod srcro;
use prog::Prog;
use report::Report;

fn main() {
    let t0 = std::time::Instant::now();
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "AI" {
        ai::roots::debug(&a[2..]);
        return;
    }
    if a[1] == "SHOW" {
        let p = Prog::load(&a[2]);
        for (i, f) in p.p.fns.iter().enumerate() {
            if f.path.contains(&a[3]) { show::show(&p, i as ps_ir::FnId); if a.len() < 5 { break } }
        }
        return;
    }
    // ps_scan PROPERTY KNOWN EVIDENCE IR...
    let prop = a[1].clone();
    let (known, ev) = (a[2].clone(), a[3].clone());
    let progs: Vec<Prog> = a[4..].iter().map(|f| Prog::load(f)).collect();
    let mut rep = Report::default();
    let run = |f: &dyn Fn(&Prog, &mut Report), rep: &mut Report| for p in &progs { f(p, rep); };
    const X86: &str = "covers the x86-64 code of the default feature set and of the full nightly feature set; NEON and WASM code is not compiled on this machine";
    let mut assumptions: Vec<&str> = vec![X86];
    let (level, explanation) = match prop.as_str() {
        "C01" => {
            run(&gating::run, &mut rep);
            for (k, n) in [("default: calls into feature-gated kernels", 100), ("default: feature detection sites", 50), ("default: vector intrinsic calls", 600)] { rep.floor(k, n); }
            ("proof", "Obligations are the calls of #[target_feature] functions and of vector intrinsics in every function reachable from the public API; each is discharged when the needed CPU features are implied by run-time detection on all paths reaching it.")
        }
        "C02" => {
            run(&pool::run, &mut rep);
            run(&|p, r| drv::run("C02", p, r), &mut rep);
            for c in ["default", "full"] {
                for (k, n) in [("entry point scenarios", 159), ("obligations Single", 1000), ("driver events", 4000)] { rep.floor(&format!("{c}: {k}"), n); }
            }
            rep.rule("under the single-thread policy no step of any entry point is handed a pool");
            for (k, n) in [("default: parallel operations", 100), ("default: pool installs", 20)] { rep.floor(k, n); }
            assumptions.push("rayon's install runs its closure, and parallel iterators started inside it, on the threads of that pool");
            ("proof", "Obligations are the parallel-iterator call sites reachable from the public API: each must be reachable only inside an installed pool and be scheduling independent.")
        }
        "C03" => {
            run(&purity::run, &mut rep);
            for (k, n) in [("default: library functions analysed", 800), ("default: external call sites", 1000)] { rep.floor(k, n); }
            ("proof", "Obligations are the statics reachable from the public API (immutable, no interior mutability) and all calls that leave the analysed code (must not observe or change process state).")
        }
        "C11" => {
            run(&srcro::run, &mut rep);
            for (k, n) in [("default: library functions analysed", 800), ("default: pointer casts and transmutes", 700), ("default: casts yielding write access", 200), ("default: source images taken by shared reference", 100)] { rep.floor(k, n); }
            ("proof", "Obligations are the pointer casts, transmutes, unions and foreign calls of the library functions reachable from the public API: none may create write access out of a value that grants none, so memory reached through the shared reference to the source image cannot be written.")
        }
        "C06" | "C07" | "C08" | "C13" | "C17" => {
            let id: &'static str = ["C06", "C07", "C08", "C13", "C17"].into_iter().find(|x| *x == prop).unwrap();
            run(&|p, r| drv::run(id, p, r), &mut rep);
            for c in ["default", "full"] {
                for (k, n) in drv::floors(id) { rep.floor(&format!("{c}: {k}"), *n); }
            }
            assumptions.push("the filter passes, alpha steps, nearest sampler and colour conversions are recorded with their arguments and not entered");
            if id == "C13" {
                run(&small::settings, &mut rep);
                rep.floor("default: setters and constructors", 23);
            }
            for r in drv::rules(id) { rep.rule(r); }
            ("proof", "Every public entry point taking two images is interpreted abstractly with symbolic sizes, strides, lengths, bit depths, settings and buffers; obligations are what the rules demand of the recorded chain of steps at each return.")
        }
        "C04" | "C05" | "C09" | "C10" | "C12" | "C16" => {
            let id: &'static str = ["C04", "C05", "C09", "C10", "C12", "C16"].into_iter().find(|x| *x == prop).unwrap();
            run(&|p, r| kernels::run(id, p, r), &mut rep);
            for c in ["default", "full"] {
                for (k, n) in kernels::floors(id) { rep.floor(&format!("{c}: {k}"), *n); }
            }
            for r in kernels::rules(id) { rep.rule(r); }
            assumptions.extend(kernels::ASSUME);
            if id == "C09" {
                assumptions.extend(kernels::ASSUME_LANES);
                ("proof", "The passes are interpreted abstractly with the row handlers recorded; every row handler is interpreted with vectors as sequences of lanes, each lane a constant, a source sample, a weight or a sum of products of both; sums over loops are kept as arithmetic progressions of taps. Obligations are the rows handed over and every sample stored: its place, the source samples its products start from, and that the taps fill the window exactly once.")
            } else if id == "C10" {
                assumptions.extend(kernels::ASSUME_RANGE);
                ("proof", "The passes are interpreted abstractly with the row handlers recorded; every row handler of 16-bit samples that takes a bit depth, and the step that divides by alpha, is interpreted with each scalar and vector lane as two facts: known not to be negative, known not to exceed 2^depth - 1. Obligations are the depth handed over and every sample stored.")
            } else { ("proof", "The drivers, the filter passes, alpha steps, nearest sampler, weight generation and every row handler are interpreted abstractly, each under the contract its callers are checked against, with symbolic sizes, strides, lengths, windows and row groups; obligations are the accesses, slices, row addresses, written columns and panics met on the way.") }
        }
        "C15" => {
            run(&small::stores, &mut rep);
            for c in ["default", "full"] {
                for (k, n) in [("container functions", 200), ("container obligations", 3000)] { rep.floor(&format!("{c}: {k}"), n); }
            }
            ("proof", "Every constructor, accessor, copy and view of the image containers is interpreted abstractly with symbolic lengths, sizes, strides and depths; obligations are the fields and buffers of what it returns.")
        }
        "C14" => {
            run(&small::codes, &mut rep);
            for c in ["default", "full"] {
                for (k, n) in [("error kinds", 5), ("numbers evaluated", 259), ("filters evaluated", 90)] { rep.floor(&format!("{c}: {k}"), n); }
            }
            ("proof", "The conversion functions are interpreted abstractly once per variant of the enum they take, once per small number and once for all remaining numbers; obligations are that each has one value and that the values are related as the rules demand.")
        }
        _ => { eprintln!("unknown property {prop}"); std::process::exit(2) }
    };
    std::process::exit(rep.finish(&prop, level, &assumptions, explanation, &known, &ev, t0.elapsed().as_secs_f64()));
}
