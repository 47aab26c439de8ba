//! development aid: print the intermediate representation of a function
use crate::prog::Prog;
use ps_ir::*;
pub fn ty(p: &Prog, t: TyId, d: u32) -> String {
    if d == 0 { return "..".into(); }
    match &p.t(t).kind {
        TyKind::Ptr { to, mutable, .. } => format!("*{}{}", if *mutable { "mut " } else { "" }, ty(p, *to, d - 1)),
        TyKind::Adt { path, args, .. } => {
            let n = path.rsplit("::").next().unwrap_or("").to_string();
            let a: Vec<String> = args.iter().map(|a| match a { GArg::Ty(t) => ty(p, *t, d - 1), GArg::Const(k) => k.to_string(), _ => "'".into() }).filter(|s| s != "'").collect();
            if a.is_empty() { n } else { format!("{n}<{}>", a.join(",")) }
        }
        k => { let s = format!("{k:?}"); s.chars().take(60).collect() }
    }
}
fn pl(p: &Prog, b: &Body, q: &Place) -> String {
    let mut s = format!("_{}", q.local);
    let _ = b;
    for x in &q.proj {
        match x {
            Proj::Deref => s = format!("(*{s})"),
            Proj::Field(i, _) => s = format!("{s}.{i}"),
            Proj::Index(i) => s = format!("{s}[_{i}]"),
            Proj::Downcast(v) => s = format!("({s} as v{v})"),
            o => s = format!("{s}{o:?}"),
        }
    }
    let _ = p;
    s
}
fn op(p: &Prog, b: &Body, o: &Operand) -> String {
    match o {
        Operand::Copy(q) | Operand::Move(q) => pl(p, b, q),
        Operand::Const(t, c) => match c { Const::Bits(k) => format!("{k}"), Const::Zst => ty(p, *t, 2), c => { let s = format!("{c:?}"); s.chars().take(60).collect() } },
        Operand::RuntimeCheck => "check".into(),
    }
}
pub fn show(p: &Prog, f: FnId) {
    let fi = p.f(f);
    println!("fn {} [{}]", fi.path, fi.file);
    let Some(b) = &fi.body else { println!("  leaf"); return };
    for (i, l) in b.locals.iter().enumerate() {
        let nm = b.names.iter().find(|n| n.0 == i as u32).map(|n| n.1.clone()).unwrap_or_default();
        println!("  _{i}: {} {}", ty(p, *l, 4), nm);
    }
    for (i, bb) in b.blocks.iter().enumerate() {
        println!(" bb{i}:");
        for s in &bb.stmts {
            match &s.kind {
                StmtK::Live(_) | StmtK::Dead(_) => {}
                StmtK::Assign(d, r) => {
                    let t = match r {
                        Rvalue::Use(o) => op(p, b, o),
                        Rvalue::Ref(q, m) => format!("&{}{}", if *m { "mut " } else { "" }, pl(p, b, q)),
                        Rvalue::AddrOf(q, m) => format!("&raw {}{}", if *m { "mut " } else { "" }, pl(p, b, q)),
                        Rvalue::Bin(k, x, y) => format!("{k:?}({}, {})", op(p, b, x), op(p, b, y)),
                        Rvalue::Checked(k, x, y) => format!("checked {k:?}({}, {})", op(p, b, x), op(p, b, y)),
                        Rvalue::Un(k, x) => format!("{k:?}({})", op(p, b, x)),
                        Rvalue::Cast(k, x, t) => format!("{} as {} ({k:?})", op(p, b, x), ty(p, *t, 3)),
                        Rvalue::Discr(q) => format!("discr({})", pl(p, b, q)),
                        Rvalue::Agg(k, v) => format!("{} [{}]", match k { AggK::Adt(t, v, _) => format!("{}#{v}", ty(p, *t, 3)), k => { let s = format!("{k:?}"); s.chars().take(20).collect() } }, v.iter().map(|o| op(p, b, o)).collect::<Vec<_>>().join(", ")),
                        o => format!("{o:?}"),
                    };
                    println!("    {} = {t}   ; {}", pl(p, b, d), s.line)
                }
                k => { let s = format!("{k:?}"); println!("    {}", s.chars().take(160).collect::<String>()) }
            }
        }
        match &bb.term {
            Term::Call { f, args, dest, target, .. } => {
                let n = match f { Callee::Fn(g) => p.f(*g).path.clone(), o => { let s = format!("{o:?}"); s.chars().take(80).collect() } };
                println!("    {} = {n}({}) -> {target:?}   ; {}", pl(p, b, dest), args.iter().map(|o| op(p, b, o)).collect::<Vec<_>>().join(", "), bb.line)
            }
            Term::Switch(o, v, d) => println!("    switch {} {:?} else {d}", op(p, b, o), v),
            Term::Assert { cond, expected, target, msg } => println!("    assert {} == {expected} -> {target} {msg}", op(p, b, cond)),
            t => { let s = format!("{t:?}"); println!("    {}", s.chars().take(160).collect::<String>()) }
        }
    }
}
