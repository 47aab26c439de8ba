//! Loaded program with indices used by every analysis.
use ps_ir::*;
use std::collections::HashMap;

pub struct Prog {
    pub p: Program,
    pub by_path: HashMap<String, Vec<FnId>>,
}

impl Prog {
    pub fn load(f: &str) -> Prog {
        let s = std::fs::read(f).unwrap_or_else(|e| panic!("cannot read {f}: {e}"));
        let p: Program = serde_json::from_slice(&s).unwrap();
        let mut by_path: HashMap<String, Vec<FnId>> = HashMap::new();
        for (i, x) in p.fns.iter().enumerate() {
            by_path.entry(x.path.clone()).or_default().push(i as u32);
        }
        Prog { p, by_path }
    }
    pub fn f(&self, i: FnId) -> &FnInfo {
        &self.p.fns[i as usize]
    }
    pub fn t(&self, i: TyId) -> &TyInfo {
        &self.p.types[i as usize]
    }
    pub fn ours(&self, i: FnId) -> bool {
        self.f(i).krate == "pic_scale"
    }
    pub fn loc(&self, i: FnId, line: u32) -> String {
        let f = self.f(i);
        let file = f.file.trim_start_matches("/repo/");
        format!("{file}:{line}")
    }
}

/// every closure body contained in a type (by value), e.g. adapters holding closures
pub fn closure_of(p: &Prog, t: TyId) -> Option<FnId> {
    match &p.t(t).kind {
        TyKind::Closure { body, .. } => Some(*body),
        _ => None,
    }
}

pub fn operands_of(r: &Rvalue) -> Vec<&Operand> {
    match r {
        Rvalue::Use(o) | Rvalue::Repeat(o, _) | Rvalue::Un(_, o) | Rvalue::Cast(_, o, _) => vec![o],
        Rvalue::Bin(_, a, b) | Rvalue::Checked(_, a, b) => vec![a, b],
        Rvalue::Agg(_, v) => v.iter().collect(),
        _ => vec![],
    }
}

pub fn succs(t: &Term) -> Vec<u32> {
    match t {
        Term::Goto(b) => vec![*b],
        Term::Switch(_, v, o) => {
            let mut r: Vec<u32> = v.iter().map(|x| x.1).collect();
            r.push(*o);
            r
        }
        Term::Drop(_, _, b) => vec![*b],
        Term::Call { target, .. } => target.iter().copied().collect(),
        Term::Assert { target, .. } => vec![*target],
        Term::Asm(t) => t.iter().copied().collect(),
        _ => vec![],
    }
}
