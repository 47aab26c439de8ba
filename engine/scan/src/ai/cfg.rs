//! Control-flow facts of a body: reverse postorder, natural loops, liveness, drop flags.
use crate::prog::succs;
use ps_ir::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct FnMeta {
    pub rpo: Vec<u32>,
    /// header -> blocks
    pub loops: BTreeMap<u32, BTreeSet<u32>>,
    /// live-in locals per block (never for borrowed ones: see `borrowed`)
    pub live: Vec<Vec<bool>>,
    pub borrowed: Vec<bool>,
    pub dropflag: Vec<bool>,
    pub irreducible: bool,
}

fn place_uses(p: &Place, u: &mut dyn FnMut(u32, bool), write: bool) {
    let deref = p.proj.iter().any(|x| matches!(x, Proj::Deref));
    u(p.local, write && p.proj.is_empty() && !deref);
    for x in &p.proj {
        if let Proj::Index(l) = x {
            u(*l, false);
        }
    }
}
fn op_uses(o: &Operand, u: &mut dyn FnMut(u32, bool)) {
    match o {
        Operand::Copy(p) | Operand::Move(p) => place_uses(p, u, false),
        _ => {}
    }
}
fn rv_uses(r: &Rvalue, u: &mut dyn FnMut(u32, bool)) {
    match r {
        Rvalue::Ref(p, _) | Rvalue::AddrOf(p, _) | Rvalue::Len(p) | Rvalue::Discr(p) => place_uses(p, u, false),
        r => {
            for o in crate::prog::operands_of(r) {
                op_uses(o, u)
            }
        }
    }
}

/// backwards transfer of a block; `f(local, is_def)` is called in reverse order of execution
fn transfer(b: &Block, live: &mut Vec<bool>) {
    // terminator
    {
        let mut defs = vec![];
        let mut uses = vec![];
        let mut rec = |l: u32, d: bool| if d { defs.push(l) } else { uses.push(l) };
        match &b.term {
            Term::Switch(o, _, _) => op_uses(o, &mut rec),
            Term::Drop(p, _, _) => place_uses(p, &mut rec, false),
            Term::Call { f, args, dest, .. } => {
                if let Callee::Ptr(o) = f {
                    op_uses(o, &mut rec)
                }
                for a in args {
                    op_uses(a, &mut rec)
                }
                place_uses(dest, &mut rec, true);
            }
            Term::Assert { cond, .. } => op_uses(cond, &mut rec),
            Term::Return => rec(0, false),
            _ => {}
        }
        for l in defs {
            live[l as usize] = false;
        }
        for l in uses {
            live[l as usize] = true;
        }
    }
    for s in b.stmts.iter().rev() {
        let mut defs = vec![];
        let mut uses = vec![];
        let mut rec = |l: u32, d: bool| if d { defs.push(l) } else { uses.push(l) };
        match &s.kind {
            StmtK::Assign(p, r) => {
                place_uses(p, &mut rec, true);
                rv_uses(r, &mut rec);
            }
            StmtK::SetDiscr(p, _) => place_uses(p, &mut rec, false),
            StmtK::Live(l) | StmtK::Dead(l) => rec(*l, true),
            StmtK::Assume(o) => op_uses(o, &mut rec),
            StmtK::CopyNonOverlapping(a, b, c) => {
                op_uses(a, &mut rec);
                op_uses(b, &mut rec);
                op_uses(c, &mut rec);
            }
        }
        for l in defs {
            live[l as usize] = false;
        }
        for l in uses {
            live[l as usize] = true;
        }
    }
}

pub fn analyse(b: &Body) -> FnMeta {
    let n = b.blocks.len();
    let sc: Vec<Vec<u32>> = b.blocks.iter().map(|x| succs(&x.term)).collect();
    // postorder
    let mut seen = vec![false; n];
    let mut post = vec![];
    let mut st: Vec<(u32, usize)> = vec![(0, 0)];
    seen[0] = true;
    while let Some((x, i)) = st.pop() {
        if i < sc[x as usize].len() {
            st.push((x, i + 1));
            let y = sc[x as usize][i];
            if !seen[y as usize] {
                seen[y as usize] = true;
                st.push((y, 0));
            }
        } else {
            post.push(x);
        }
    }
    post.reverse();
    let mut rpo = vec![u32::MAX; n];
    for (i, x) in post.iter().enumerate() {
        rpo[*x as usize] = i as u32;
    }
    let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
    for x in &post {
        for y in &sc[*x as usize] {
            preds[*y as usize].push(*x);
        }
    }
    // dominators
    let mut idom = vec![u32::MAX; n];
    idom[0] = 0;
    let mut ch = true;
    while ch {
        ch = false;
        for &x in post.iter().skip(1) {
            let mut d = u32::MAX;
            for &p in &preds[x as usize] {
                if idom[p as usize] == u32::MAX {
                    continue;
                }
                d = if d == u32::MAX {
                    p
                } else {
                    let (mut a, mut c) = (d, p);
                    while a != c {
                        if rpo[a as usize] > rpo[c as usize] { a = idom[a as usize] } else { c = idom[c as usize] }
                    }
                    a
                };
            }
            if idom[x as usize] != d {
                idom[x as usize] = d;
                ch = true;
            }
        }
    }
    let dominates = |a: u32, mut x: u32| loop {
        if a == x {
            return true;
        }
        if x == 0 {
            return false;
        }
        x = idom[x as usize];
    };
    let mut loops: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    let mut irreducible = false;
    for &x in &post {
        for &y in &sc[x as usize] {
            if rpo[y as usize] <= rpo[x as usize] {
                if !dominates(y, x) {
                    irreducible = true;
                    continue;
                }
                let set = loops.entry(y).or_default();
                set.insert(y);
                let mut w = vec![x];
                while let Some(z) = w.pop() {
                    if set.insert(z) {
                        w.extend(preds[z as usize].iter());
                    }
                }
            }
        }
    }
    // borrowed locals
    let nl = b.locals.len();
    let mut borrowed = vec![false; nl];
    let mut constonly = vec![true; nl];
    let mut assigned = vec![false; nl];
    for bl in &b.blocks {
        for s in &bl.stmts {
            if let StmtK::Assign(p, r) = &s.kind {
                if let Rvalue::Ref(q, _) | Rvalue::AddrOf(q, _) = r {
                    if !q.proj.iter().any(|x| matches!(x, Proj::Deref)) {
                        borrowed[q.local as usize] = true;
                    }
                }
                if p.proj.is_empty() {
                    assigned[p.local as usize] = true;
                    if !matches!(r, Rvalue::Use(Operand::Const(..))) {
                        constonly[p.local as usize] = false;
                    }
                }
            }
        }
        if let Term::Call { dest, .. } = &bl.term {
            constonly[dest.local as usize] = false;
        }
    }
    // drop flags: constant booleans whose every test guards a drop
    let mut dropflag = vec![false; nl];
    let mut tests: HashMap<u32, bool> = HashMap::new();
    for bl in &b.blocks {
        if let Term::Switch(Operand::Copy(p) | Operand::Move(p), vs, o) = &bl.term {
            if p.proj.is_empty() {
                let to_drop = vs.iter().map(|x| x.1).chain([*o]).any(|t| matches!(b.blocks[t as usize].term, Term::Drop(..)));
                let e = tests.entry(p.local).or_insert(true);
                *e &= to_drop;
            }
        }
    }
    for (l, ok) in tests {
        dropflag[l as usize] = ok && constonly[l as usize] && assigned[l as usize] && !borrowed[l as usize];
    }
    // liveness
    let mut live: Vec<Vec<bool>> = vec![vec![false; nl]; n];
    let mut ch = true;
    while ch {
        ch = false;
        for &x in post.iter().rev() {
            let mut l = vec![false; nl];
            for &y in &sc[x as usize] {
                for (i, v) in live[y as usize].iter().enumerate() {
                    l[i] |= *v;
                }
            }
            transfer(&b.blocks[x as usize], &mut l);
            if l != live[x as usize] {
                live[x as usize] = l;
                ch = true;
            }
        }
    }
    FnMeta { rpo, loops, live, borrowed, dropflag, irreducible }
}
