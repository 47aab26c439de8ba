//! Joins of states and loop invariants.
use super::cfg::FnMeta;
use super::interp::*;
use super::mem::*;
use super::num::Cons;
use super::poly::*;
use ps_ir::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Pl {
    Local(u32, u32),
    Heap(u64),
}
/// (place, offset, size, component); offset u64::MAX: the region's size
pub type Key = (Pl, u64, u64, usize);
const SIZE: u64 = u64::MAX;

pub struct Diff {
    pub pl: Pl,
    pub off: u64,
    pub sz: u64,
    pub vals: Vec<Val>,
}

pub struct Shape {
    pub skel: State,
    pub diffs: Vec<Diff>,
    /// something of the first state was lost that is not numeric
    pub lost: bool,
    pub hard: bool,
}

fn as_num(v: &Val) -> Option<Poly> {
    match v {
        Val::Int(p) => Some(p.clone()),
        Val::Tag(k) => Some(Poly::c(*k)),
        _ => None,
    }
}

fn join_cells(lists: &[&Vec<Cell>], pl: Pl, diffs: &mut Vec<Diff>, lost: &mut bool, hard: &mut bool) -> Vec<Cell> {
    let al = super::lanes::align_cells(lists);
    let lists: Vec<&Vec<Cell>> = match &al {
        Some(v) => v.iter().collect(),
        None => lists.to_vec(),
    };
    let mut out = vec![];
    'cell: for c in lists[0].iter() {
        let mut vals = vec![c.val.clone()];
        for l in &lists[1..] {
            match l.iter().find(|x| x.off == c.off && x.sz == c.sz) {
                Some(x) => vals.push(x.val.clone()),
                None => {
                    *lost = true;
                    continue 'cell;
                }
            }
        }
        if vals[1..].iter().all(|v| *v == vals[0]) {
            out.push(c.clone());
            continue;
        }
        if vals.iter().any(|v| matches!(v, Val::Ln(_))) {
            if let Some(v) = super::lanes::limited(&vals) {
                if c.val != v {
                    *lost = true;
                }
                out.push(Cell { off: c.off, sz: c.sz, val: v });
                continue;
            }
            if let Some(v) = super::alpha::merge(&vals) {
                if c.val != v {
                    *lost = true;
                }
                out.push(Cell { off: c.off, sz: c.sz, val: v });
                continue;
            }
            if let Some(v) = super::range::merge(&vals) {
                if c.val != v {
                    *lost = true;
                }
                out.push(Cell { off: c.off, sz: c.sz, val: v });
                continue;
            }
            if let Some(b) = vals.iter().find(|v| matches!(v, Val::Ln(l) if matches!(&**l, super::lanes::Lane::Bad(_)))) {
                if *b != c.val {
                    *lost = true;
                }
                out.push(Cell { off: c.off, sz: c.sz, val: b.clone() });
                continue;
            }
            if vals.iter().all(super::lanes::is_k) {
                let k = Val::Ln(Rc::new(super::lanes::Lane::K));
                if c.val != k {
                    *lost = true;
                }
                out.push(Cell { off: c.off, sz: c.sz, val: k });
                continue;
            }
            let grow = LOOP_JOIN.with(|l| l.get()) != 2;
            if let Some(v) = super::lanes::align_vals(&vals, grow, LOOP_JOIN.with(|l| l.get()) == 0) {
                if v[0] != vals[0] {
                    *lost = true;
                }
                vals = v;
                out.push(Cell { off: c.off, sz: c.sz, val: vals[0].clone() });
                if vals[1..].iter().any(|v| *v != vals[0]) {
                    diffs.push(Diff { pl, off: c.off, sz: c.sz, vals });
                }
                continue;
            }
        }
        if vals[1..].iter().all(|v| same_shape(&vals[0], v)) && !comps(&vals[0]).is_empty() {
            diffs.push(Diff { pl, off: c.off, sz: c.sz, vals });
            out.push(c.clone());
            continue;
        }
        if let Some(nums) = vals.iter().map(as_num).collect::<Option<Vec<_>>>() {
            *hard = true;
            if matches!(vals[0], Val::Tag(_)) {
                *lost = true;
            }
            let vals: Vec<Val> = nums.into_iter().map(Val::Int).collect();
            out.push(Cell { off: c.off, sz: c.sz, val: vals[0].clone() });
            if vals[1..].iter().any(|v| *v != vals[0]) {
                diffs.push(Diff { pl, off: c.off, sz: c.sz, vals });
            }
            continue;
        }
        let v = join_other(&vals, hard);
        if v != c.val {
            *lost = true;
        }
        out.push(Cell { off: c.off, sz: c.sz, val: v });
    }
    out
}
fn join_other(vals: &[Val], hard: &mut bool) -> Val {
    if vals.iter().all(|v| matches!(v, Val::Fns(_))) {
        let mut s: BTreeSet<FnId> = BTreeSet::new();
        for v in vals {
            if let Val::Fns(f) = v {
                s.extend(f.iter());
            }
        }
        return Val::Fns(Rc::new(s.into_iter().collect()));
    }
    if vals.iter().all(|v| matches!(v, Val::Bool(_))) {
        if vals.iter().any(|v| matches!(v, Val::Bool(Cond::K(_)))) {
            *hard = true;
        }
        return Val::Bool(Cond::Opaque);
    }
    if vals.iter().any(|v| matches!(v, Val::Ptr(_))) {
        *hard = true;
    }
    if LOOP_JOIN.with(|l| l.get()) == 0 {
        let fs: Option<Vec<(f64, f64)>> = vals.iter().map(|v| if let Val::F(a, b) = v { Some((f64::from_bits(*a), f64::from_bits(*b))) } else { None }).collect();
        if let Some(fs) = fs {
            let lo = fs.iter().map(|x| x.0).fold(f64::INFINITY, f64::min);
            let hi = fs.iter().map(|x| x.1).fold(f64::NEG_INFINITY, f64::max);
            return Val::F(lo.to_bits(), hi.to_bits());
        }
    }
    Val::Opaque
}

thread_local! {
    /// 1: entry of a loop with its first iteration, 2: any iteration with the next
    static LOOP_JOIN: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
fn loop_shape(sts: &[&State], phase: u8) -> Shape {
    LOOP_JOIN.with(|l| l.set(phase));
    let r = join_shape(sts);
    LOOP_JOIN.with(|l| l.set(0));
    r
}
/// common shape of states with the same call stack; numeric differences are listed
pub fn join_shape(sts: &[&State]) -> Shape {
    let mut skel = sts[0].clone();
    let mut diffs = vec![];
    let (mut lost, mut hard) = (false, false);
    for d in 0..skel.frames.len() {
        if sts[1..].iter().all(|s| Rc::ptr_eq(&s.frames[d], &sts[0].frames[d])) {
            continue;
        }
        let n = skel.frames[d].locals.len();
        for l in 0..n {
            let a = &sts[0].frames[d].locals[l];
            if sts[1..].iter().all(|s| Rc::ptr_eq(&s.frames[d].locals[l], a) || s.frames[d].locals[l] == *a) {
                continue;
            }
            let lists: Vec<&Vec<Cell>> = sts.iter().map(|s| &*s.frames[d].locals[l]).collect();
            let out = join_cells(&lists, Pl::Local(d as u32, l as u32), &mut diffs, &mut lost, &mut hard);
            *skel.local_cells_mut(d as u32, l as u32) = out;
        }
    }
    if !sts[1..].iter().all(|s| Rc::ptr_eq(&s.heap, &sts[0].heap)) {
        let ids: Vec<u64> = sts[0].heap.keys().copied().collect();
        for id in ids {
            let a = &sts[0].heap[&id];
            let rs: Vec<Option<&Rc<Region>>> = sts.iter().map(|s| s.heap.get(&id)).collect();
            if rs.iter().any(|r| r.is_none()) {
                continue; // unreachable in one of the states
            }
            let rs: Vec<&Rc<Region>> = rs.into_iter().flatten().collect();
            if rs[1..].iter().all(|r| Rc::ptr_eq(r, a) || *r == a) {
                continue;
            }
            let lists: Vec<&Vec<Cell>> = rs.iter().map(|r| &r.cells).collect();
            let cells = join_cells(&lists, Pl::Heap(id), &mut diffs, &mut lost, &mut hard);
            let mut r = (**a).clone();
            r.cells = cells;
            if rs.iter().any(|x| x.size != a.size) {
                diffs.push(Diff { pl: Pl::Heap(id), off: SIZE, sz: 0, vals: rs.iter().map(|x| Val::Int(x.size.clone())).collect() });
            }
            if rs.iter().any(|x| x.fill != a.fill) {
                if r.fill != Fill::Unknown {
                    lost = true;
                }
                r.fill = Fill::Unknown;
            }
            if rs.iter().any(|x| x.tmpl != a.tmpl) {
                let t = a.tmpl.as_ref().and_then(|t| {
                    let mut rows = t.rows.clone();
                    for x in &rs[1..] {
                        match &x.tmpl {
                            Some(u) if u.fields == t.fields => {
                                let sub = |c: &Cons, row: &Poly, have: &Tmpl| have.rows.contains(row) || {
                                    let mut c2 = c.clone();
                                    for h in &have.rows {
                                        c2.add_ge(h);
                                    }
                                    c2.entails(row)
                                };
                                let si = sts.iter().position(|s| s.heap.get(&id).map(|y| Rc::ptr_eq(y, x)).unwrap_or(false)).unwrap_or(0);
                                rows.retain(|row| sub(&sts[si].cons, row, u));
                                for row in &u.rows {
                                    if !rows.contains(row) && sub(&sts[0].cons, row, t) {
                                        rows.push(row.clone());
                                    }
                                }
                            }
                            _ => return None,
                        }
                    }
                    Some(Rc::new(Tmpl { fields: t.fields.clone(), rows }))
                });
                if t != a.tmpl {
                    lost = true;
                }
                r.tmpl = t;
            }
            r.focus = None;
            if sts[1..].iter().any(|s| s.region(id).map(|x| x.memo != r.memo).unwrap_or(true)) {
                r.memo = None;
            }
            Rc::make_mut(&mut skel.heap).insert(id, Rc::new(r));
        }
    }
    for s in &sts[1..] {
        if s.in_pool != skel.in_pool || s.ev != skel.ev {
            hard = true;
        }
    }
    Shape { skel, diffs, lost, hard }
}

pub fn get_key(st: &State, k: &Key) -> Option<Poly> {
    let v = get_cell(st, k.0, k.1, k.2)?;
    comps(&v).get(k.3).cloned()
}
fn get_cell(st: &State, pl: Pl, off: u64, sz: u64) -> Option<Val> {
    match pl {
        Pl::Local(d, l) => st.local_cells(d, l).iter().find(|c| c.off == off && c.sz == sz).map(|c| c.val.clone()),
        Pl::Heap(h) => {
            let r = st.region(h)?;
            if off == SIZE {
                return Some(Val::Int(r.size.clone()));
            }
            r.cells.iter().find(|c| c.off == off && c.sz == sz).map(|c| c.val.clone())
        }
    }
}
fn set_cell(st: &mut State, pl: Pl, off: u64, sz: u64, v: Val) {
    match pl {
        Pl::Local(d, l) => {
            if let Some(c) = st.local_cells_mut(d, l).iter_mut().find(|c| c.off == off && c.sz == sz) {
                c.val = v;
            }
        }
        Pl::Heap(h) => {
            if let Some(r) = st.region_mut(h) {
                if off == SIZE {
                    if let Val::Int(p) = v {
                        r.size = p;
                    }
                } else if let Some(c) = r.cells.iter_mut().find(|c| c.off == off && c.sz == sz) {
                    c.val = v;
                }
            }
        }
    }
}
pub fn set_key(st: &mut State, k: &Key, p: Poly) {
    if let Some(v) = get_cell(st, k.0, k.1, k.2) {
        let mut cs = comps(&v);
        if k.3 < cs.len() && cs[k.3] != p {
            cs[k.3] = p;
            let nv = with_comps(&v, &mut cs.iter());
            set_cell(st, k.0, k.1, k.2, nv);
        }
    }
}

/// simultaneous substitution
pub fn subst_all(p: &Poly, m: &[(Sym, Poly)]) -> Option<Poly> {
    if !m.iter().any(|(s, _)| p.has_sym(*s)) {
        return Some(p.clone());
    }
    let mut r = Poly::c(0);
    for (mo, k) in p.0.iter() {
        let sy = mono_syms(*mo);
        let mut rest = vec![];
        let mut t = Poly::c(*k);
        for s in sy.iter() {
            match m.iter().find(|x| x.0 == *s) {
                Some((_, e)) => t = t.mul(e)?,
                None => rest.push(*s),
            }
        }
        t = t.mul(&Poly::mono(mono(rest)))?;
        r = r.add(&t);
    }
    if r.too_big() { None } else { Some(r) }
}

/// r with every occurrence of c*x replaced through c*x = e, scaled by c when needed
fn subst_scaled(r: &Poly, x: Sym, c: i128, e: &Poly) -> Option<Poly> {
    if c.abs() == 1 {
        return r.subst(x, &e.scale(c));
    }
    let xm = mono(vec![x]);
    let scale = if r.0.iter().all(|(m, k)| mono_div(*m, xm).is_none() || k % c == 0) { 1 } else { c.abs() };
    let mut out = Poly::c(0);
    for (m, k) in r.0.iter() {
        let k = k.checked_mul(scale)?;
        match mono_div(*m, xm) {
            Some(d) => {
                if mono_syms(d).contains(&x) {
                    return None;
                }
                out = out.add(&Poly::from_vec(vec![(d, k / c)]).mul(e)?);
            }
            None => out = out.add(&Poly::from_vec(vec![(*m, k)])),
        }
    }
    Some(out)
}

/// facts of `c` rewritten in terms of the new symbols whose current values are `vals`
fn cand_rows(rows: &[Poly], vals: &[(Sym, Poly)], out: &mut Vec<Poly>) {
    // inversions: x (in the old state) expressed by a new symbol
    let mut inv: Vec<(Sym, i128, Poly)> = vec![];
    for (s, v) in vals {
        let mut best: Option<(Sym, i128)> = None;
        for (m, k) in v.terms() {
            let sy = mono_syms(*m);
            if sy.len() == 1 && !inv.iter().any(|i| i.0 == sy[0]) && v.0.iter().filter(|t| mono_syms(t.0).contains(&sy[0])).count() == 1 {
                if best.map(|b| k.abs() < b.1.abs() || (k.abs() == b.1.abs() && sy[0] > b.0)).unwrap_or(true) {
                    best = Some((sy[0], *k));
                }
            }
        }
        if let Some((x, k)) = best {
            let rest = v.sub(&Poly::sym(x).scale(k));
            inv.push((x, k, Poly::sym(*s).sub(&rest)));
        }
    }
    for r in rows {
        if r.0.len() > 9 {
            continue;
        }
        let mut q = r.clone();
        let mut hit = false;
        // each inversion on its own, and all of them one after the other
        for (x, k, e) in &inv {
            if r.has_sym(*x) {
                if let Some(t) = subst_scaled(r, *x, *k, e) {
                    if !t.too_big() && t.0.len() <= 10 && !out.contains(&t) {
                        out.push(t);
                    }
                }
            }
            if q.has_sym(*x) {
                if let Some(t) = subst_scaled(&q, *x, *k, e) {
                    q = t;
                    hit = true;
                }
            }
        }
        if hit && !q.too_big() && q.0.len() <= 10 && !out.contains(&q) {
            out.push(q);
        }
    }
}

/// symbols occurring anywhere in the state outside its constraints
pub fn live_syms(st: &State, extra: &[Image]) -> HashSet<Sym> {
    let mut s: HashSet<Sym> = HashSet::new();
    let mut add = |p: &Poly| {
        for t in p.terms() {
            for x in mono_syms(t.0).iter() {
                s.insert(*x);
            }
        }
    };
    fn cond(c: &Cond, add: &mut dyn FnMut(&Poly)) {
        match c {
            Cond::Ge(p) | Cond::Eq(p) => add(p),
            Cond::Not(c) => cond(c, add),
            Cond::And(a, b) | Cond::Or(a, b) => {
                cond(a, add);
                cond(b, add)
            }
            _ => {}
        }
    }
    let mut val = |v: &Val, add: &mut dyn FnMut(&Poly)| match v {
        Val::Bool(c) => cond(c, add),
        v => {
            for p in comps(v) {
                add(&p)
            }
        }
    };
    for f in &st.frames {
        for l in &f.locals {
            for c in l.iter() {
                val(&c.val, &mut add);
            }
        }
    }
    for r in st.heap.values() {
        add(&r.size);
        for c in &r.cells {
            val(&c.val, &mut add);
        }
        if let Some(t) = &r.tmpl {
            for p in &t.rows {
                add(p);
            }
        }
        for (b, cs) in r.focus.iter().chain(r.memo.iter()) {
            add(b);
            for c in cs {
                val(&c.val, &mut add);
            }
        }
    }
    for i in extra {
        add(&i.width);
        add(&i.height);
        add(&i.stride);
        for p in [&i.w, &i.h, &i.s, &i.len] {
            add(p);
        }
        if let Some(d) = &i.depth {
            add(d);
        }
    }
    for e in st.ev.iter() {
        e.polys(&mut add);
    }
    s
}

impl<'p> Interp<'p> {
    /// drop heap regions nothing points to
    pub fn gc(&self, st: &mut State) {
        let mut seen: BTreeSet<u64> = BTreeSet::new();
        let mut work: Vec<u64> = vec![];
        fn regs(v: &Val, w: &mut Vec<u64>) {
            match v {
                Val::Ptr(p) => {
                    if let Reg::Heap(h) = p.reg {
                        w.push(h)
                    }
                }
                Val::Par(p) => par(p, w),
                _ => {}
            }
        }
        fn par(p: &ParIter, w: &mut Vec<u64>) {
            match p {
                ParIter::Chunks { ptr, .. } => {
                    if let Reg::Heap(h) = ptr.reg {
                        w.push(h)
                    }
                }
                ParIter::Zip(a, b) => {
                    par(a, w);
                    par(b, w)
                }
                ParIter::Enumerate(a) => par(a, w),
            }
        }
        for f in &st.frames {
            for l in &f.locals {
                for c in l.iter() {
                    regs(&c.val, &mut work);
                }
            }
        }
        for (i, r) in st.heap.iter() {
            if r.img.is_some() || r.name.starts_with("ghost") {
                work.push(*i);
            }
        }
        while let Some(h) = work.pop() {
            if seen.insert(h) {
                if let Some(r) = st.region(h) {
                    for c in &r.cells {
                        regs(&c.val, &mut work);
                    }
                    if let Some((_, cs)) = &r.focus {
                        for c in cs {
                            regs(&c.val, &mut work);
                        }
                    }
                }
            }
        }
        if st.heap.keys().any(|k| !seen.contains(k)) {
            Rc::make_mut(&mut st.heap).retain(|k, _| seen.contains(k));
        }
    }
    pub fn shrink(&self, st: &mut State, limit: usize) {
        if st.cons.rows.len() > limit {
            let l = live_syms(st, &self.images);
            st.cons.eliminate(&|s| !l.contains(&s));
        }
    }

    fn hard(&mut self, a: &State, b: &State) -> bool {
        if a.in_pool != b.in_pool || (!Rc::ptr_eq(&a.ev, &b.ev) && a.ev != b.ev) {
            return true;
        }
        let drv = self.driver();
        let cells_hard = |x: &Vec<Cell>, y: &Vec<Cell>, flag: bool| -> bool {
            for c in x {
                let Some(d) = y.iter().find(|d| d.off == c.off && d.sz == c.sz) else {
                    // different kinds of value in the same place
                    if y.iter().any(|d| d.off < c.off + c.sz && c.off < d.off + d.sz && (matches!(c.val, Val::Tag(_) | Val::Ptr(_)) || matches!(d.val, Val::Tag(_) | Val::Ptr(_)))) {
                        return true;
                    }
                    continue;
                };
                if c.val == d.val {
                    continue;
                }
                match (&c.val, &d.val) {
                    (Val::Tag(_), _) | (_, Val::Tag(_)) => return true,
                    (Val::Bool(Cond::K(_)), Val::Bool(Cond::K(_))) => {
                        if !flag {
                            return true;
                        }
                    }
                    (Val::Bool(_), Val::Bool(_)) => {
                        if !flag && drv {
                            return true;
                        }
                    }
                    (Val::Ptr(p), Val::Ptr(q)) => {
                        if p.reg != q.reg {
                            return true;
                        }
                    }
                    (Val::Ptr(_), _) | (_, Val::Ptr(_)) => return true,
                    _ => {}
                }
            }
            false
        };
        for d in 0..a.frames.len() {
            if Rc::ptr_eq(&a.frames[d], &b.frames[d]) {
                continue;
            }
            let f = a.frames[d].f;
            let n = a.frames[d].locals.len();
            let m: Option<Rc<FnMeta>> = if self.p.f(f).body.is_some() { Some(self.fn_meta(f)) } else { None };
            for l in 0..n {
                let (x, y) = (&a.frames[d].locals[l], &b.frames[d].locals[l]);
                if Rc::ptr_eq(x, y) {
                    continue;
                }
                let flag = m.as_ref().map(|m| m.dropflag.len() == n && m.dropflag[l]).unwrap_or(false);
                if cells_hard(x, y, flag) {
                    return true;
                }
            }
        }
        if a.part != b.part || self.kern && self.complete(a) != self.complete(b) {
            return true;
        }
        if !Rc::ptr_eq(&a.heap, &b.heap) {
            for (i, r) in a.heap.iter() {
                if let Some(q) = b.heap.get(i) {
                    if !Rc::ptr_eq(r, q) && cells_hard(&r.cells, &q.cells, false) {
                        return true;
                    }
                }
            }
        }
        false
    }

    /// every row of the destination is known to be written
    fn complete(&self, s: &State) -> bool {
        self.images.iter().filter(|im| im.is_dst && im.track).all(|im| self.ghost_get(s, im.ghost, 0) == im.height)
    }

    pub fn merge_list(&mut self, sts: Vec<State>) -> Vec<State> {
        if sts.len() <= 1 {
            return sts;
        }
        let mut sts = sts;
        for s in sts.iter_mut() {
            self.ghost_norm(s);
            self.flush_all(s);
            self.gc(s);
        }
        let mut groups: Vec<Vec<State>> = vec![];
        'n: for s in sts {
            for g in groups.iter_mut() {
                let h = {
                    let g0 = g[0].clone();
                    self.hard(&g0, &s)
                };
                if !h {
                    g.push(s);
                    continue 'n;
                }
            }
            groups.push(vec![s]);
        }
        if groups.len() > self.max_states {
            let all: Vec<State> = groups.into_iter().flatten().collect();
            groups = vec![];
            'm: for s in all {
                for g in groups.iter_mut() {
                    if g[0].ev == s.ev {
                        g.push(s);
                        continue 'm;
                    }
                }
                groups.push(vec![s]);
            }
        }
        groups.into_iter().map(|g| self.merge_group(g)).collect()
    }

    pub fn merge_group(&mut self, g: Vec<State>) -> State {
        if g.len() == 1 {
            return g.into_iter().next().unwrap();
        }
        let refs: Vec<&State> = g.iter().collect();
        let sh = join_shape(&refs);
        let mut out = sh.skel;
        // regions known to one state only stay when something still points to them
        for s in &g[1..] {
            if !Rc::ptr_eq(&s.heap, &out.heap) {
                for (i, r) in s.heap.iter() {
                    if !out.heap.contains_key(i) {
                        Rc::make_mut(&mut out.heap).insert(*i, r.clone());
                    }
                }
            }
        }
        let mut items: Vec<(Key, Vec<Poly>)> = vec![];
        for d in &sh.diffs {
            let cs: Vec<Vec<Poly>> = d.vals.iter().map(comps).collect();
            for j in 0..cs[0].len() {
                let v: Vec<Poly> = cs.iter().map(|c| c[j].clone()).collect();
                if v[1..].iter().any(|x| *x != v[0]) {
                    items.push(((d.pl, d.off, d.sz, j), v));
                }
            }
        }
        let weight = |v: &Vec<Poly>| -> i128 { v[1..].iter().map(|x| x.sub(&v[0]).0.iter().map(|t| t.1.abs().min(1 << 60)).sum::<i128>()).sum() };
        items.sort_by_key(|x| weight(&x.1));
        let mut classes: Vec<(Sym, Vec<Poly>)> = vec![];
        for (k, v) in items {
            let mut done = None;
            if self.kern {
                // one of the values that is right in every state
                let mut tried: Vec<&Poly> = vec![];
                for x in &v {
                    if !tried.contains(&x) {
                        tried.push(x);
                        if v.iter().enumerate().all(|(i, y)| x == y || g[i].cons.entails_eq(&x.sub(y))) {
                            done = Some(x.clone());
                            break;
                        }
                    }
                }
            }
            for (s, w) in if done.is_some() { &[][..] } else { &classes[..] } {
                if let Some(p) = relate(*s, w, &v) {
                    done = Some(p);
                    break;
                }
            }
            let p = match done {
                Some(p) => p,
                None => {
                    let (mut lo, mut hi) = (i128::MAX, i128::MIN);
                    for (i, x) in v.iter().enumerate() {
                        let (a, b) = g[i].cons.range(x);
                        lo = lo.min(a);
                        hi = hi.max(b);
                    }
                    let s = fresh("j", lo, hi);
                    classes.push((s, v));
                    Poly::sym(s)
                }
            };
            set_key(&mut out, &k, p);
        }
        let cons: Vec<&Cons> = g.iter().map(|s| &s.cons).collect();
        out.cons = join_cons(&cons, &classes);
        self.gc(&mut out);
        self.shrink(&mut out, 70);
        out
    }

    // ---------- loops ----------
    pub fn do_loop(&mut self, f: FnId, header: u32, st: State) -> RegionOut {
        let m = self.fn_meta(f);
        if m.irreducible {
            self.unmodelled(&st, "irreducible control flow");
            return RegionOut::default();
        }
        self.generic_loop(
            st,
            &mut |me: &mut Self, s: State| me.run_region(f, header, s, Some(header)),
            &mut |me: &mut Self, s: &mut State| {
                let m = me.fn_meta(f);
                me.kill_dead(s, &m, header)
            },
        )
    }

    pub fn generic_loop(&mut self, st: State, body: &mut dyn FnMut(&mut Self, State) -> RegionOut, tidy: &mut dyn FnMut(&mut Self, &mut State)) -> RegionOut {
        let part = st.part;
        let run = body;
        let body = &mut |me: &mut Self, s: State| {
            let mut o = run(me, s);
            if o.back.iter().any(|b| b.part != part) {
                let (ends, rest): (Vec<State>, Vec<State>) = o.back.into_iter().partition(|b| b.part != part);
                o.back = rest;
                for mut b in ends {
                    b.part = part;
                    let (x, obs) = me.buffered(&mut |me| run(me, b.clone()));
                    if x.back.is_empty() {
                        // it ends after the last piece
                        me.obs.extend(obs);
                        o.exits.extend(x.exits);
                        o.rets.extend(x.rets);
                    } else {
                        o.back.push(b);
                    }
                }
            }
            for s in o.exits.iter_mut().map(|e| &mut e.1).chain(o.rets.iter_mut()) {
                s.part = part;
            }
            o
        };
        let mut e0 = st;
        tidy(self, &mut e0);
        self.ghost_norm(&mut e0);
        self.flush_all(&mut e0);
        self.gc(&mut e0);
        if self.lanes.is_some() {
            if let Some(o) = self.unroll(&e0, 80, body, tidy) {
                return o;
            }
        }
        let mut acc = RegionOut::default();
        let mut peel = 0;
        let (skel, backs) = loop {
            let (o, obs) = self.buffered(&mut |me| body(me, e0.clone()));
            let backs = self.tidy_backs(o.back, tidy);
            if backs.is_empty() {
                self.obs.extend(obs);
                acc.exits.extend(o.exits);
                acc.rets.extend(o.rets);
                return acc;
            }
            if self.timed_out() {
                self.obs.extend(obs);
                return acc;
            }
            if self.lanes.is_some() {
                self.ln_known(&mut e0);
            }
            let mut refs: Vec<&State> = vec![&e0];
            refs.extend(backs.iter());
            let sh = loop_shape(&refs, 1);
            let filled = self.kern && backs.len() == 1 && self.complete(&backs[0]) && !self.complete(&e0);
            // a counter of things to leave out before the first item
            let used = self.kern && peel == 0 && backs.len() == 1 && sh.diffs.iter().any(|d| {
                let cs: Vec<Vec<Poly>> = d.vals.iter().map(comps).collect();
                (0..cs[0].len()).any(|j| !cs[0][j].is_zero() && cs[0][j].is_const().map(|k| k > 0).unwrap_or(true) && cs[1..].iter().all(|c| c[j].is_zero()))
            });
            if (sh.hard || filled || used) && peel < 2 && backs.len() == 1 {
                peel += 1;
                self.obs.extend(obs);
                acc.exits.extend(o.exits);
                acc.rets.extend(o.rets);
                e0 = backs.into_iter().next().unwrap();
                continue;
            }
            break (sh, backs);
        };
        // generalise
        struct Rec {
            e0: Poly,
            kind: Kind,
        }
        #[derive(Clone)]
        enum Kind {
            Affine(Poly),
            Fresh(Sym),
        }
        let n = fresh("n", 0, 1 << 62);
        let np = Poly::sym(n);
        let mut recs: BTreeMap<Key, Rec> = BTreeMap::new();
        let mark = sym_count();
        let mut sk = skel.skel;
        sk.cons = e0.cons.clone();
        let old_syms: HashSet<Sym> = {
            let mut s = live_syms(&e0, &self.images);
            for r in e0.cons.rows.iter() {
                s.extend(r.syms());
            }
            s
        };
        let _ = mark;
        for d in &skel.diffs {
            let cs: Vec<Vec<Poly>> = d.vals.iter().map(comps).collect();
            for j in 0..cs[0].len() {
                let v: Vec<&Poly> = cs.iter().map(|c| &c[j]).collect();
                if v[1..].iter().all(|x| *x == v[0]) {
                    continue;
                }
                let del = v[1].sub(v[0]);
                let aff = v[2..].iter().all(|x| x.sub(v[0]) == del) && del.syms().iter().all(|s| old_syms.contains(s));
                let kind = if aff { Kind::Affine(del) } else { Kind::Fresh(fresh("i", -(1 << 66), 1 << 66)) };
                recs.insert((d.pl, d.off, d.sz, j), Rec { e0: v[0].clone(), kind });
            }
        }
        if self.trace {
            for (k, r) in &recs {
                eprintln!("   rec {:?} {} kind {}", k, r.e0.show(), match &r.kind { Kind::Affine(d) => format!("affine {}", d.show()), Kind::Fresh(_) => "fresh".into() });
            }
        }
        let mut backs = backs;
        let mut inv: Vec<Poly> = vec![];
        let mut rejected: HashSet<Poly> = HashSet::new();
        let seed = |recs: &BTreeMap<Key, Rec>, rejected: &HashSet<Poly>, inv: &mut Vec<Poly>| {
            for (k, r) in recs.iter() {
                let size = k.2.max(1);
                let s = match &r.kind {
                    Kind::Fresh(s) => Some(Poly::sym(*s)),
                    Kind::Affine(d) => d.mul(&Poly::sym(n)).map(|x| r.e0.add(&x)),
                };
                if let Some(s) = s {
                    let b = (size.min(8) * 8) as u32;
                    let (lo, hi) = (1i128 << (b - 1), (1i128 << b) - 1);
                    let cs = match &r.kind {
                        Kind::Fresh(_) => {
                            let mut v = vec![s.sub(&r.e0), r.e0.sub(&s)];
                            if e0.cons.range(&r.e0).0 < 0 {
                                v.extend([s.addc(lo), s.neg().addc(lo - 1)]);
                            } else {
                                v.extend([s.clone(), s.neg().addc(hi)]);
                            }
                            v
                        }
                        // decreasing values
                        Kind::Affine(d) => {
                            if d.terms().iter().any(|t| t.1 < 0) || d.konst() < 0 { vec![s.clone()] } else { vec![] }
                        }
                    };
                    for c in cs {
                        let c = super::num::normalise(&c);
                        if c.is_const().is_some() {
                            continue;
                        }
                        if !rejected.contains(&c) && !inv.contains(&c) {
                            inv.push(c);
                        }
                    }
                }
            }
        };
        seed(&recs, &rejected, &mut inv);
        {
            // initially true?
            let at0: Vec<(Sym, Poly)> = std::iter::once((n, Poly::c(0))).chain(recs.values().filter_map(|r| if let Kind::Fresh(s) = r.kind { Some((s, r.e0.clone())) } else { None })).collect();
            inv.retain(|c| subst_all(c, &at0).map(|q| e0.cons.entails(&q)).unwrap_or(false));
        }
        let mut first = true;
        for iter in 0..14 {
            let mut g = sk.clone();
            for (k, r) in &recs {
                let p = match &r.kind {
                    Kind::Affine(d) => match d.mul(&np) {
                        Some(x) => r.e0.add(&x),
                        None => Poly::sym(fresh("i", -(1 << 66), 1 << 66)),
                    },
                    Kind::Fresh(s) => Poly::sym(*s),
                };
                set_key(&mut g, k, p);
            }
            for c in &inv {
                g.cons.add_ge(c);
            }
            let neq0 = self.neqs.len();
            let hint0 = self.hints.len();
            self.loop_syms.push(n);
            let (o, obs) = self.buffered(&mut |me| body(me, g.clone()));
            self.loop_syms.pop();
            if self.timed_out() {
                self.obs.extend(obs);
                return acc;
            }
            backs = self.tidy_backs(o.back, tidy);
            let neqs: Vec<Poly> = self.neqs.split_off(neq0);
            let hints: Vec<Poly> = self.hints[hint0..].to_vec();
            if self.hints.len() > 4000 {
                self.hints.truncate(hint0);
            }
            let mut changed = false;
            let mut why = String::new();
            // shape and increments
            let mut refs: Vec<&State> = vec![&g];
            refs.extend(backs.iter());
            let sh = loop_shape(&refs, 2);
            if sh.lost {
                changed = true;
                why.push_str(" shape");
                let mut s2 = sh.skel.clone();
                s2.cons = e0.cons.clone();
                for (k, r) in &recs {
                    set_key(&mut s2, k, r.e0.clone());
                }
                // values of cells that turned numeric keep their initial value
                sk = s2;
                recs.retain(|k, _| get_key(&sk, k).is_some());
            }
            for d in &sh.diffs {
                let cs: Vec<Vec<Poly>> = d.vals.iter().map(comps).collect();
                for j in 0..cs[0].len() {
                    let key = (d.pl, d.off, d.sz, j);
                    let gv = &cs[0][j];
                    let bv: Vec<&Poly> = cs[1..].iter().map(|c| &c[j]).collect();
                    match recs.get(&key).map(|r| r.kind.clone()) {
                        Some(Kind::Fresh(_)) => {}
                        Some(Kind::Affine(del)) => {
                            let want = gv.add(&del);
                            let ok = bv.iter().enumerate().all(|(i, b)| **b == want || backs[i].cons.entails_eq(&b.sub(&want)));
                            if !ok {
                                let s = fresh("i", -(1 << 66), 1 << 66);
                                recs.get_mut(&key).unwrap().kind = Kind::Fresh(s);
                                changed = true;
                                why.push_str(" delta");
                            }
                        }
                        None => {
                            if bv.iter().all(|b| *b == gv) {
                                continue;
                            }
                            let del = bv[0].sub(gv);
                            let aff = bv.iter().all(|b| b.sub(gv) == del) && del.syms().iter().all(|s| old_syms.contains(s));
                            // an equal value in disguise
                            if bv.iter().enumerate().all(|(i, b)| backs[i].cons.entails_eq(&b.sub(gv))) {
                                continue;
                            }
                            let kind = if aff { Kind::Affine(del) } else { Kind::Fresh(fresh("i", -(1 << 66), 1 << 66)) };
                            recs.insert(key, Rec { e0: gv.clone(), kind });
                            changed = true;
                            why.push_str(" new");
                        }
                    }
                }
            }
            // affine cells that did not change in this run
            let mut deg = vec![];
            if !backs.is_empty() {
                for (k, r) in &recs {
                    if let Kind::Affine(del) = &r.kind {
                        if !sh.diffs.iter().any(|d| d.pl == k.0 && d.off == k.1 && d.sz == k.2) {
                            if let Some(gv) = get_key(&g, k) {
                                let ok = backs.iter().all(|b| get_key(b, k).map(|x| x == gv.add(del)).unwrap_or(false));
                                if !ok {
                                    deg.push(*k);
                                }
                            }
                        }
                    }
                }
            }
            let syms: Vec<(Sym, Key, Poly)> = recs.iter().filter_map(|(k, r)| if let Kind::Fresh(s) = r.kind { Some((s, *k, r.e0.clone())) } else { None }).collect();
            let at0: Vec<(Sym, Poly)> = std::iter::once((n, Poly::c(0))).chain(syms.iter().map(|x| (x.0, x.2.clone()))).collect();
            let next: Vec<Vec<(Sym, Poly)>> = backs
                .iter()
                .map(|b| std::iter::once((n, np.addc(1))).chain(syms.iter().filter_map(|x| get_key(b, &x.1).map(|v| (x.0, v)))).collect())
                .collect();
            // inductive?
            let mut keep = vec![];
            for c in std::mem::take(&mut inv) {
                let ok = next.iter().enumerate().all(|(i, m)| m.len() == syms.len() + 1 && subst_all(&c, m).map(|q| backs[i].cons.entails(&q)).unwrap_or(false));
                if ok {
                    keep.push(c);
                } else {
                    rejected.insert(c);
                    changed = true;
                    why.push_str(" inv");
                }
            }
            inv = keep;
            // new candidates
            let mut added = 0;
            if iter < 8 {
                let mut cands: Vec<Poly> = vec![];
                for (i, b) in backs.iter().enumerate() {
                    let fresh_rows: Vec<Poly> = b.cons.rows.iter().filter(|r| !e0.cons.rows.contains(r) || !rejected.contains(r)).filter(|r| !e0.cons.rows.contains(r)).cloned().collect();
                    cand_rows(&fresh_rows, &next[i], &mut cands);
                    // a fact about the value before the step is a candidate itself
                    for r in &fresh_rows {
                        if (r.has_sym(n) || syms.iter().any(|s| r.has_sym(s.0))) && r.0.len() <= 6 && !cands.contains(r) {
                            cands.push(r.clone());
                        }
                    }
                    let mut ne = vec![];
                    for p in &neqs {
                        if p.has_sym(n) || syms.iter().any(|s| p.has_sym(s.0)) {
                            ne.push(p.clone());
                            ne.push(p.neg());
                        }
                    }
                    for p in ne.into_iter().chain(hints.iter().cloned()) {
                        if !cands.contains(&p) {
                            cands.push(p);
                        }
                    }
                }
                let mut before: Vec<Poly> = vec![];
                seed(&recs, &rejected, &mut before);
                cands.extend(before);
                let optimistic: Vec<Poly> = neqs.iter().flat_map(|p| [super::num::normalise(p), super::num::normalise(&p.neg())]).chain(hints.iter().map(super::num::normalise)).collect();
                for c in cands {
                    let c = super::num::normalise(&c);
                    if c.is_const().is_some() || rejected.contains(&c) || inv.contains(&c) || !(c.has_sym(n) || syms.iter().any(|s| c.has_sym(s.0))) {
                        continue;
                    }
                    // only loop symbols and symbols of the entry state
                    if !c.syms().iter().all(|s| *s == n || old_syms.contains(s) || syms.iter().any(|x| x.0 == *s)) {
                        continue;
                    }
                    if g.cons.entails_quick(&c) {
                        continue;
                    }
                    let ok = subst_all(&c, &at0).map(|q| e0.cons.entails(&q)).unwrap_or(false);
                    if !ok || added > 60 || g.cons.entails(&c) {
                        continue;
                    }
                    // true after the step just taken (assuming it before the step)?
                    let ok = optimistic.contains(&c) || next.iter().enumerate().all(|(i, m)| {
                        subst_all(&c, m)
                            .map(|q| {
                                backs[i].cons.entails(&q) || {
                                    let mut c2 = backs[i].cons.clone();
                                    c2.add_ge(&c);
                                    c2.entails(&q)
                                }
                            })
                            .unwrap_or(false)
                    });
                    if ok {
                        inv.push(c);
                        added += 1;
                        changed = true;
                        why.push_str(" cand");
                    } else {
                        rejected.insert(c);
                    }
                }
            }
            // the facts just found may be what makes them change
            if !deg.is_empty() {
                changed = true;
                if added == 0 || iter > 3 {
                    for k in deg {
                        recs.get_mut(&k).unwrap().kind = Kind::Fresh(fresh("i", -(1 << 66), 1 << 66));
                    }
                    why.push_str(" still");
                }
            }
            if self.trace {
                eprintln!("{:indent$}loop iter {iter} recs={} inv={} backs={} exits={} changed={why} first={first}", "", recs.len(), inv.len(), backs.len(), o.exits.len(), indent = self.stack.len());
            }
            first = false;
            if !changed {
                self.obs.extend(obs);
                acc.exits.extend(o.exits);
                acc.rets.extend(o.rets);
                for (_, s) in acc.exits.iter_mut() {
                    self.shrink(s, 60);
                }
                return acc;
            }
        }
        self.unmodelled(&e0, "loop invariant did not stabilise");
        acc
    }

    fn tidy_backs(&mut self, backs: Vec<State>, tidy: &mut dyn FnMut(&mut Self, &mut State)) -> Vec<State> {
        let mut v = vec![];
        for mut b in backs {
            if b.cons.is_bottom() {
                continue;
            }
            tidy(self, &mut b);
            self.ghost_norm(&mut b);
            self.flush_all(&mut b);
            self.gc(&mut b);
            v.push(b);
        }
        self.merge_list(v)
    }
    /// a loop whose number of rounds is a small constant, round by round
    fn unroll(&mut self, e0: &State, rounds: usize, body: &mut dyn FnMut(&mut Self, State) -> RegionOut, tidy: &mut dyn FnMut(&mut Self, &mut State)) -> Option<RegionOut> {
        let mut acc = RegionOut::default();
        let mut cur = e0.clone();
        let mut all = vec![];
        for _ in 0..rounds {
            let (o, obs) = self.buffered(&mut |me| body(me, cur.clone()));
            if self.timed_out() {
                return None;
            }
            all.extend(obs);
            let mut backs = self.tidy_backs(o.back, tidy);
            if backs.is_empty() {
                acc.exits.extend(o.exits);
                acc.rets.extend(o.rets);
                self.obs.extend(all);
                return Some(acc);
            }
            if backs.len() != 1 || !o.exits.is_empty() || !o.rets.is_empty() {
                return None;
            }
            cur = backs.pop()?;
            self.gc(&mut cur);
        }
        None
    }
    fn buffered(&mut self, f: &mut dyn FnMut(&mut Self) -> RegionOut) -> (RegionOut, Vec<Ob>) {
        let saved = std::mem::take(&mut self.obs);
        let o = f(self);
        let mine = std::mem::replace(&mut self.obs, saved);
        (o, mine)
    }
}

/// v as an affine function of the class symbol, if it is one in every state
fn relate(s: Sym, w: &[Poly], v: &[Poly]) -> Option<Poly> {
    let i = (1..w.len()).find(|i| w[*i] != w[0])?;
    let dw = w[i].sub(&w[0]);
    let dv = v[i].sub(&v[0]);
    let lead = dw.0.last()?;
    let c = dv.coef(lead.0);
    if c == 0 || c % lead.1 != 0 {
        return None;
    }
    let a = c / lead.1;
    let base = v[0].sub(&w[0].scale(a));
    for k in 1..w.len() {
        if v[k].sub(&w[k].scale(a)) != base {
            return None;
        }
    }
    Some(Poly::sym(s).scale(a).add(&base))
}

/// facts that hold in all states; `classes` are new symbols with their value in each state
pub fn join_cons(cons: &[&Cons], classes: &[(Sym, Vec<Poly>)]) -> Cons {
    let mut out = Cons::new();
    let live: Vec<usize> = (0..cons.len()).filter(|i| !cons[*i].bottom).collect();
    if live.is_empty() {
        out.bottom = true;
        return out;
    }
    // intervals
    let c0 = cons[live[0]];
    let mut iv = std::collections::HashMap::new();
    for (m, _) in c0.iv.iter() {
        let (mut lo, mut hi) = c0.range_mono(*m);
        for i in &live[1..] {
            let (a, b) = cons[*i].range_mono(*m);
            lo = lo.min(a);
            hi = hi.max(b);
        }
        iv.insert(*m, (lo, hi));
    }
    out.iv = Rc::new(iv);
    let mut rows: Vec<Poly> = vec![];
    let mut seen: HashSet<Poly> = HashSet::new();
    let sets: Vec<HashSet<&Poly>> = cons.iter().map(|c| c.rows.iter().collect()).collect();
    for i in &live {
        for r in cons[*i].rows.iter() {
            if !seen.insert(r.clone()) {
                continue;
            }
            let ok = live.iter().all(|k| {
                sets[*k].contains(r) || {
                    let neg = super::num::normalise(&r.neg().addc(-1));
                    // the opposite is known there
                    if sets[*k].contains(&neg) { false } else { cons[*k].entails(r) }
                }
            });
            if ok {
                rows.push(r.clone());
            }
        }
    }
    out.rows = Rc::new(rows);
    if !classes.is_empty() {
        let mut cands: Vec<Poly> = vec![];
        for i in &live {
            let vals: Vec<(Sym, Poly)> = classes.iter().map(|c| (c.0, c.1[*i].clone())).collect();
            cand_rows(&cons[*i].rows, &vals, &mut cands);
            for (s, v) in &vals {
                let s = Poly::sym(*s);
                cands.push(s.sub(v));
                cands.push(v.sub(&s));
            }
        }
        let maps: Vec<Vec<(Sym, Poly)>> = (0..cons.len()).map(|i| classes.iter().map(|c| (c.0, c.1[i].clone())).collect()).collect();
        let mut n = 0;
        for c in cands {
            let c = super::num::normalise(&c);
            if c.is_const().is_some() || !seen.insert(c.clone()) || n > 80 || !classes.iter().any(|k| c.has_sym(k.0)) {
                continue;
            }
            if live.iter().all(|i| subst_all(&c, &maps[*i]).map(|q| cons[*i].entails(&q)).unwrap_or(false)) {
                out.add_ge(&c);
                n += 1;
            }
        }
    }
    out
}
