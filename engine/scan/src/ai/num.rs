//! Conjunctions of linear (over monomials) integer inequalities with an entailment test based on
//! Farkas combinations. All positive answers are verified exactly.
use super::poly::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub const INF: i128 = 1 << 110;

#[derive(Clone)]
pub struct Cons {
    pub rows: Rc<Vec<Poly>>,
    pub iv: Rc<HashMap<Mono, (i128, i128)>>,
    pub bottom: bool,
    pub ver: u64,
}

thread_local! {
    static VER: Cell<u64> = Cell::new(1);
    static CACHE: RefCell<HashMap<(u64, Poly), bool>> = RefCell::new(HashMap::new());
    pub static STAT: RefCell<[u64; 8]> = RefCell::new([0; 8]);
}
fn next_ver() -> u64 {
    VER.with(|v| {
        let x = v.get() + 1;
        v.set(x);
        x
    })
}
pub fn reset_cache() {
    CACHE.with(|c| c.borrow_mut().clear());
}
fn stat(i: usize) {
    STAT.with(|s| s.borrow_mut()[i] += 1);
}

fn cap(x: i128) -> i128 {
    x.clamp(-INF, INF)
}
fn mulc(a: i128, b: i128) -> i128 {
    match a.checked_mul(b) {
        Some(x) => cap(x),
        None => if (a < 0) != (b < 0) { -INF } else { INF },
    }
}

fn floor_div(a: i128, b: i128) -> i128 {
    let q = a / b;
    if a % b != 0 && ((a < 0) != (b < 0)) { q - 1 } else { q }
}

/// divide by the gcd of the variable part, rounding the constant down
pub fn normalise(p: &Poly) -> Poly {
    let g = p.gcd_terms();
    if g <= 1 {
        return p.clone();
    }
    let k = floor_div(p.konst(), g);
    let mut v = Vec::with_capacity(p.0.len());
    if k != 0 {
        v.push((ONE, k));
    }
    v.extend(p.terms().iter().map(|x| (x.0, x.1 / g)));
    Poly::from_vec(v)
}

thread_local! {
    static DEFS: std::cell::RefCell<HashMap<u64, Rc<Vec<(Sym, Poly)>>>> = std::cell::RefCell::new(HashMap::new());
}
thread_local! {
    static ALIAS: RefCell<HashMap<u64, Option<Rc<(Cons, Vec<(Sym, Poly)>)>>>> = RefCell::new(HashMap::new());
}
pub fn apply_defs(p: &Poly, defs: &[(Sym, Poly)]) -> Option<Poly> {
    let mut q = p.clone();
    for (s, e) in defs {
        if q.has_sym(*s) {
            q = q.subst(*s, e)?;
        }
    }
    if q.too_big() { None } else { Some(q) }
}
impl Cons {
    pub fn new() -> Cons {
        Cons { rows: Rc::new(vec![]), iv: Rc::new(HashMap::new()), bottom: false, ver: next_ver() }
    }
    pub fn range_mono(&self, m: Mono) -> (i128, i128) {
        if m == ONE {
            return (1, 1);
        }
        let own = self.iv.get(&m).copied().unwrap_or((-INF, INF));
        let syms = mono_syms(m);
        if syms.len() == 1 {
            let (l, h) = sym_range(syms[0]);
            return (own.0.max(l), own.1.min(h));
        }
        let (mut lo, mut hi) = (1i128, 1i128);
        for s in syms.iter() {
            let (a, b) = self.range_mono(mono(vec![*s]));
            let c = [mulc(lo, a), mulc(lo, b), mulc(hi, a), mulc(hi, b)];
            lo = *c.iter().min().unwrap();
            hi = *c.iter().max().unwrap();
        }
        if syms.len() == 2 && syms[0] == syms[1] {
            lo = lo.max(0);
        }
        (own.0.max(lo), own.1.min(hi))
    }
    pub fn range(&self, p: &Poly) -> (i128, i128) {
        let (mut lo, mut hi) = (0i128, 0i128);
        for (m, k) in p.0.iter() {
            let (a, b) = self.range_mono(*m);
            let (x, y) = (mulc(a, *k), mulc(b, *k));
            let (x, y) = (x.min(y), x.max(y));
            lo = if x <= -INF || lo <= -INF { -INF } else { cap(lo + x) };
            hi = if y >= INF || hi >= INF { INF } else { cap(hi + y) };
        }
        (lo, hi)
    }
    pub fn is_bottom(&self) -> bool {
        self.bottom
    }

    /// assume p >= 0
    pub fn add_ge(&mut self, p: &Poly) {
        self.add_ge_depth(p, 0)
    }
    fn add_ge_depth(&mut self, p: &Poly, depth: u32) {
        if self.bottom {
            return;
        }
        let p = normalise(p);
        if let Some(k) = p.is_const() {
            if k < 0 {
                self.bottom = true;
                self.ver = next_ver();
            }
            return;
        }
        let (lo, hi) = self.range(&p);
        if hi < 0 {
            self.bottom = true;
            self.ver = next_ver();
            return;
        }
        if p.too_big() {
            return;
        }
        // stronger or equal row known?
        for r in self.rows.iter() {
            if r.terms() == p.terms() {
                if r.konst() <= p.konst() {
                    return;
                }
            }
        }
        // contradicts a row
        let np = p.neg();
        if self.rows.iter().any(|r| r.terms() == np.terms() && r.konst() + p.konst() < 0) {
            self.bottom = true;
            self.ver = next_ver();
            return;
        }
        self.ver = next_ver();
        let keep = lo < 0;
        if keep {
            let rows = Rc::make_mut(&mut self.rows);
            rows.retain(|r| !(r.terms() == p.terms()));
            rows.push(p.clone());
        }
        self.tighten(&p, 0);
        if self.bottom || depth > 2 {
            return;
        }
        self.factor(&p, depth);
        let defs = self.defs();
        if !defs.is_empty() {
            if let Some(q) = apply_defs(&p, &defs) {
                if q != p {
                    self.factor(&q, depth);
                }
            }
            // a new equality
            let np = p.neg();
            if keep && p.0.len() <= 4 && self.rows.iter().any(|r| *r == np) {
                let rows = self.rows.clone();
                for r in rows.iter() {
                    if self.bottom {
                        return;
                    }
                    if r.degree() >= 2 || defs.iter().any(|d| d.1.degree() >= 2 && r.has_sym(d.0)) {
                        if let Some(q) = apply_defs(r, &defs) {
                            if q != *r {
                                self.factor(&q, depth + 1);
                            }
                        }
                    }
                }
            }
        }
    }
    /// equalities, solved for one symbol each
    pub fn defs(&self) -> Rc<Vec<(Sym, Poly)>> {
        if let Some(d) = DEFS.with(|c| c.borrow().get(&self.ver).cloned()) {
            return d;
        }
        let mut out: Vec<(Sym, Poly)> = vec![];
        for (i, r) in self.rows.iter().enumerate() {
            if r.0.len() > 5 || out.len() >= 16 {
                continue;
            }
            let n = r.neg();
            if !self.rows[i + 1..].iter().any(|x| *x == n) {
                continue;
            }
            let Some(r) = apply_defs(r, &out) else { continue };
            let mut best: Option<(Sym, i128)> = None;
            for (m, k) in r.0.iter() {
                let sy = mono_syms(*m);
                if sy.len() == 1 && k.abs() == 1 && !r.0.iter().any(|t| t.0 != *m && mono_syms(t.0).contains(&sy[0])) {
                    if best.map(|b| sy[0] > b.0).unwrap_or(true) {
                        best = Some((sy[0], *k));
                    }
                }
            }
            if let Some((s, k)) = best {
                let e = if k > 0 { Poly::sym(s).sub(&r) } else { r.add(&Poly::sym(s)) };
                // keep the table in solved form
                for d in out.iter_mut() {
                    if d.1.has_sym(s) {
                        if let Some(x) = d.1.subst(s, &e) {
                            d.1 = x;
                        }
                    }
                }
                out.push((s, e));
            }
        }
        let d = Rc::new(out);
        DEFS.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() > 50_000 {
                c.clear();
            }
            c.insert(self.ver, d.clone())
        });
        d
    }
    /// c*e + rest >= 0 with rest < c, c >= 1   ==>  e >= 0
    fn factor(&mut self, p: &Poly, depth: u32) {
        if depth > 3 || self.bottom || p.degree() < 2 {
            return;
        }
        {
            let mut cands: Vec<Sym> = vec![];
            for t in p.terms() {
                let s = mono_syms(t.0);
                if s.len() >= 2 {
                    for x in s.iter() {
                        if !cands.contains(x) {
                            cands.push(*x);
                        }
                    }
                }
            }
            for c in cands {
                let cm = mono(vec![c]);
                if self.range_mono(cm).0 < 1 {
                    continue;
                }
                let mut e = Poly::c(0);
                let mut rest = Poly::c(0);
                for (m, k) in p.0.iter() {
                    let t = Poly::from_vec(vec![(*m, *k)]);
                    match mono_div(*m, cm) {
                        Some(d) => e = e.add(&Poly::from_vec(vec![(d, *k)])),
                        None => rest = rest.add(&t),
                    }
                }
                if e.is_const().is_some() {
                    continue;
                }
                // c*g*e' with gcd g:  c*g*e' >= -rest > -c*g
                // (a constant part of e joins the rest)
                for kk in [0, e.konst()] {
                    if kk == 0 && e.konst() == 0 && false {
                        continue;
                    }
                    let e1 = e.addc(-kk);
                    if e1.is_const().is_some() {
                        continue;
                    }
                    let rest1 = rest.add(&Poly::mono(cm).scale(kk));
                    let g = e1.gcd_terms().max(1);
                    let g = if e1.konst() % g == 0 { g } else { 1 };
                    let lim = Poly::mono(cm).scale(g).addc(-1).sub(&rest1);
                    if self.entails_quick(&lim) || self.entails_depth(&lim, 1) {
                        // a negative rest: c*e is positive
                        let strict = self.entails_quick(&rest1.neg().addc(-1));
                        self.add_ge_depth(&if strict { e1.addc(-1) } else { e1 }, depth + 1);
                        break;
                    }
                    if kk == e.konst() {
                        break;
                    }
                }
            }
        }
    }
    pub fn add_eq(&mut self, p: &Poly) {
        self.add_ge(p);
        self.add_ge(&p.neg());
    }

    fn tighten(&mut self, p: &Poly, depth: u32) {
        let n = p.0.len();
        if n > 10 {
            return;
        }
        let mut changed = vec![];
        for i in 0..n {
            let (m, k) = p.0[i];
            if m == ONE {
                continue;
            }
            // k*m >= -(rest max)
            let mut rest_hi = 0i128;
            for (j, (m2, k2)) in p.0.iter().enumerate() {
                if j != i {
                    let (a, b) = self.range_mono(*m2);
                    let y = mulc(a, *k2).max(mulc(b, *k2));
                    rest_hi = if y >= INF || rest_hi >= INF { INF } else { cap(rest_hi + y) };
                }
            }
            if rest_hi >= INF {
                continue;
            }
            let (lo, hi) = self.range_mono(m);
            let (mut nlo, mut nhi) = (lo, hi);
            if k > 0 {
                nlo = nlo.max(-floor_div(rest_hi, k));
            } else {
                nhi = nhi.min(floor_div(rest_hi, -k));
            }
            if nlo > nhi {
                self.bottom = true;
                return;
            }
            if nlo > lo || nhi < hi {
                Rc::make_mut(&mut self.iv).insert(m, (nlo, nhi));
                changed.push(m);
            }
        }
        if depth < 2 && !changed.is_empty() {
            let rows = self.rows.clone();
            for r in rows.iter() {
                if r.0.len() <= 4 && r != p && r.terms().iter().any(|t| changed.contains(&t.0)) {
                    self.tighten(r, depth + 1);
                    if self.bottom {
                        return;
                    }
                }
            }
        }
    }

    /// the same facts with symbols that are known equal written as one
    fn aliased(&self) -> Option<Rc<(Cons, Vec<(Sym, Poly)>)>> {
        if let Some(d) = ALIAS.with(|c| c.borrow().get(&self.ver).cloned()) {
            return d;
        }
        let mut al: Vec<(Sym, Poly)> = vec![];
        for (i, r) in self.rows.iter().enumerate() {
            if r.konst() != 0 || r.0.len() != 2 || r.0[0].1 != -r.0[1].1 || r.degree() != 1 || al.len() >= 8 {
                continue;
            }
            let n = r.neg();
            if !self.rows[i + 1..].contains(&n) {
                continue;
            }
            let Some(r) = apply_defs(r, &al) else { continue };
            if r.0.len() != 2 {
                continue;
            }
            let (a, b) = (mono_syms(r.0[0].0)[0], mono_syms(r.0[1].0)[0]);
            let (from, to) = if a > b { (a, b) } else { (b, a) };
            for d in al.iter_mut() {
                if let Some(x) = d.1.subst(from, &Poly::sym(to)) {
                    d.1 = x;
                }
            }
            al.push((from, Poly::sym(to)));
        }
        let out = if al.is_empty() {
            None
        } else {
            let mut rows: Vec<Poly> = vec![];
            for r in self.rows.iter() {
                let Some(q) = apply_defs(r, &al) else { continue };
                if q.is_const().is_none() && !rows.contains(&q) {
                    rows.push(q);
                }
            }
            let mut iv: HashMap<Mono, (i128, i128)> = HashMap::new();
            for (m, (lo, hi)) in self.iv.iter() {
                let Some(q) = apply_defs(&Poly::mono(*m), &al) else { continue };
                if q.0.len() == 1 && q.0[0].1 == 1 {
                    let e = iv.entry(q.0[0].0).or_insert((*lo, *hi));
                    *e = (e.0.max(*lo), e.1.min(*hi));
                }
            }
            Some(Rc::new((Cons { rows: Rc::new(rows), iv: Rc::new(iv), bottom: false, ver: next_ver() }, al)))
        };
        ALIAS.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() > 20_000 {
                c.clear();
            }
            c.insert(self.ver, out.clone())
        });
        out
    }
    pub fn entails_quick(&self, p: &Poly) -> bool {
        if self.bottom {
            return true;
        }
        if self.range(p).0 >= 0 {
            return true;
        }
        let q = normalise(p);
        for r in self.rows.iter() {
            if r.terms() == q.terms() && r.konst() <= q.konst() {
                return true;
            }
        }
        false
    }

    /// is p >= 0 implied?
    pub fn entails(&self, p: &Poly) -> bool {
        self.entails_depth(p, 0)
    }
    fn entails_depth(&self, p: &Poly, depth: u32) -> bool {
        stat(0);
        if self.entails_quick(p) {
            return true;
        }
        if p.is_const().is_some() || p.too_big() {
            return false;
        }
        let p = normalise(p);
        if self.range(&p).1 < 0 {
            return false;
        }
        let key = (self.ver, p.clone());
        if let Some(r) = CACHE.with(|c| c.borrow().get(&key).copied()) {
            return r;
        }
        stat(1);
        let mut r = self.lp(&p, if depth == 0 { 3 } else { 1 });
        if !r && depth == 0 {
            let defs = self.defs();
            if !defs.is_empty() {
                if let Some(q) = apply_defs(&p, &defs) {
                    if q != p {
                        let q = normalise(&q);
                        r = self.entails_quick(&q) || self.lp(&q, 3);
                    }
                }
            }
        }
        if !r && depth == 0 {
            r = self.lp_linear(&p);
        }
        if !r && depth == 0 && p.degree() >= 2 {
            if let Some(a) = self.aliased() {
                if let Some(q) = apply_defs(&p, &a.1) {
                    let q = normalise(&q);
                    r = a.0.entails_quick(&q) || a.0.lp(&q, 3);
                }
            }
        }
        if r {
            stat(2);
        }
        CACHE.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() > 400_000 {
                c.clear();
            }
            c.insert(key, r);
        });
        r
    }
    pub fn entails_eq(&self, p: &Poly) -> bool {
        if let Some(k) = p.is_const() {
            return k == 0 || self.bottom;
        }
        self.entails(p) && self.entails(&p.neg())
    }

    /// without products, along longer chains of rows
    fn lp_linear(&self, goal: &Poly) -> bool {
        let mut set: Vec<Mono> = goal.terms().iter().map(|x| x.0).collect();
        let mut sel: Vec<Poly> = vec![];
        let mut used = vec![false; self.rows.len()];
        for _ in 0..6 {
            let cur = set.clone();
            for (i, r) in self.rows.iter().enumerate() {
                if !used[i] && r.0.len() <= 4 && sel.len() < 60 && r.terms().iter().any(|t| cur.contains(&t.0)) {
                    used[i] = true;
                    sel.push(r.clone());
                    for t in r.terms() {
                        if !set.contains(&t.0) {
                            set.push(t.0);
                        }
                    }
                }
            }
        }
        for m in &set {
            let (lo, hi) = self.range_mono(*m);
            if lo.abs() < 1 << 40 {
                sel.push(Poly::mono(*m).addc(-lo));
            }
            if hi.abs() < 1 << 40 {
                sel.push(Poly::mono(*m).neg().addc(hi));
            }
        }
        farkas(goal, &sel, &set)
    }

    /// products of short rows with the other factors of the monomials of the goal, and short rows
    fn lp_tiny(&self, goal: &Poly, rounds: u32) -> bool {
        let mut set: Vec<Mono> = goal.terms().iter().map(|x| x.0).collect();
        let mut sel: Vec<Poly> = vec![];
        let put = |q: Poly, sel: &mut Vec<Poly>, set: &mut Vec<Mono>| {
            if sel.len() < 80 && !sel.contains(&q) {
                for t in q.terms() {
                    if !set.contains(&t.0) {
                        set.push(t.0);
                    }
                }
                sel.push(q);
            }
        };
        let mut done: Vec<Mono> = vec![];
        for _ in 0..rounds {
        for m in set.clone() {
            let sy = mono_syms(m);
            if sy.len() < 2 || done.contains(&m) {
                continue;
            }
            done.push(m);
            for (i, x) in sy.iter().enumerate() {
                if sy[..i].contains(x) {
                    continue;
                }
                let xm = mono(vec![*x]);
                let rest = mono_div(m, xm).unwrap();
                if self.range_mono(rest).0 < 0 {
                    continue;
                }
                let rp = Poly::mono(rest);
                let mut n = 0;
                for r in self.rows.iter() {
                    if r.0.len() <= 3 && r.coef(xm) != 0 && r.degree() == 1 && r.konst().abs() < 1 << 40 && n < 10 {
                        if let Some(q) = r.mul(&rp) {
                            n += 1;
                            put(q, &mut sel, &mut set);
                        }
                    }
                }
                let lo = self.range_mono(xm).0;
                if lo.abs() < 1 << 40 {
                    if let Some(q) = Poly::mono(xm).addc(-lo).mul(&rp) {
                        put(q, &mut sel, &mut set);
                    }
                }
            }
        }
        }
        if sel.is_empty() {
            return false;
        }
        for _ in 0..2 {
        let cur = set.clone();
        for r in self.rows.iter() {
            if r.0.len() <= 7 && r.terms().iter().any(|t| cur.contains(&t.0)) && r.konst().abs() < 1 << 40 {
                put(r.clone(), &mut sel, &mut set);
            }
        }
        }
        for m in &set {
            let (lo, hi) = self.range_mono(*m);
            if lo.abs() < 1 << 40 {
                sel.push(Poly::mono(*m).addc(-lo));
            }
            if hi.abs() < 1 << 40 {
                sel.push(Poly::mono(*m).neg().addc(hi));
            }
        }
        farkas(goal, &sel, &set)
    }

    fn lp(&self, goal: &Poly, rounds: u32) -> bool {
        if self.lp_tiny(goal, 1) || self.lp_tiny(goal, 2) {
            return true;
        }
        let mut set: Vec<Mono> = goal.terms().iter().map(|x| x.0).collect();
        let mut sel: Vec<Poly> = vec![];
        let mut used = vec![false; self.rows.len()];
        let mut done_prod: Vec<Mono> = vec![];
        for _round in 0..rounds {
            let before = set.len();
            let cur = set.clone();
            let mut grew = false;
            for (i, r) in self.rows.iter().enumerate() {
                if !used[i] && r.0.len() <= 10 && r.terms().iter().any(|t| cur.contains(&t.0)) {
                    used[i] = true;
                    sel.push(r.clone());
                    grew = true;
                    for t in r.terms() {
                        if !set.contains(&t.0) {
                            set.push(t.0);
                        }
                    }
                }
                if sel.len() > 90 {
                    break;
                }
            }
            // products for nonlinear monomials
            for m in cur.iter().chain(set[before..].to_vec().iter()).copied().collect::<Vec<_>>() {
                let sy = mono_syms(m);
                if sy.len() < 2 || done_prod.contains(&m) || sel.len() > 140 {
                    continue;
                }
                done_prod.push(m);
                let mut seen: Vec<Sym> = vec![];
                for x in sy.iter() {
                    if seen.contains(x) {
                        continue;
                    }
                    seen.push(*x);
                    let xm = mono(vec![*x]);
                    let rest = mono_div(m, xm).unwrap();
                    if self.range_mono(rest).0 < 0 {
                        continue;
                    }
                    let rp = Poly::mono(rest);
                    let mut n = 0;
                    for r in self.rows.iter() {
                        if r.0.len() <= 5 && r.coef(xm) != 0 && r.degree() <= 2 && n < 12 {
                            if let Some(q) = r.mul(&rp) {
                                if q.degree() <= 4 && !sel.contains(&q) {
                                    n += 1;
                                    for t in q.terms() {
                                        if !set.contains(&t.0) {
                                            set.push(t.0);
                                        }
                                    }
                                    sel.push(q);
                                    grew = true;
                                }
                            }
                        }
                    }
                    let (lo, hi) = self.range_mono(xm);
                    if lo > -INF {
                        if let Some(q) = Poly::mono(xm).addc(-lo).mul(&rp) {
                            if !sel.contains(&q) {
                                for t in q.terms() {
                                    if !set.contains(&t.0) {
                                        set.push(t.0);
                                    }
                                }
                                sel.push(q);
                            }
                        }
                    }
                    if hi < 1 << 34 {
                        if let Some(q) = Poly::mono(xm).neg().addc(hi).mul(&rp) {
                            if !sel.contains(&q) {
                                for t in q.terms() {
                                    if !set.contains(&t.0) {
                                        set.push(t.0);
                                    }
                                }
                                sel.push(q);
                            }
                        }
                    }
                }
            }
            let mut all = sel.clone();
            for m in &set {
                let (lo, hi) = self.range_mono(*m);
                if lo > -INF {
                    all.push(Poly::mono(*m).addc(-lo));
                }
                if hi < INF {
                    all.push(Poly::mono(*m).neg().addc(hi));
                }
            }
            // large constants spoil the precision of the solver
            let small: Vec<Poly> = all.iter().filter(|r| r.konst().abs() < 1 << 40).cloned().collect();
            if small.len() < all.len() && farkas(goal, &small, &set) {
                return true;
            }
            if farkas(goal, &all, &set) {
                return true;
            }
            if !grew {
                break;
            }
        }
        false
    }

    /// drop rows and intervals that mention symbols for which `dead` holds, after trying to
    /// combine them away
    pub fn eliminate(&mut self, dead: &dyn Fn(Sym) -> bool) {
        let mut deads: Vec<Sym> = vec![];
        for r in self.rows.iter() {
            for s in r.syms() {
                if dead(s) && !deads.contains(&s) {
                    deads.push(s);
                }
            }
        }
        if deads.is_empty() {
            return;
        }
        let mut rows: Vec<Poly> = (*self.rows).clone();
        for s in deads {
            let ms = mono(vec![s]);
            let (with, without): (Vec<Poly>, Vec<Poly>) = rows.into_iter().partition(|r| r.has_sym(s));
            rows = without;
            // intervals of s take part
            let mut pos = vec![];
            let mut neg = vec![];
            let mut nonlin = false;
            for r in with {
                let k = r.coef(ms);
                if r.0.iter().any(|t| t.0 != ms && mono_syms(t.0).contains(&s)) {
                    nonlin = true;
                    continue;
                }
                if k > 0 { pos.push(r) } else { neg.push(r) }
            }
            let _ = nonlin;
            let (lo, hi) = self.range_mono(ms);
            if lo > -INF && lo.abs() < 1 << 66 {
                pos.push(Poly::sym(s).addc(-lo));
            }
            if hi < INF && hi.abs() < 1 << 66 {
                neg.push(Poly::sym(s).neg().addc(hi));
            }
            if pos.len() * neg.len() <= pos.len() + neg.len() + 6 {
                for a in &pos {
                    for b in &neg {
                        let (ka, kb) = (a.coef(ms), -b.coef(ms));
                        let g = gcd(ka, kb);
                        if ka / g > 1 << 40 || kb / g > 1 << 40 {
                            continue;
                        }
                        let q = normalise(&a.lin(kb / g, b, ka / g));
                        if q.is_const().is_some() || q.too_big() || self.range(&q).0 >= 0 {
                            continue;
                        }
                        if !rows.iter().any(|r| r.terms() == q.terms() && r.konst() <= q.konst()) {
                            rows.push(q);
                        }
                    }
                }
            }
        }
        self.rows = Rc::new(rows);
        self.iv = Rc::new(self.iv.iter().filter(|(m, _)| !mono_syms(**m).iter().any(|s| dead(*s))).map(|(a, b)| (*a, *b)).collect());
        self.ver = next_ver();
    }
}

/// goal >= 0 as a nonnegative combination of rows (each >= 0), up to integrality of the goal
fn farkas(goal: &Poly, rows: &[Poly], set: &[Mono]) -> bool {
    stat(3);
    // only monomials that occur
    let m = set.len();
    let n = rows.len();
    if n == 0 || m == 0 || m > 140 || n > 420 {
        return false;
    }
    let idx: HashMap<Mono, usize> = set.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    // tableau: m rows, n + m artificial columns + rhs
    let w = n + 1;
    let mut t = vec![0f64; (m + 2) * w];
    let mut sign = vec![1f64; m];
    for (x, k) in goal.terms() {
        let i = idx[x];
        t[i * w + n] = *k as f64;
    }
    for (j, r) in rows.iter().enumerate() {
        for (x, k) in r.terms() {
            match idx.get(x) {
                Some(i) => t[i * w + j] = *k as f64,
                None => return false,
            }
        }
        t[(m + 1) * w + j] = r.konst() as f64; // phase-2 costs
    }
    for i in 0..m {
        if t[i * w + n] < 0.0 {
            sign[i] = -1.0;
            for j in 0..w {
                t[i * w + j] = -t[i * w + j];
            }
        }
    }
    // phase 1 cost row: minus the sum of rows (artificial basis, implicit columns)
    for j in 0..w {
        let mut s = 0.0;
        for i in 0..m {
            s += t[i * w + j];
        }
        t[m * w + j] = -s;
    }
    let mut basis: Vec<usize> = (0..m).map(|i| usize::MAX - i).collect(); // artificial
    let eps = 1e-9;
    for phase in 0..2 {
        let cr = if phase == 0 { m } else { m + 1 };
        let mut it = 0;
        loop {
            it += 1;
            if it > 400 {
                if phase == 0 {
                    return false;
                }
                break;
            }
            // entering column
            let mut e = usize::MAX;
            let mut best = -1e-9;
            for j in 0..n {
                let c = t[cr * w + j];
                if phase == 1 {
                    // scale-free choice for huge constants
                    if c < -1e-7 && (it > 100 || c < best) {
                        best = c;
                        e = j;
                        if it > 100 {
                            break;
                        }
                    }
                } else if c < best {
                    best = c;
                    e = j;
                    if it > 100 {
                        break;
                    }
                }
            }
            if e == usize::MAX {
                break;
            }
            let mut l = usize::MAX;
            let mut br = f64::INFINITY;
            for i in 0..m {
                let a = t[i * w + e];
                if a > eps {
                    let r = t[i * w + n] / a;
                    if r < br - 1e-12 || (r < br + 1e-12 && l != usize::MAX && basis[i] > basis[l]) {
                        br = r;
                        l = i;
                    }
                }
            }
            if l == usize::MAX {
                // unbounded: in phase 2 the constraints are contradictory; accept only with a finite witness
                if phase == 1 {
                    return unbounded_witness(rows, set);
                }
                return false;
            }
            let pv = t[l * w + e];
            for j in 0..w {
                t[l * w + j] /= pv;
            }
            for i in 0..m + 2 {
                if i != l {
                    let f = t[i * w + e];
                    if f != 0.0 {
                        for j in 0..w {
                            let v = t[l * w + j];
                            if v != 0.0 {
                                t[i * w + j] -= f * v;
                            }
                        }
                    }
                }
            }
            basis[l] = e;
            // good enough already?
            if phase == 1 && -t[(m + 1) * w + n] < goal.konst() as f64 + 0.25 && check(goal, rows, &basis, &t, w, n, m) {
                return true;
            }
        }
        if phase == 0 {
            if t[m * w + n] < -1e-6 {
                return false;
            }
            // artificial variables left at zero level: forbid them by dropping their rows when possible
            for i in 0..m {
                if basis[i] > n {
                    if let Some(e) = (0..n).find(|j| t[i * w + j].abs() > 1e-7) {
                        let pv = t[i * w + e];
                        for j in 0..w {
                            t[i * w + j] /= pv;
                        }
                        for k in 0..m + 2 {
                            if k != i {
                                let f = t[k * w + e];
                                if f != 0.0 {
                                    for j in 0..w {
                                        let v = t[i * w + j];
                                        t[k * w + j] -= f * v;
                                    }
                                }
                            }
                        }
                        basis[i] = e;
                    }
                }
            }
            if check(goal, rows, &basis, &t, w, n, m) {
                return true;
            }
        }
    }
    check(goal, rows, &basis, &t, w, n, m)
}

fn unbounded_witness(_rows: &[Poly], _set: &[Mono]) -> bool {
    false
}

fn check(goal: &Poly, rows: &[Poly], basis: &[usize], t: &[f64], w: usize, n: usize, m: usize) -> bool {
    let mut lam: Vec<(usize, i128, i128)> = vec![];
    for i in 0..m {
        if basis[i] < n {
            let v = t[i * w + n];
            if v > 1e-9 {
                match rationalise(v) {
                    Some((p, q)) if p > 0 => lam.push((basis[i], p, q)),
                    _ => return false,
                }
            }
        }
    }
    let mut d: i128 = 1;
    for l in &lam {
        d = d / gcd(d, l.2) * l.2;
        if d > 1 << 40 {
            return false;
        }
    }
    let mut acc: HashMap<Mono, i128> = HashMap::new();
    for (x, k) in goal.0.iter() {
        match k.checked_mul(d) {
            Some(v) => *acc.entry(*x).or_insert(0) += v,
            None => return false,
        }
    }
    for (j, p, q) in &lam {
        let f = p * (d / q);
        for (x, k) in rows[*j].0.iter() {
            match k.checked_mul(f) {
                Some(v) if v.abs() < 1 << 120 => *acc.entry(*x).or_insert(0) -= v,
                _ => return false,
            }
        }
    }
    let k = acc.remove(&ONE).unwrap_or(0);
    // residual constant > -d suffices: the goal is an integer
    acc.values().all(|v| *v == 0) && k > -d
}

fn rationalise(x: f64) -> Option<(i128, i128)> {
    if x.abs() > 1e15 {
        return None;
    }
    let (mut h0, mut h1, mut k0, mut k1) = (0i128, 1i128, 1i128, 0i128);
    let mut v = x;
    for _ in 0..20 {
        let a = v.floor();
        let ai = a as i128;
        let h2 = ai * h1 + h0;
        let k2 = ai * k1 + k0;
        if k2 > 100_000 {
            break;
        }
        h0 = h1;
        h1 = h2;
        k0 = k1;
        k1 = k2;
        if (h1 as f64 / k1 as f64 - x).abs() < 1e-9 * (1.0 + x.abs()) {
            return Some((h1, k1));
        }
        let fr = v - a;
        if fr.abs() < 1e-12 {
            break;
        }
        v = 1.0 / fr;
    }
    if k1 != 0 && (h1 as f64 / k1 as f64 - x).abs() < 1e-7 * (1.0 + x.abs()) { Some((h1, k1)) } else { None }
}
