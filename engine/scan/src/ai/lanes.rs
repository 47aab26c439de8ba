//! What a sample of the destination is made of: products of filter weights and source samples are
//! followed through scalars and the lanes of vector registers.
use super::interp::*;
use super::mem::*;
use super::poly::*;
use ps_ir::*;
use std::rc::Rc;

/// products of consecutive taps: k, k+m, .., k+(n-1)m (m is 0 while it is not known)
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ser {
    pub k: Poly,
    pub n: Poly,
    pub m: i128,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Lane {
    /// the source sample at a byte offset, as it is and so many bytes wide, or (0) multiplied or converted
    Px(Poly, u8),
    /// the weight at a byte offset
    W(Poly),
    /// sum of weight k of window x times the source sample at res + k taps
    Acc { x: Poly, res: Poly, ser: Vec<Ser> },
    /// byte of a value of so many bytes
    Part(Rc<Lane>, u8, u8),
    /// several values side by side in one scalar
    Vec(Vec<Cell>),
    /// something that does not depend on samples or weights
    K,
    /// a combination that cannot be part of a result
    Bad(Rc<str>),
    /// what is known of the range of a number, see range.rs
    R(u8),
    /// the largest sample, and the number after it
    Cap,
    Pow,
    /// a function of the samples at these places, and whether it is a product of samples, see alpha.rs
    Dep(Vec<Poly>, bool),
    /// the bits above the largest sample
    Above,
}
/// the row handler under analysis
pub struct LnCtx {
    pub column: bool,
    pub rows: u64,
    pub src: u64,
    pub dst: u64,
    pub weights: u64,
    pub bounds: u64,
    pub esz: i128,
    pub cn: i128,
    pub wsz: i128,
    /// elements between the weights of neighbouring windows
    pub ks: Option<Poly>,
    pub ss: Poly,
    pub ds: Poly,
    pub start: Option<Poly>,
    pub size: Option<Poly>,
    /// size of an element of bounds, offsets of its fields
    pub bsz: i128,
    pub start_off: u64,
    pub size_off: u64,
    /// ranges are followed, and not what a sample is made of
    pub range: bool,
    /// which samples a value is made from is followed, see alpha.rs
    pub alpha: bool,
    /// the bit depth, and whether it may be above 12
    pub depth: Option<Poly>,
    pub deep: bool,
}

thread_local! {
    /// the sums that were last compared with a number
    static COMPARED: std::cell::RefCell<Vec<Rc<Lane>>> = const { std::cell::RefCell::new(vec![]) };
}
/// a sum that is to be replaced by a number where it is out of range
pub fn compared(a: &Val, b: &Val) {
    for (x, y) in [(a, b), (b, a)] {
        if let (Val::Ln(l), true) = (x, is_k(y) || *y == Val::Opaque) {
            if matches!(**l, Lane::Acc { .. }) {
                COMPARED.with(|c| {
                    let mut c = c.borrow_mut();
                    c.retain(|x| x != l);
                    if c.len() > 15 {
                        c.remove(0);
                    }
                    c.push(l.clone());
                })
            }
        }
    }
}
pub fn compared_none() {
    COMPARED.with(|c| c.borrow_mut().clear())
}
/// a sum, or a number that takes its place where it is out of range
pub fn limited(vals: &[Val]) -> Option<Val> {
    let s = vals.iter().find(|v| matches!(v, Val::Ln(l) if matches!(**l, Lane::Acc { .. })))?;
    if !vals.iter().any(is_k) || !vals.iter().all(|v| v == s || is_k(v)) {
        return None;
    }
    let Val::Ln(l) = s else { return None };
    COMPARED.with(|c| c.borrow().contains(l)).then(|| s.clone())
}

pub fn ln(l: Lane) -> Val {
    Val::Ln(Rc::new(l))
}
pub fn is_k(v: &Val) -> bool {
    match v {
        Val::Int(_) | Val::F(..) | Val::Tag(_) => true,
        Val::Ln(l) => matches!(**l, Lane::K | Lane::Cap | Lane::Pow | Lane::Above),
        _ => false,
    }
}
fn is_zero(v: &Val) -> bool {
    match v {
        Val::Int(p) => p.is_zero(),
        Val::F(a, b) => f64::from_bits(*a) == 0.0 && f64::from_bits(*b) == 0.0,
        _ => false,
    }
}
/// an element used as a number
fn elem_of(v: &Val) -> Val {
    if let Val::Ln(l) = v {
        if let Lane::Part(x, 0, _) = &**l {
            return Val::Ln(x.clone());
        }
    }
    v.clone()
}

// ---------- bytes ----------
#[derive(Clone, PartialEq, Debug)]
pub enum B {
    C(u8),
    P(Rc<Lane>, u8, u8),
    K,
    U,
}
fn byte_at(cells: &[Cell], off: u64, gap: &B) -> B {
    let Some(c) = cells.iter().find(|c| c.off <= off && off < c.off + c.sz) else { return gap.clone() };
    let i = off - c.off;
    match &c.val {
        Val::Int(p) => match p.is_const() {
            Some(k) => B::C(((k >> (8 * i).min(120)) & 255) as u8),
            None => B::K,
        },
        Val::Tag(k) => B::C(((k >> (8 * i).min(120)) & 255) as u8),
        Val::F(a, b) if a == b && c.sz == 4 => B::C((f64::from_bits(*a) as f32).to_bits().to_le_bytes()[i as usize]),
        Val::F(a, b) if a == b && c.sz == 8 => B::C(a.to_le_bytes()[i as usize]),
        Val::F(..) => B::K,
        Val::Ln(l) => match &**l {
            Lane::Part(x, j, of) => B::P(x.clone(), j + i as u8, *of),
            Lane::Vec(v) => byte_at(v, i, &B::U),
            Lane::K => B::K,
            Lane::Px(_, n) if *n > 0 && i >= *n as u64 => B::C(0),
            Lane::Px(_, n) if *n > 0 => B::P(l.clone(), i as u8, *n),
            _ => B::P(l.clone(), i as u8, c.sz as u8),
        },
        _ => B::U,
    }
}
pub fn bytes(cells: &[Cell], off: u64, size: u64, gap: &B) -> Vec<B> {
    (off..off + size).map(|o| byte_at(cells, o, gap)).collect()
}
pub fn tidy(b: &[B]) -> Vec<Cell> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let (n, val) = match &b[i] {
            B::P(l, 0, of) if i + *of as usize <= b.len() && (1..*of).all(|j| matches!(&b[i + j as usize], B::P(m, x, y) if *x == j && y == of && m == l)) => (*of as usize, Val::Ln(l.clone())),
            B::P(l, j, of) => (1, ln(Lane::Part(l.clone(), *j, *of))),
            B::C(k) => (1, Val::Int(Poly::c(*k as i128))),
            B::K => (1, ln(Lane::K)),
            B::U => (1, Val::Opaque),
        };
        out.push(Cell { off: i as u64, sz: n as u64, val });
        i += n;
    }
    out
}
pub fn compose(b: &[B]) -> Val {
    if b.iter().any(|x| *x == B::U) {
        return Val::Opaque;
    }
    if b.iter().all(|x| matches!(x, B::C(_))) {
        if b.len() > 8 {
            return if b.iter().all(|x| *x == B::C(0)) { Val::Int(Poly::c(0)) } else { ln(Lane::K) };
        }
        let mut v: i128 = 0;
        for (i, x) in b.iter().enumerate() {
            if let B::C(k) = x {
                v |= (*k as i128) << (8 * i);
            }
        }
        return Val::Int(Poly::c(v));
    }
    let ps: Vec<(&Rc<Lane>, u8, u8)> = b.iter().filter_map(|x| if let B::P(l, i, n) = x { Some((l, *i, *n)) } else { None }).collect();
    if ps.is_empty() {
        return ln(Lane::K);
    }
    if ps.iter().all(|x| x.0 == ps[0].0 && x.2 == ps[0].2) {
        if ps.len() > 1 && ps[0].2 == 1 {
            // a byte repeated: a multiple of it
            return match &**ps[0].0 {
                Lane::Px(p, _) => ln(Lane::Px(p.clone(), 0)),
                _ => Val::Opaque,
            };
        }
        if ps.windows(2).all(|w| w[1].1 == w[0].1 + 1) {
            let j0 = ps[0].1;
            let first = b.iter().position(|x| matches!(x, B::P(..))).unwrap_or(0);
            let run = b[first..first + ps.len()].iter().all(|x| matches!(x, B::P(..)));
            if let Lane::R(f) = **ps[0].0 {
                // as much of a number as is kept, at its place
                let whole = j0 == 0 && run && first == 0 && ps.len() == ps[0].2 as usize;
                if whole && ps.len() == b.len() || f == super::range::IN && j0 == 0 && run && first == 0 {
                    return Val::Ln(ps[0].0.clone());
                }
                if ps.len() < b.len() {
                    return super::range::r(0);
                }
            }
            if j0 == 0 && run {
                return Val::Ln(ps[0].0.clone());
            }
            if ps.len() == b.len() {
                return ln(Lane::Part(ps[0].0.clone(), j0, ps[0].2));
            }
        }
    }
    ln(Lane::Vec(tidy(b)))
}
pub fn lane(cells: &[Cell], off: u64, sz: u64) -> Val {
    if let Some(c) = cells.iter().find(|c| c.off == off && c.sz == sz) {
        return c.val.clone();
    }
    compose(&bytes(cells, off, sz, &B::U))
}
pub fn elems(cells: &[Cell], size: u64, es: u64) -> Vec<Val> {
    (0..size / es).map(|i| elem_of(&lane(cells, i * es, es))).collect()
}
pub fn blob_of(v: Vec<Val>, es: u64) -> Blob {
    Blob { cells: v.into_iter().enumerate().map(|(i, val)| Cell { off: i as u64 * es, sz: es, val }).collect() }
}

// ---------- joins ----------
fn has_lane(c: &[Cell]) -> bool {
    c.iter().any(|c| matches!(c.val, Val::Ln(_)))
}
/// cut the cells of all lists alike
pub fn align_cells(lists: &[&Vec<Cell>]) -> Option<Vec<Vec<Cell>>> {
    if !lists.iter().any(|l| has_lane(l)) {
        return None;
    }
    let t = lists.iter().max_by_key(|l| l.len())?;
    if lists.iter().all(|l| l.len() == t.len() && l.iter().zip(t.iter()).all(|(a, b)| a.off == b.off && a.sz == b.sz)) {
        return None;
    }
    let plain = |c: &Cell| matches!(c.val, Val::Int(_) | Val::F(..) | Val::Ln(_) | Val::Opaque);
    if !lists.iter().all(|l| l.iter().all(plain)) {
        return None;
    }
    // places that hold one value in some list stay whole, the rest is filled with the widest cells that fit
    let mut places: Vec<(u64, u64)> = vec![];
    let clash = |p: &Vec<(u64, u64)>, o: u64, s: u64| p.iter().any(|x| o < x.0 + x.1 && x.0 < o + s);
    let mut all: Vec<(bool, u64, u64)> = lists.iter().flat_map(|l| l.iter()).map(|c| (!matches!(&c.val, Val::Ln(l) if !matches!(**l, Lane::K | Lane::Vec(_) | Lane::Part(..))), c.sz, c.off)).collect();
    all.sort_by_key(|x| (x.0, if x.0 { u64::MAX - x.1 } else { x.1 }, x.2));
    for (_, s, o) in all {
        if !clash(&places, o, s) {
            places.push((o, s));
        }
    }
    places.sort();
    Some(
        lists
            .iter()
            .map(|l| {
                if l.is_empty() {
                    return vec![];
                }
                places.iter().map(|p| Cell { off: p.0, sz: p.1, val: lane(l, p.0, p.1) }).collect()
            })
            .collect(),
    )
}
/// the same taps in fewer series
pub fn compact(ser: &[Ser]) -> Vec<Ser> {
    let mut v: Vec<Ser> = ser.iter().filter(|s| !s.n.is_zero()).cloned().collect();
    let run = |s: &Ser| s.m == 1 || s.n.is_const() == Some(1);
    'again: loop {
        for i in 0..v.len() {
            if run(&v[i]) {
                for j in 0..v.len() {
                    if i != j && run(&v[j]) && v[j].k == v[i].k.add(&v[i].n) {
                        v[i] = Ser { k: v[i].k.clone(), n: v[i].n.add(&v[j].n), m: 1 };
                        v.remove(j);
                        continue 'again;
                    }
                }
            } else if v[i].m > 1 {
                let m = v[i].m;
                let mut used = vec![i];
                for d in 1..m {
                    let k = v[i].k.addc(d);
                    if let Some(j) = (0..v.len()).find(|j| v[*j].m == m && v[*j].n == v[i].n && v[*j].k == k) {
                        used.push(j);
                    }
                }
                if used.len() as i128 == m {
                    let s = Ser { k: v[i].k.clone(), n: v[i].n.scale(m), m: 1 };
                    used.sort();
                    for u in used.into_iter().rev() {
                        v.remove(u);
                    }
                    v.push(s);
                    continue 'again;
                }
            }
        }
        return v;
    }
}
/// bring sums to the same number of series; `grow`: a sum may have more of them than the first value
pub fn align_vals(vals: &[Val], grow: bool, branch: bool) -> Option<Vec<Val>> {
    let short: Vec<Val>;
    let mut vals = vals;
    if branch {
        short = vals
            .iter()
            .map(|v| match v {
                Val::Ln(l) => match &**l {
                    Lane::Acc { x, res, ser } => ln(Lane::Acc { x: x.clone(), res: res.clone(), ser: compact(ser) }),
                    _ => v.clone(),
                },
                v => v.clone(),
            })
            .collect();
        vals = &short;
    }
    let proto = vals.iter().filter_map(|v| if let Val::Ln(l) = v { if let Lane::Acc { ser, .. } = &**l { Some((l, ser.len())) } else { None } } else { None }).max_by_key(|x| x.1)?.0.clone();
    let Lane::Acc { x: px, res: pr, ser: ps } = &*proto else { return None };
    let mut out = vec![];
    for (i, v) in vals.iter().enumerate() {
        let (x, res, ser) = match v {
            v if is_k(v) => (px.clone(), pr.clone(), vec![]),
            Val::Ln(l) => match &**l {
                Lane::Acc { x, res, ser } => (x.clone(), res.clone(), ser.clone()),
                _ => return None,
            },
            _ => return None,
        };
        if i == 0 && !grow && ser.len() != ps.len() {
            return None;
        }
        let mut ser = ser;
        for s in &ps[ser.len()..] {
            ser.push(Ser { k: s.k.clone(), n: Poly::c(0), m: s.m });
        }
        out.push((x, res, ser));
    }
    for j in 0..ps.len() {
        let mut m = 0;
        for o in &out {
            let s = &o.2[j];
            if s.m != 0 && !s.n.is_zero() {
                if m != 0 && m != s.m {
                    return None;
                }
                m = s.m;
            }
        }
        for o in out.iter_mut() {
            o.2[j].m = m;
        }
    }
    Some(out.into_iter().map(|(x, res, ser)| ln(Lane::Acc { x, res, ser })).collect())
}

impl<'p> Interp<'p> {
    pub fn zero(&self, st: &State, p: &Poly) -> bool {
        p.is_zero() || st.cons.entails_eq(p)
    }
    /// facts about the elements of bounds whose place is known here
    pub fn ln_known(&mut self, st: &mut State) {
        let Some(h) = self.lanes.as_ref().map(|l| l.bounds) else { return };
        let mut old = super::loops::live_syms(st, &self.images);
        for r in st.cons.rows.iter() {
            old.extend(r.syms());
        }
        let mut defs: Vec<(Sym, (bool, Poly, Poly))> = self.minmax_def.iter().map(|(k, v)| (*k, v.clone())).collect();
        defs.sort_by_key(|d| d.0);
        for (s, (max, a, b)) in defs {
            if !old.contains(&s) && a.syms().iter().chain(b.syms().iter()).all(|x| old.contains(x)) {
                self.min_max(st, &a, &b, max);
                old.insert(s);
            }
        }
        let Some(t) = st.region(h).and_then(|r| r.tmpl.clone()) else { return };
        let mut bases: Vec<(Sym, Poly)> = self.elt_syms.iter().filter_map(|(k, p)| p.syms().first().map(|s| (*s, k.1.clone()))).collect();
        bases.sort_by_key(|b| b.0);
        let mut seen = std::collections::HashSet::new();
        let bases: Vec<Poly> = bases.into_iter().map(|b| b.1).filter(|b| seen.insert(b.clone())).collect();
        for b in bases {
            if !b.syms().iter().all(|s| old.contains(s)) {
                continue;
            }
            let sub: Vec<(Sym, Poly)> = t.fields.iter().filter_map(|(o, _, ph)| self.elt_syms.get(&(*o, b.clone())).map(|p| (*ph, p.clone()))).collect();
            if sub.len() != t.fields.len() || sub.iter().all(|(_, p)| p.syms().iter().all(|s| old.contains(s))) {
                continue;
            }
            for r in &t.rows {
                let mut q = Some(r.clone());
                for (ph, p) in &sub {
                    q = q.and_then(|x| x.subst(*ph, p));
                }
                if let Some(q) = q {
                    st.cons.add_ge(&q);
                }
            }
        }
    }
    /// samples or weights in memory
    pub fn ln_read(&mut self, st: &State, reg: Reg, off: &Poly, size: u64) -> Vec<Cell> {
        let Some(cx) = self.lanes.clone() else { return vec![] };
        match reg {
            Reg::Heap(h) if h == cx.src || h == cx.weights => {
                let es = if h == cx.src { cx.esz } else { cx.wsz };
                let mk = |o: Poly| ln(if cx.range {
                    Lane::R(if h == cx.src { super::range::IN } else { 0 })
                } else if h == cx.src { Lane::Px(o, es as u8) } else { Lane::W(o) });
                if size as i128 % es != 0 || off.konst() % es != 0 || off.terms().iter().any(|t| t.1 % es != 0) {
                    return vec![Cell { off: 0, sz: size, val: Val::Opaque }];
                }
                (0..size / es as u64).map(|i| Cell { off: i * es as u64, sz: es as u64, val: mk(off.addc(i as i128 * es)) }).collect()
            }
            Reg::Alloc(id) => {
                if let (Some((b, rl)), Some(o)) = (self.const_bytes(id), off.is_const()) {
                    if rl.is_empty() && o >= 0 {
                        return (0..size).map(|i| Cell { off: i, sz: 1, val: b.get((o as u64 + i) as usize).and_then(|x| *x).map(|x| Val::Int(Poly::c(x as i128))).unwrap_or(Val::Opaque) }).collect();
                    }
                }
                let val = if cx.alpha { self.ap_table(off) } else { Val::Opaque };
                vec![Cell { off: 0, sz: size, val }]
            }
            _ => {
                let zero = if let Reg::Heap(h) = reg { st.region(h).map(|r| r.fill == Fill::Zero).unwrap_or(false) } else { false };
                if let (Some(o), Some(cells)) = (off.is_const(), self.region_cells(st, reg)) {
                    if o >= 0 {
                        let g = get(cells, o as u64, size);
                        if g.iter().map(|c| c.sz).sum::<u64>() == size {
                            return g;
                        }
                        return tidy(&bytes(cells, o as u64, size, if zero { &B::C(0) } else { &B::U }));
                    }
                }
                vec![Cell { off: 0, sz: size, val: Val::Opaque }]
            }
        }
    }
    pub fn ln_data(&self, reg: Reg) -> bool {
        match (&self.lanes, reg) {
            (Some(c), Reg::Heap(h)) => h == c.src || h == c.weights,
            _ => false,
        }
    }
    fn tap(&self, w: &Poly, px: &Poly) -> Option<Lane> {
        let cx = self.lanes.as_ref()?;
        let (x, k) = match &cx.ks {
            Some(ks) => {
                let s = ks.syms();
                let (with, rest): (Vec<_>, Vec<_>) = w.terms().iter().partition(|t| mono_syms(t.0).contains(&s[0]));
                let x = Poly::from_vec(with.into_iter().cloned().collect()).div_exact(ks)?.div_const(cx.wsz)?;
                (x, Poly::from_vec(rest.into_iter().cloned().collect()).addc(w.konst()))
            }
            None => (Poly::c(0), w.clone()),
        };
        let k = k.div_const(cx.wsz)?;
        let step = if cx.column { cx.ss.scale(cx.esz) } else { Poly::c(cx.cn * cx.esz) };
        let res = px.sub(&k.mul(&step)?);
        Some(Lane::Acc { x, res, ser: vec![Ser { k, n: Poly::c(1), m: 0 }] })
    }
    pub fn ln_mul(&self, a: &Val, b: &Val) -> Val {
        if is_zero(a) || is_zero(b) {
            return Val::Int(Poly::c(0));
        }
        if is_k(a) && is_k(b) {
            return ln(Lane::K);
        }
        if is_k(a) {
            return self.ln_keep(b);
        }
        if is_k(b) {
            return self.ln_keep(a);
        }
        if let (Val::Ln(x), Val::Ln(y)) = (a, b) {
            match (&**x, &**y) {
                (Lane::W(w), Lane::Px(p, _)) | (Lane::Px(p, _), Lane::W(w)) => return self.tap(w, p).map(ln).unwrap_or(Val::Opaque),
                (Lane::Bad(_), _) => return a.clone(),
                (_, Lane::Bad(_)) => return b.clone(),
                _ => {}
            }
        }
        Val::Opaque
    }
    pub fn ln_add(&self, st: &State, a: &Val, b: &Val) -> Val {
        if is_zero(a) {
            return b.clone();
        }
        if is_zero(b) {
            return a.clone();
        }
        if is_k(a) && is_k(b) {
            return ln(Lane::K);
        }
        if is_k(a) {
            return self.ln_keep(b);
        }
        if is_k(b) {
            return self.ln_keep(a);
        }
        let (Val::Ln(p), Val::Ln(q)) = (a, b) else { return Val::Opaque };
        match (&**p, &**q) {
            (Lane::Bad(_), _) => a.clone(),
            (_, Lane::Bad(_)) => b.clone(),
            (Lane::Acc { x, res, ser }, Lane::Acc { x: y, res: r2, ser: s2 }) => {
                if !self.zero(st, &x.sub(y)) {
                    return ln(Lane::Bad(format!("weights of windows {} and {} meet in one sum", x.show(), y.show()).into()));
                }
                if !self.zero(st, &res.sub(r2)) {
                    return ln(Lane::Bad(format!("products of different channels, rows or taps meet in one sum: sample offsets {} and {} from the tap of the weight", res.show(), r2.show()).into()));
                }
                let mut ser = ser.clone();
                let (mut small, big) = (s2.clone(), 0);
                let _ = big;
                // a term of its own goes to the series it continues
                let single = |v: &Vec<Ser>| v.iter().all(|s| s.n.is_const() == Some(1));
                if single(&ser) && !single(&small) {
                    std::mem::swap(&mut ser, &mut small);
                }
                'n: for t in small {
                    if t.n.is_const() == Some(1) {
                        if let Some(g) = self.loop_syms.last() {
                            for s in ser.iter_mut() {
                                if !s.n.has_sym(*g) {
                                    continue;
                                }
                                let d = t.k.sub(&s.k);
                                let m = if s.m != 0 {
                                    (s.n.scale(s.m) == d).then_some(s.m)
                                } else {
                                    d.div_exact(&s.n).and_then(|q| q.is_const()).filter(|m| *m > 0)
                                };
                                if let Some(m) = m {
                                    s.m = m;
                                    s.n = s.n.addc(1);
                                    continue 'n;
                                }
                            }
                        }
                    }
                    ser.push(t);
                }
                if ser.len() > 64 {
                    return Val::Opaque;
                }
                ln(Lane::Acc { x: x.clone(), res: res.clone(), ser })
            }
            _ => Val::Opaque,
        }
    }
    /// shifts, conversions, clamping: the same sum in another form
    pub fn ln_keep(&self, a: &Val) -> Val {
        match a {
            v if is_zero(v) => v.clone(),
            v if is_k(v) => ln(Lane::K),
            Val::Ln(l) => match &**l {
                Lane::Acc { .. } | Lane::Bad(_) | Lane::W(_) => a.clone(),
                Lane::Px(p, _) => ln(Lane::Px(p.clone(), 0)),
                _ => Val::Opaque,
            },
            _ => Val::Opaque,
        }
    }
    pub fn ln_pick(&self, a: &Val, b: &Val) -> Val {
        if is_k(b) {
            return self.ln_keep(a);
        }
        if is_k(a) {
            return self.ln_keep(b);
        }
        Val::Opaque
    }
    pub fn ln_binop(&self, st: &State, op: BinOp, a: &Val, b: &Val, bits: u32) -> Val {
        use BinOp::*;
        let (a, b) = (&elem_of(a), &elem_of(b));
        match op {
            Add => self.ln_add(st, a, b),
            Sub if is_k(b) => self.ln_keep(a),
            Mul => self.ln_mul(a, b),
            Div if is_k(b) => self.ln_keep(a),
            Shr if is_k(b) => {
                if let Val::Ln(l) = a {
                    if let Lane::Vec(v) = &**l {
                        if let Val::Int(p) = b {
                            if let Some(k) = p.is_const() {
                                if k % 8 == 0 && k >= 0 {
                                    let n = bits as u64 / 8;
                                    let mut x = bytes(v, 0, n, &B::U);
                                    x.drain(..(k as usize / 8).min(n as usize));
                                    x.resize(n as usize, B::C(0));
                                    return compose(&x);
                                }
                            }
                        }
                        return Val::Opaque;
                    }
                    if matches!(&**l, Lane::Acc { .. } | Lane::Bad(_)) {
                        return a.clone();
                    }
                }
                Val::Opaque
            }
            Shl if is_k(b) => match a {
                Val::Ln(l) if matches!(&**l, Lane::Acc { .. } | Lane::Bad(_) | Lane::Px(..)) => self.ln_keep(a),
                _ => Val::Opaque,
            },
            And => {
                for (v, m) in [(a, b), (b, a)] {
                    if let Val::Int(p) = m {
                        if let (Some(k), Val::Ln(_)) = (p.is_const(), v) {
                            if k > 0 && (k + 1) & k == 0 {
                                let nb = (128 - k.leading_zeros()) as u64;
                                if nb % 8 == 0 {
                                    let n = bits as u64 / 8;
                                    let c = vec![Cell { off: 0, sz: n, val: v.clone() }];
                                    let mut x = bytes(&c, 0, n, &B::U);
                                    for (i, y) in x.iter_mut().enumerate() {
                                        if i as u64 >= nb / 8 {
                                            *y = B::C(0);
                                        }
                                    }
                                    return compose(&x);
                                }
                            }
                        }
                    }
                }
                Val::Opaque
            }
            _ => Val::Opaque,
        }
    }
    pub fn ln_cast(&self, v: &Val, to: u64) -> Val {
        match v {
            Val::Ln(l) => match &**l {
                Lane::Vec(c) => {
                    let b = bytes(c, 0, to, &B::C(0));
                    compose(&b)
                }
                _ => elem_of(v),
            },
            v => v.clone(),
        }
    }

    // ---------- results ----------
    /// bytes written to the destination
    pub fn ln_store(&mut self, st: &mut State, loc: &Loc, size: &Poly, cells: &[Cell]) {
        let Some(cx) = self.lanes.clone() else { return };
        if loc.reg != Reg::Heap(cx.dst) || self.quiet > 0 {
            return;
        }
        if (cx.range || cx.alpha) && size.is_const().is_none() && !cells.is_empty() {
            // some of what lies there
            let end = cells.iter().map(|c| c.off + c.sz).max().unwrap_or(0);
            for i in 0..end / cx.esz as u64 {
                let v = elem_of(&lane(cells, i * cx.esz as u64, cx.esz as u64));
                if cx.alpha {
                    self.ap_store(st, &loc.off.addc(i as i128 * cx.esz), &v);
                    continue;
                }
                self.rg_store(st, &v);
            }
            return;
        }
        let n = match size.is_const() {
            Some(n) if n % cx.esz == 0 => n as u64,
            _ => {
                self.ob(st, ObK::LaneUnk, "sample", true, String::new);
                                return;
            }
        };
        let es = cx.esz as u64;
        for i in 0..n / es {
            let v = elem_of(&lane(cells, i * es, es));
            if cx.range {
                if self.trace && std::env::var_os("PS_LN").is_some() {
                    eprintln!("  LN store {} <- {}", loc.off.show(), show_lane(&v));
                }
                self.rg_store(st, &v);
                continue;
            }
            let off = loc.off.addc((i * es) as i128);
            if cx.alpha {
                if self.trace && std::env::var_os("PS_LN").is_some() {
                    eprintln!("  LN store {} <- {}", off.show(), show_lane(&v));
                }
                self.ap_store(st, &off, &v);
                continue;
            }
            match self.ln_check(st, &cx, &off, &v) {
                None => self.ob(st, ObK::LaneUnk, "sample", true, String::new),
                Some(Ok(())) => self.ob(st, ObK::Lane, "sample", true, String::new),
                Some(Err(t)) => self.ob(st, ObK::Lane, "sample", false, || t),
            }
        }
    }
    /// None: not known what is written
    fn ln_check(&mut self, st: &mut State, cx: &LnCtx, off: &Poly, v: &Val) -> Option<Result<(), String>> {
        if self.trace && std::env::var_os("PS_LN").is_some() {
            eprintln!("  LN store {} <- {}", off.show(), show_lane(v));
        }
        if is_k(v) {
            for l in COMPARED.with(|c| c.borrow().clone()) {
                if let Some(Ok(())) = self.ln_check(st, cx, off, &Val::Ln(l)) {
                    return Some(Ok(()));
                }
            }
            return Some(Err("a sample is written that is not made from the source".into()));
        }
        let Val::Ln(l) = v else { return None };
        let (x, res, ser) = match &**l {
            Lane::Acc { x, res, ser } => (x, res, ser),
            Lane::Bad(t) => return Some(Err(t.to_string())),
            _ => return None,
        };
        let es = cx.esz;
        let find = |me: &Self, field: u64| -> Vec<Poly> {
            me.elt_origin.iter().filter(|(s, (r, b))| *r == Reg::Heap(cx.bounds) && me.elt_field.get(s) == Some(&field) && me.zero(st, &b.sub(&x.scale(cx.bsz)))).map(|(s, _)| Poly::sym(*s)).collect()
        };
        let (starts, sizes) = if cx.column { (vec![cx.start.clone()?], vec![cx.size.clone()?]) } else { (find(self, cx.start_off), find(self, cx.size_off)) };
        if cx.column {
            let want = cx.start.clone()?.mul(&cx.ss)?.scale(es).add(off);
            if !self.zero(st, &want.sub(res)) {
                return Some(Err(format!("the sample at byte {} of the row is made from the column at byte {} of the source, counted from the row the weights start at ({} expected)", off.show(), res.show(), want.show())));
            }
        } else {
            let mut place = false;
            let mut ok = false;
            'f: for r in 0..cx.rows {
                for ch in 0..cx.cn {
                    let d = cx.ds.scale(es * r as i128).add(&x.scale(cx.cn * es)).addc(ch * es);
                    if !self.zero(st, &d.sub(off)) {
                        continue;
                    }
                    place = true;
                    for s in &starts {
                        let want = cx.ss.scale(es * r as i128).add(&s.scale(cx.cn * es)).addc(ch * es);
                        if self.zero(st, &want.sub(res)) {
                            ok = true;
                            break 'f;
                        }
                    }
                }
            }
            if !place {
                return Some(Err(format!("the sum over window {} is written at byte {} of the destination", x.show(), off.show())));
            }
            if !ok {
                if starts.is_empty() {
                    return None;
                }
                return Some(Err(format!("the sample at byte {} of the destination is made from the samples at byte {} of the source, tap 0 of window {}", off.show(), res.show(), x.show())));
            }
        }
        for size in &sizes {
            if self.ln_cover(st, ser, size) {
                return Some(Ok(()));
            }
        }
        if sizes.is_empty() {
            return None;
        }
        if self.trace && std::env::var_os("PS_LN3").is_some() {
            eprintln!("  WHY {}", self.explain(st, &sizes[0], &sizes[0]));
        }
        let t: Vec<String> = ser.iter().map(|s| format!("{} + {}*[0, {})", s.k.show(), s.m, s.n.show())).collect();
        Some(Err(format!("the taps of a sample are not each of the window once: taps {} of {}", t.join(", "), sizes[0].show())))
    }
    fn ln_cover(&self, st: &State, ser: &[Ser], size: &Poly) -> bool {
        let mut rest: Vec<Ser> = ser.iter().filter(|s| !s.n.is_zero() && !st.cons.entails(&s.n.neg())).cloned().collect();
        let mut cur = Poly::c(0);
        'n: while !rest.is_empty() {
            for i in 0..rest.len() {
                if !self.zero(st, &rest[i].k.sub(&cur)) {
                    continue;
                }
                if rest[i].m <= 1 {
                    if rest[i].m == 1 || st.cons.entails(&rest[i].n.neg().addc(1)) {
                        let s = rest.remove(i);
                        cur = cur.add(&s.n);
                        continue 'n;
                    }
                    continue;
                }
                // m series side by side
                let m = rest[i].m;
                let mut used = vec![i];
                for j in 1..m {
                    match (0..rest.len()).find(|q| !used.contains(q) && rest[*q].m == m && self.zero(st, &rest[*q].k.sub(&cur).addc(-j)) && self.zero(st, &rest[*q].n.sub(&rest[i].n))) {
                        Some(q) => used.push(q),
                        None => break,
                    }
                }
                if used.len() as i128 == m {
                    cur = cur.add(&rest[i].n.scale(m));
                    used.sort();
                    for q in used.into_iter().rev() {
                        rest.remove(q);
                    }
                    continue 'n;
                }
            }
            return false;
        }
        self.zero(st, &cur.sub(size))
    }

    // ---------- functions ----------
    /// computations of the standard library on single numbers
    pub fn ln_call(&mut self, st: &State, f: FnId, args: &[(Blob, TyId)]) -> Option<Blob> {
        let fi = self.p.f(f);
        // the crate's own bit-level conversions of halves: taken as lane-wise
        if fi.krate == "pic_scale" && args.len() == 1 {
            let (n, rs) = (fi.path.rsplit("::").next().unwrap_or(""), self.sz(fi.ret));
            if n.contains("cvtph_ps") && n.contains("fallback") {
                let v = elems(&args[0].0.cells, rs / 2, 2);
                return Some(blob_of(v.iter().map(|v| self.ln_keep(v)).collect(), 4));
            }
            if n.contains("cvtps_ph") && n.contains("fallback") {
                let mut v: Vec<Val> = elems(&args[0].0.cells, 16, 4).iter().map(|v| self.ln_keep(v)).collect();
                v.resize((rs / 2) as usize, Val::Int(Poly::c(0)));
                return Some(blob_of(v, 2));
            }
        }
        if !["core", "std", "num_traits", "libm"].contains(&fi.krate.as_str()) || args.is_empty() {
            return None;
        }
        let num = |t: TyId| matches!(self.p.t(t).kind, TyKind::Int { .. } | TyKind::Float { .. });
        if !num(fi.ret) || !args.iter().all(|a| num(a.1)) {
            return None;
        }
        let vs: Vec<Val> = args.iter().map(|a| elem_of(&lane(&a.0.cells, 0, self.sz(a.1)))).collect();
        if !vs.iter().any(|v| matches!(v, Val::Ln(_) | Val::Opaque)) {
            return None;
        }
        let last = fi.path.rsplit("::").next().unwrap_or("");
        let rs = self.sz(fi.ret);
        if self.ap() {
            let tys: Vec<TyId> = args.iter().map(|a| a.1).collect();
            return self.ap_call(last, &vs, &tys, fi.ret).map(|v| Blob::one(rs, v));
        }
        if self.rg() {
            let tys: Vec<TyId> = args.iter().map(|a| a.1).collect();
            return self.rg_call(last, &vs, &tys, fi.ret).map(|v| Blob::one(rs, v));
        }
        let v = match (last, vs.len()) {
            ("mul_add" | "fmaf32" | "fmaf64" | "fma" | "fmaf" | "fmuladdf32", 3) => {
                let m = self.ln_mul(&vs[0], &vs[1]);
                self.ln_add(st, &m, &vs[2])
            }
            ("max" | "min" | "minnum" | "maxnum" | "minnumf32" | "maxnumf32" | "minimum" | "maximum", 2) => self.ln_pick(&vs[0], &vs[1]),
            ("clamp", 3) => {
                let x = self.ln_pick(&vs[0], &vs[1]);
                self.ln_pick(&x, &vs[2])
            }
            ("add" | "wrapping_add" | "saturating_add", 2) => self.ln_add(st, &vs[0], &vs[1]),
            ("mul" | "wrapping_mul" | "saturating_mul", 2) => self.ln_mul(&vs[0], &vs[1]),
            ("as_" | "from" | "into" | "to_bits" | "from_bits", 1) => self.ln_cast(&vs[0], rs),
            ("fadd_fast" | "fadd_algebraic", 2) => self.ln_add(st, &vs[0], &vs[1]),
            ("fmul_fast" | "fmul_algebraic", 2) => self.ln_mul(&vs[0], &vs[1]),
            (n, 1) if n.starts_with("round") || n.starts_with("ceil") || n.starts_with("rint") || n.starts_with("trunc") || n.starts_with("floor") => self.ln_keep(&vs[0]),
            _ => return None,
        };
        Some(Blob::one(rs, v))
    }

    /// vector instructions that only compute; None: no model
    pub fn ln_vector(&mut self, st: &State, f: FnId, name: &str, args: &[(Blob, TyId)]) -> Option<Blob> {
        let fi = self.p.f(f);
        let rs = self.sz(fi.ret);
        let imm = fi.gargs.iter().find_map(|g| if let GArg::Const(k) = g { Some(*k) } else { None });
        let (op, ty) = {
            let n = name.strip_prefix("_mm512_").or(name.strip_prefix("_mm256_")).or(name.strip_prefix("_mm_"))?;
            match n.rsplit_once('_') {
                Some((a, b)) => (a.strip_suffix("_avx").unwrap_or(a), b),
                None => (n, ""),
            }
        };
        let sz_of = |t: &str| -> Option<u64> {
            Some(match t {
                "epi8" | "epu8" | "pi8" => 1,
                "epi16" | "epu16" | "ph" | "sh" => 2,
                "epi32" | "epu32" | "ps" | "ss" => 4,
                "epi64" | "epi64x" | "pd" | "sd" | "epu64" => 8,
                _ => return None,
            })
        };
        let size = |i: usize| self.sz(args[i].1);
        let by = |i: usize| bytes(&args[i].0.cells, 0, size(i), &B::U);
        let mem = |b: Vec<B>| Some(Blob { cells: tidy(&b) });
        let es = sz_of(ty);
        let el = |i: usize, e: u64| elems(&args[i].0.cells, size(i), e);
        let scalar = |i: usize| elem_of(&lane(&args[i].0.cells, 0, size(i)));
        match op {
            "setzero" => return Some(Blob::one(rs, Val::Int(Poly::c(0)))),
            "undefined" => return Some(Blob::one(rs, Val::Opaque)),
            "set1" => {
                let e = es?;
                let b = bytes(&args[0].0.cells, 0, e, &B::U);
                let mut out = vec![];
                for _ in 0..rs / e {
                    out.extend(b.iter().cloned());
                }
                return mem(out);
            }
            "setr" | "set" => {
                let e = es?;
                let mut out = vec![];
                let n = args.len();
                for i in 0..n {
                    let j = if op == "set" { n - 1 - i } else { i };
                    out.extend(bytes(&args[j].0.cells, 0, e, &B::U));
                }
                return mem(out);
            }
            _ => {}
        }
        if name.contains("cast") {
            let mut b = by(0);
            b.resize(rs as usize, B::U);
            return mem(b);
        }
        if self.ap() {
            if let Some(b) = self.ap_vector(op, ty, es, args, rs, imm) {
                return Some(b);
            }
        }
        if self.rg() {
            if let Some(b) = self.rg_vector(op, ty, es, args, rs) {
                return Some(b);
            }
        }
        match (op, ty) {
            ("add" | "adds", _) if es.is_some() && ty != "ss" && ty != "sh" => {
                let e = es?;
                let (a, b) = (el(0, e), el(1, e));
                return Some(blob_of((0..a.len()).map(|i| self.ln_add(st, &a[i], &b[i])).collect(), e));
            }
            ("add", "ss") => {
                let (a, b) = (el(0, 4), el(1, 4));
                let mut o = a.clone();
                o[0] = self.ln_add(st, &a[0], &b[0]);
                return Some(blob_of(o, 4));
            }
            ("mul" | "mulhrs" | "mullo" | "mulhi", "ps" | "pd" | "ph" | "epi16") | ("mullo", "epi32") => {
                let e = es?;
                let (a, b) = (el(0, e), el(1, e));
                return Some(blob_of((0..a.len()).map(|i| self.ln_mul(&a[i], &b[i])).collect(), e));
            }
            ("fmadd", "ps" | "pd" | "ph") => {
                let e = es?;
                let (a, b, c) = (el(0, e), el(1, e), el(2, e));
                return Some(blob_of(
                    (0..a.len())
                        .map(|i| {
                            let m = self.ln_mul(&a[i], &b[i]);
                            self.ln_add(st, &c[i], &m)
                        })
                        .collect(),
                    e,
                ));
            }
            ("madd", "epi16") | ("dpwssd" | "dpwssds", "epi32") => {
                let acc = op != "madd";
                let (x, y) = if acc { (1, 2) } else { (0, 1) };
                let (a, b) = (el(x, 2), el(y, 2));
                let c = if acc { Some(el(0, 4)) } else { None };
                return Some(blob_of(
                    (0..a.len() / 2)
                        .map(|i| {
                            let p = self.ln_mul(&a[2 * i], &b[2 * i]);
                            let q = self.ln_mul(&a[2 * i + 1], &b[2 * i + 1]);
                            let s = self.ln_add(st, &p, &q);
                            match &c {
                                Some(c) => self.ln_add(st, &c[i], &s),
                                None => s,
                            }
                        })
                        .collect(),
                    4,
                ));
            }
            ("hadd" | "hadds", _) if es.is_some() => {
                let e = es?;
                let (a, b) = (el(0, e), el(1, e));
                let h = (16 / e) as usize;
                let mut o = vec![];
                for l in 0..a.len() / h {
                    for v in [&a, &b] {
                        for i in 0..h / 2 {
                            o.push(self.ln_add(st, &v[l * h + 2 * i], &v[l * h + 2 * i + 1]));
                        }
                    }
                }
                return Some(blob_of(o, e));
            }
            ("min" | "max", _) if es.is_some() => {
                let e = es?;
                let (a, b) = (el(0, e), el(1, e));
                return Some(blob_of((0..a.len()).map(|i| self.ln_pick(&a[i], &b[i])).collect(), e));
            }
            ("packs" | "packus", "epi16" | "epi32") => {
                let e = es?;
                let (a, b) = (el(0, e), el(1, e));
                let h = (16 / e) as usize;
                let mut o = vec![];
                for l in 0..a.len() / h {
                    for v in [&a, &b] {
                        for i in 0..h {
                            o.push(self.ln_keep(&v[l * h + i]));
                        }
                    }
                }
                return Some(blob_of(o, e / 2));
            }
            ("slli" | "srli" | "srai", "epi16" | "epi32") => {
                let e = es?;
                return Some(blob_of(el(0, e).iter().map(|v| self.ln_keep(v)).collect(), e));
            }
            ("slli" | "bslli" | "srli" | "bsrli", "si128") => {
                let k = imm? as usize;
                let b = by(0);
                let mut o = vec![B::C(0); 16];
                for i in 0..16 {
                    if op.contains("sl") && i >= k {
                        o[i] = b[i - k].clone();
                    } else if op.contains("sr") && i + k < 16 {
                        o[i] = b[i + k].clone();
                    }
                }
                return mem(o);
            }
            ("alignr", "epi8") => {
                let k = imm? as usize;
                let (a, b) = (by(0), by(1));
                let mut o = vec![];
                for l in 0..a.len() / 16 {
                    for i in 0..16 {
                        let j = i + k;
                        o.push(if j < 16 { b[l * 16 + j].clone() } else if j < 32 { a[l * 16 + j - 16].clone() } else { B::C(0) });
                    }
                }
                return mem(o);
            }
            ("unpacklo" | "unpackhi", _) => {
                let e = es? as usize;
                let (a, b) = (by(0), by(1));
                let mut o = vec![];
                for l in 0..a.len() / 16 {
                    let base = l * 16 + if op == "unpackhi" { 8 } else { 0 };
                    for i in 0..8 / e {
                        o.extend_from_slice(&a[base + i * e..base + (i + 1) * e]);
                        o.extend_from_slice(&b[base + i * e..base + (i + 1) * e]);
                    }
                }
                return mem(o);
            }
            ("shuffle", "epi8") => {
                let (a, m) = (by(0), by(1));
                let mut o = vec![];
                for i in 0..a.len() {
                    let B::C(k) = m[i] else { return None };
                    o.push(if k & 0x80 != 0 { B::C(0) } else { a[i / 16 * 16 + (k & 15) as usize].clone() });
                }
                return mem(o);
            }
            ("shuffle", "epi32") => {
                let k = imm?;
                let a = by(0);
                let mut o = vec![];
                for l in 0..a.len() / 16 {
                    for i in 0..4 {
                        let j = l * 16 + ((k >> (2 * i)) & 3) as usize * 4;
                        o.extend_from_slice(&a[j..j + 4]);
                    }
                }
                return mem(o);
            }
            ("shuffle", "ps") => {
                let k = imm?;
                let (a, b) = (by(0), by(1));
                let mut o = vec![];
                for l in 0..a.len() / 16 {
                    for i in 0..4 {
                        let v = if i < 2 { &a } else { &b };
                        let j = l * 16 + ((k >> (2 * i)) & 3) as usize * 4;
                        o.extend_from_slice(&v[j..j + 4]);
                    }
                }
                return mem(o);
            }
            ("shufflelo" | "shufflehi", "epi16") => {
                let k = imm?;
                let a = by(0);
                let mut o = a.clone();
                for l in 0..a.len() / 16 {
                    let base = l * 16 + if op == "shufflehi" { 8 } else { 0 };
                    for i in 0..4 {
                        let j = base + ((k >> (2 * i)) & 3) as usize * 2;
                        for t in 0..2 {
                            o[base + 2 * i + t] = a[j + t].clone();
                        }
                    }
                }
                return mem(o);
            }
            ("permute4x64", _) => {
                let k = imm?;
                let a = by(0);
                let mut o = vec![];
                for i in 0..4 {
                    let j = ((k >> (2 * i)) & 3) as usize * 8;
                    o.extend_from_slice(&a[j..j + 8]);
                }
                return mem(o);
            }
            ("permute2x128" | "permute2f128", _) => {
                let k = imm?;
                let (a, b) = (by(0), by(1));
                let mut o = vec![];
                for i in 0..2 {
                    let c = (k >> (4 * i)) & 15;
                    if c & 8 != 0 {
                        o.extend(vec![B::C(0); 16]);
                    } else {
                        let v = if c & 2 == 0 { &a } else { &b };
                        let j = (c & 1) as usize * 16;
                        o.extend_from_slice(&v[j..j + 16]);
                    }
                }
                return mem(o);
            }
            ("permutevar8x32", _) => {
                let a = by(0);
                let mut o = vec![];
                for m in el(1, 4) {
                    let Val::Int(p) = m else { return None };
                    let j = (p.is_const()? & 7) as usize * 4;
                    o.extend_from_slice(&a[j..j + 4]);
                }
                return mem(o);
            }
            ("movehdup", "ps") | ("moveldup", "ps") => {
                let a = by(0);
                let mut o = vec![];
                for i in 0..a.len() / 4 {
                    let j = (i & !1) + (op == "movehdup") as usize;
                    o.extend_from_slice(&a[j * 4..j * 4 + 4]);
                }
                return mem(o);
            }
            ("movehl", "ps") => {
                let (a, b) = (by(0), by(1));
                let mut o = b[8..16].to_vec();
                o.extend_from_slice(&a[8..16]);
                return mem(o);
            }
            ("move", "ss") => {
                let mut o = by(1)[..4].to_vec();
                o.extend_from_slice(&by(0)[4..16]);
                return mem(o);
            }
            ("movelh", "ps") => {
                let (a, b) = (by(0), by(1));
                let mut o = a[..8].to_vec();
                o.extend_from_slice(&b[..8]);
                return mem(o);
            }
            ("cvtsi32", "si128") | ("cvtsi64", "si128") => {
                let n = size(0) as usize;
                let mut o = by(0);
                o.truncate(n);
                o.resize(16, B::C(0));
                return mem(o);
            }
            ("cvtsi128", "si32") | ("cvtsi128", "si64") | ("cvtss", "f32") => {
                let b = bytes(&args[0].0.cells, 0, rs, &B::U);
                return Some(Blob::one(rs, compose(&b)));
            }
            ("cvtepi32", "ps") | ("cvtps", "epi32") | ("cvttps", "epi32") => return Some(blob_of(el(0, 4).iter().map(|v| self.ln_keep(v)).collect(), 4)),
            ("round" | "roundscale", "ps") => return Some(blob_of(el(0, 4).iter().map(|v| self.ln_keep(v)).collect(), 4)),
            ("cvtph", "ps") => {
                let v = elems(&args[0].0.cells, rs / 2, 2);
                return Some(blob_of(v.iter().map(|v| self.ln_keep(v)).collect(), 4));
            }
            ("cvtps", "ph") => {
                let mut v: Vec<Val> = el(0, 4).iter().map(|v| self.ln_keep(v)).collect();
                v.resize((rs / 2) as usize, Val::Int(Poly::c(0)));
                return Some(blob_of(v, 2));
            }
            (c, t) if c.starts_with("cvtep") && es.is_some() => {
                let from = sz_of(c.strip_prefix("cvt")?)?;
                let to = sz_of(t)?;
                if from >= to {
                    return None;
                }
                let v = elems(&args[0].0.cells, rs / to * from, from);
                return Some(blob_of(v, to));
            }
            ("extract", "epi8" | "epi16" | "epi32" | "epi64" | "ps") => {
                let e = es?;
                let k = imm? as u64 & (size(0) / e - 1);
                let mut b = bytes(&args[0].0.cells, k * e, e, &B::U);
                b.resize(rs as usize, B::C(0));
                return Some(Blob::one(rs, compose(&b)));
            }
            ("extractf128", _) | ("extracti128", _) => {
                let k = (imm? & 1) as usize;
                return mem(by(0)[k * 16..k * 16 + 16].to_vec());
            }
            ("insertf128", _) | ("inserti128", _) => {
                let k = (imm? & 1) as usize;
                let mut o = by(0);
                let b = by(1);
                o[k * 16..k * 16 + 16].clone_from_slice(&b[..16]);
                return mem(o);
            }
            ("set", "m128i") | ("setr", "m128i") | ("set", "m128") | ("setr", "m128") => return None,
            ("insert", "epi8" | "epi16" | "epi32" | "epi64") => {
                let e = es?;
                let k = imm? as u64 & (size(0) / e - 1);
                let mut o = by(0);
                let b = bytes(&args[1].0.cells, 0, e, &B::U);
                for i in 0..e as usize {
                    o[(k * e) as usize + i] = b[i].clone();
                }
                return mem(o);
            }
            ("broadcastss", "ps") | ("broadcastw", "epi16") | ("broadcastd", "epi32") | ("broadcastb", "epi8") | ("broadcastq", "epi64") => {
                let e = es? as usize;
                let a = by(0);
                let mut o = vec![];
                for _ in 0..rs as usize / e {
                    o.extend_from_slice(&a[..e]);
                }
                return mem(o);
            }
            _ => {}
        }
        let _ = scalar;
        None
    }
    /// contents of a vector load
    pub fn ln_load(&mut self, st: &State, name: &str, loc: &Loc, sz: u64, ret: u64) -> Blob {
        let c = self.ln_read(st, loc.reg, &loc.off, sz);
        if name.contains("load1") || name.contains("load_ps1") || name.contains("broadcast") {
            let b = bytes(&c, 0, sz, &B::U);
            let mut o = vec![];
            for _ in 0..ret / sz {
                o.extend(b.iter().cloned());
            }
            return Blob { cells: tidy(&o) };
        }
        let mut cells = c;
        if sz < ret {
            cells.push(Cell { off: sz, sz: ret - sz, val: Val::Int(Poly::c(0)) });
        }
        Blob { cells }
    }
}
pub fn show_lane(v: &Val) -> String {
    match v {
        Val::Ln(l) => match &**l {
            Lane::Px(p, _) => format!("px[{}]", p.show()),
            Lane::W(p) => format!("w[{}]", p.show()),
            Lane::Acc { x, res, ser } => format!("sum x={} from {} taps {}", x.show(), res.show(), ser.iter().map(|s| format!("{}+{}*{}", s.k.show(), s.m, s.n.show())).collect::<Vec<_>>().join(" | ")),
            Lane::Part(l, i, n) => format!("byte {i}/{n} of {}", show_lane(&Val::Ln(l.clone()))),
            Lane::Vec(v) => format!("[{}]", v.iter().map(|c| show_lane(&c.val)).collect::<Vec<_>>().join(", ")),
            Lane::K => "const".into(),
            Lane::Bad(t) => format!("bad: {t}"),
            Lane::R(f) => format!("r{f}"),
            Lane::Cap => "cap".into(),
            Lane::Pow => "pow".into(),
            Lane::Above => "above".into(),
            Lane::Dep(d, _) => format!("f({})", d.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
        },
        v => show_val(v),
    }
}
