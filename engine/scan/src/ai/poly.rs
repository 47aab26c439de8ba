//! Integer polynomials over symbols. Machine integers are represented as polynomials that are
//! congruent to the machine value modulo 2^bits; ranges are proved only where a value is used.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Sym = u32;
pub type Mono = u32;
pub const ONE: Mono = 0;

pub struct SymInfo {
    pub lo: i128,
    pub hi: i128,
    pub name: Rc<str>,
}

#[derive(Default)]
pub struct Tables {
    pub syms: Vec<SymInfo>,
    pub monos: Vec<Rc<[Sym]>>,
    pub mono_ix: HashMap<Rc<[Sym]>, Mono>,
    pub prod: HashMap<(Mono, Mono), Mono>,
}

thread_local! { pub static T: RefCell<Tables> = RefCell::new(Tables::default()); }

pub fn reset_tables() {
    T.with(|t| {
        let mut t = t.borrow_mut();
        *t = Tables::default();
        let e: Rc<[Sym]> = Rc::from(Vec::new());
        t.monos.push(e.clone());
        t.mono_ix.insert(e, 0);
    })
}

pub fn fresh(name: &str, lo: i128, hi: i128) -> Sym {
    T.with(|t| {
        let mut t = t.borrow_mut();
        t.syms.push(SymInfo { lo, hi, name: Rc::from(name) });
        (t.syms.len() - 1) as Sym
    })
}
pub fn sym_count() -> u32 {
    T.with(|t| t.borrow().syms.len() as u32)
}
pub fn sym_range(s: Sym) -> (i128, i128) {
    T.with(|t| {
        let t = t.borrow();
        let i = &t.syms[s as usize];
        (i.lo, i.hi)
    })
}
pub fn sym_name(s: Sym) -> String {
    T.with(|t| format!("{}#{}", t.borrow().syms[s as usize].name, s))
}
pub fn mono(mut v: Vec<Sym>) -> Mono {
    v.sort_unstable();
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(m) = t.mono_ix.get(&v[..]) {
            return *m;
        }
        let r: Rc<[Sym]> = Rc::from(v);
        let id = t.monos.len() as Mono;
        t.monos.push(r.clone());
        t.mono_ix.insert(r, id);
        id
    })
}
pub fn mono_syms(m: Mono) -> Rc<[Sym]> {
    T.with(|t| t.borrow().monos[m as usize].clone())
}
pub fn mono_mul(a: Mono, b: Mono) -> Mono {
    if a == ONE {
        return b;
    }
    if b == ONE {
        return a;
    }
    let k = (a.min(b), a.max(b));
    if let Some(m) = T.with(|t| t.borrow().prod.get(&k).copied()) {
        return m;
    }
    let mut v = mono_syms(a).to_vec();
    v.extend_from_slice(&mono_syms(b));
    let m = mono(v);
    T.with(|t| t.borrow_mut().prod.insert(k, m));
    m
}
/// a / b when b divides a as a product of symbols
pub fn mono_div(a: Mono, b: Mono) -> Option<Mono> {
    if b == ONE {
        return Some(a);
    }
    let mut v = mono_syms(a).to_vec();
    for s in mono_syms(b).iter() {
        let p = v.iter().position(|x| x == s)?;
        v.remove(p);
    }
    Some(mono(v))
}

/// sorted by monomial, no zero coefficients
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Poly(pub Rc<[(Mono, i128)]>);

thread_local! { static SMALL: RefCell<HashMap<i128, Poly>> = RefCell::new(HashMap::new()); }

impl Poly {
    pub fn c(k: i128) -> Poly {
        if (-64..=4096).contains(&k) {
            return SMALL.with(|s| {
                s.borrow_mut()
                    .entry(k)
                    .or_insert_with(|| if k == 0 { Poly(Rc::from(vec![])) } else { Poly(Rc::from(vec![(ONE, k)])) })
                    .clone()
            });
        }
        Poly(Rc::from(vec![(ONE, k)]))
    }
    pub fn sym(s: Sym) -> Poly {
        Poly(Rc::from(vec![(mono(vec![s]), 1)]))
    }
    pub fn mono(m: Mono) -> Poly {
        Poly(Rc::from(vec![(m, 1)]))
    }
    pub fn from_vec(v: Vec<(Mono, i128)>) -> Poly {
        Poly(Rc::from(v))
    }
    pub fn is_const(&self) -> Option<i128> {
        match self.0.len() {
            0 => Some(0),
            1 if self.0[0].0 == ONE => Some(self.0[0].1),
            _ => None,
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn konst(&self) -> i128 {
        match self.0.first() {
            Some((ONE, k)) => *k,
            _ => 0,
        }
    }
    /// terms without the constant
    pub fn terms(&self) -> &[(Mono, i128)] {
        match self.0.first() {
            Some((ONE, _)) => &self.0[1..],
            _ => &self.0,
        }
    }
    pub fn coef(&self, m: Mono) -> i128 {
        self.0.binary_search_by_key(&m, |x| x.0).map(|i| self.0[i].1).unwrap_or(0)
    }
    pub fn add(&self, o: &Poly) -> Poly {
        self.lin(1, o, 1)
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.lin(1, o, -1)
    }
    pub fn addc(&self, k: i128) -> Poly {
        if k == 0 {
            return self.clone();
        }
        self.add(&Poly::c(k))
    }
    pub fn neg(&self) -> Poly {
        self.scale(-1)
    }
    pub fn scale(&self, k: i128) -> Poly {
        if k == 0 {
            return Poly::c(0);
        }
        if k == 1 {
            return self.clone();
        }
        Poly(self.0.iter().map(|x| (x.0, sat_mul(x.1, k))).collect::<Vec<_>>().into())
    }
    pub fn lin(&self, ka: i128, o: &Poly, kb: i128) -> Poly {
        if o.is_zero() || kb == 0 {
            return self.scale(ka);
        }
        if self.is_zero() || ka == 0 {
            return o.scale(kb);
        }
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push((a[i].0, sat_mul(a[i].1, ka)));
                i += 1;
            } else if i >= a.len() || b[j].0 < a[i].0 {
                r.push((b[j].0, sat_mul(b[j].1, kb)));
                j += 1;
            } else {
                let c = sat_mul(a[i].1, ka).checked_add(sat_mul(b[j].1, kb)).expect("coefficient overflow");
                if c != 0 {
                    r.push((a[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Poly(r.into())
    }
    pub fn degree(&self) -> usize {
        self.0.iter().map(|x| mono_syms(x.0).len()).max().unwrap_or(0)
    }
    pub fn mul(&self, o: &Poly) -> Option<Poly> {
        if let Some(k) = self.is_const() {
            return o.checked_scale(k);
        }
        if let Some(k) = o.is_const() {
            return self.checked_scale(k);
        }
        if self.0.len() * o.0.len() > 36 || self.degree() + o.degree() > 5 {
            return None;
        }
        let mut m: std::collections::BTreeMap<Mono, i128> = Default::default();
        for a in self.0.iter() {
            for b in o.0.iter() {
                let k = a.1.checked_mul(b.1)?;
                if k.abs() > 1 << 100 {
                    return None;
                }
                *m.entry(mono_mul(a.0, b.0)).or_insert(0) += k;
            }
        }
        Some(Poly::from_vec(m.into_iter().filter(|x| x.1 != 0).collect()))
    }
    pub fn checked_scale(&self, k: i128) -> Option<Poly> {
        if self.0.iter().any(|x| x.1.checked_mul(k).map_or(true, |v| v.abs() > 1 << 100)) {
            return None;
        }
        Some(self.scale(k))
    }
    /// exact division by an integer constant
    pub fn div_const(&self, k: i128) -> Option<Poly> {
        if self.0.iter().all(|x| x.1 % k == 0) {
            Some(Poly::from_vec(self.0.iter().map(|x| (x.0, x.1 / k)).collect()))
        } else {
            None
        }
    }
    /// exact polynomial division self = q * d, for few-term divisors
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if self.is_zero() {
            return Some(self.clone());
        }
        if let Some(k) = d.is_const() {
            return if k == 0 { None } else { self.div_const(k) };
        }
        let lead = *d.0.last().unwrap();
        let mut rest = self.clone();
        let mut q = Poly::c(0);
        for _ in 0..12 {
            if rest.is_zero() {
                return Some(q);
            }
            // pick a term divisible by the divisor's leading term
            let t = rest.0.iter().rev().find_map(|x| if x.1 % lead.1 == 0 { mono_div(x.0, lead.0).map(|m| (m, x.1 / lead.1)) } else { None })?;
            let tq = Poly::from_vec(vec![t]);
            q = q.add(&tq);
            rest = rest.sub(&tq.mul(d)?);
        }
        None
    }
    pub fn syms(&self) -> Vec<Sym> {
        let mut v: Vec<Sym> = vec![];
        for x in self.0.iter() {
            for s in mono_syms(x.0).iter() {
                if !v.contains(s) {
                    v.push(*s);
                }
            }
        }
        v
    }
    pub fn has_sym(&self, s: Sym) -> bool {
        self.0.iter().any(|x| mono_syms(x.0).contains(&s))
    }
    /// substitute s := e
    pub fn subst(&self, s: Sym, e: &Poly) -> Option<Poly> {
        if !self.has_sym(s) {
            return Some(self.clone());
        }
        let mut r = Poly::c(0);
        let ms = mono(vec![s]);
        for x in self.0.iter() {
            let mut m = x.0;
            let mut p = 0;
            while let Some(d) = mono_div(m, ms) {
                m = d;
                p += 1;
            }
            let mut t = Poly::from_vec(vec![(m, x.1)]);
            for _ in 0..p {
                t = t.mul(e)?;
            }
            r = r.add(&t);
        }
        Some(r)
    }
    pub fn gcd_terms(&self) -> i128 {
        let mut g: i128 = 0;
        for x in self.terms() {
            g = gcd(g, x.1.abs());
        }
        g
    }
    pub fn too_big(&self) -> bool {
        self.0.len() > 24 || self.0.iter().any(|x| x.1.abs() > 1 << 90)
    }
    pub fn show(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = String::new();
        for (m, k) in self.0.iter() {
            if !s.is_empty() {
                s.push_str(if *k < 0 { " - " } else { " + " });
            } else if *k < 0 {
                s.push('-');
            }
            let a = k.abs();
            if *m == ONE {
                s.push_str(&a.to_string());
            } else {
                if a != 1 {
                    s.push_str(&format!("{a}*"));
                }
                let v: Vec<String> = mono_syms(*m).iter().map(|x| sym_name(*x)).collect();
                s.push_str(&v.join("*"));
            }
        }
        s
    }
}
pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a } else { gcd(b, a % b) }
}
fn sat_mul(a: i128, b: i128) -> i128 {
    a.checked_mul(b).expect("coefficient overflow")
}
impl std::fmt::Debug for Poly {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.show())
    }
}
