//! What each sample is made from: a value is followed as the set of samples it depends on. The
//! steps that multiply by alpha and divide by it must make a colour from itself and the alpha of
//! its own pixel, and keep alpha.
use super::interp::*;
use super::lanes::*;
use super::mem::*;
use super::poly::*;
use ps_ir::*;
use std::rc::Rc;

/// places of the samples a value is made from; None: not known
pub fn deps(v: &Val) -> Option<Vec<Poly>> {
    let mut out = vec![];
    match v {
        Val::Int(_) | Val::Tag(_) | Val::F(..) => {}
        Val::Ln(l) => match &**l {
            Lane::K => {}
            Lane::Px(o, _) => out.push(o.clone()),
            Lane::Dep(d, _) => out = d.clone(),
            Lane::Part(x, ..) => return deps(&Val::Ln(x.clone())),
            Lane::Vec(c) => {
                for c in c {
                    for d in deps(&c.val)? {
                        if !out.contains(&d) {
                            out.push(d);
                        }
                    }
                }
            }
            _ => return None,
        },
        _ => return None,
    }
    Some(out)
}
/// a function of some values
pub fn mix(vals: &[&Val]) -> Val {
    let mut out: Vec<Poly> = vec![];
    for v in vals {
        let Some(d) = deps(v) else { return Val::Opaque };
        for d in d {
            if !out.contains(&d) {
                out.push(d);
            }
        }
    }
    if out.len() > 8 {
        return Val::Opaque;
    }
    let made = vals.iter().any(|v| is_made(v));
    Val::Ln(Rc::new(if out.is_empty() { Lane::K } else { Lane::Dep(out, made) }))
}
fn is_made(v: &Val) -> bool {
    let Val::Ln(l) = v else { return false };
    match &**l {
        Lane::Dep(_, made) => *made,
        Lane::Part(x, ..) => is_made(&Val::Ln(x.clone())),
        Lane::Vec(c) => c.iter().any(|c| is_made(&c.val)),
        _ => false,
    }
}
/// values multiplied or divided
fn product(vals: &[&Val]) -> Val {
    let n = vals.iter().filter(|v| deps(v).map(|d| !d.is_empty()).unwrap_or(false)).count();
    match mix(vals) {
        Val::Ln(l) if n > 1 => match &*l {
            Lane::Dep(d, _) => Val::Ln(Rc::new(Lane::Dep(d.clone(), true))),
            _ => Val::Ln(l),
        },
        v => v,
    }
}
/// one of some values, as told by others
fn choice(vals: &[&Val], by: &[&Val]) -> Val {
    let all: Vec<&Val> = vals.iter().chain(by).copied().collect();
    match mix(&all) {
        Val::Ln(l) => match &*l {
            Lane::Dep(d, _) => Val::Ln(Rc::new(Lane::Dep(d.clone(), vals.iter().all(|v| is_made(v))))),
            _ => Val::Ln(l),
        },
        v => v,
    }
}
/// the same number in another form
pub fn same(v: &Val) -> Val {
    match v {
        Val::Ln(l) => match &**l {
            Lane::Px(o, _) => Val::Ln(Rc::new(Lane::Px(o.clone(), 0))),
            _ => mix(&[v]),
        },
        _ if is_k(v) => v.clone(),
        _ => mix(&[v]),
    }
}
/// the same number in so many bytes
fn sized(v: &Val, n: u64) -> Val {
    match v {
        Val::Ln(l) if matches!(&**l, Lane::Px(_, s) if *s > 0 && *s as u64 <= n) => v.clone(),
        _ => same(v),
    }
}
fn is_dep(v: &Val) -> bool {
    matches!(v, Val::Ln(l) if matches!(**l, Lane::Dep(..)))
}
/// values of several paths
pub fn merge(vals: &[Val]) -> Option<Val> {
    if !vals.iter().any(is_dep) {
        return None;
    }
    Some(choice(&vals.iter().collect::<Vec<_>>(), &[]))
}
fn is_zero(v: &Val) -> bool {
    matches!(v, Val::Int(p) if p.is_zero())
}
fn wide(b: &B) -> usize {
    match b {
        B::P(l, _, n) => match &**l {
            Lane::Dep(..) | Lane::Px(..) => (*n).max(1) as usize,
            _ => 1,
        },
        _ => 1,
    }
}
/// bitwise operations byte by byte, as long as one side is known
fn bitwise(op: &str, a: &[B], b: &[B]) -> Vec<B> {
    let inv = op == "andnot";
    let a: Vec<B> = a.iter().map(|x| if let (true, B::C(k)) = (inv, x) { B::C(!k) } else { x.clone() }).collect();
    let and = matches!(op, "and" | "andnot");
    // samples are kept whole
    let g = a.iter().chain(b).map(wide).max().unwrap_or(1);
    let mut out = vec![B::U; a.len()];
    let mut i = 0;
    while i < a.len() {
        let one = |x: &B, y: &B| -> Option<B> {
            Some(match (x, y) {
                (B::C(x), B::C(y)) => B::C(match op {
                    "and" | "andnot" => x & y,
                    "or" => x | y,
                    _ => x ^ y,
                }),
                (B::C(0), _) | (_, B::C(0)) if and => B::C(0),
                (B::C(255), o) | (o, B::C(255)) if and => o.clone(),
                (B::C(0), o) | (o, B::C(0)) if !and => o.clone(),
                _ => return None,
            })
        };
        let n = g.min(a.len() - i);
        let r: Vec<Option<B>> = (i..i + n).map(|j| one(&a[j], &b[j])).collect();
        if r.iter().all(|x| x.is_some()) {
            for (j, x) in r.into_iter().enumerate() {
                out[i + j] = x.unwrap();
            }
        } else {
            let v = mix(&[&compose(&a[i..i + n]), &compose(&b[i..i + n])]);
            put(&mut out[i..i + n], &v);
        }
        i += n;
    }
    out
}
fn put(out: &mut [B], v: &Val) {
    let n = out.len() as u64;
    let b = bytes(&[Cell { off: 0, sz: n, val: v.clone() }], 0, n, &B::U);
    out.clone_from_slice(&b);
}

impl<'p> Interp<'p> {
    pub fn ap(&self) -> bool {
        self.lanes.as_ref().map(|l| l.alpha).unwrap_or(false)
    }
    /// what stands in a table at a place made from samples
    pub fn ap_table(&self, off: &Poly) -> Val {
        let mut out: Vec<Poly> = vec![];
        for y in off.syms() {
            let Some(d) = self.ap_syms.get(&y) else { return Val::Opaque };
            out.extend(d.iter().filter(|x| !out.contains(x)).cloned().collect::<Vec<_>>());
        }
        if out.is_empty() { Val::Opaque } else { Val::Ln(Rc::new(Lane::Dep(out, false))) }
    }
    pub fn ap_binop(&mut self, op: BinOp, a: &Val, b: &Val, bits: u32) -> Val {
        use BinOp::*;
        match op {
            Add | Or | Xor if is_zero(a) => b.clone(),
            Add | Sub | Or | Xor | Shl | Shr if is_zero(b) => a.clone(),
            And | Or | Xor | Shr | Shl if bits % 8 == 0 => {
                let n = bits as u64 / 8;
                let x = bytes(&[Cell { off: 0, sz: n, val: a.clone() }], 0, n, &B::U);
                let y = bytes(&[Cell { off: 0, sz: n, val: b.clone() }], 0, n, &B::U);
                if matches!(op, Shl | Shr) {
                    if let (Val::Int(p), Val::Ln(_)) = (b, a) {
                        if let Some(k) = p.is_const().filter(|k| k % 8 == 0 && *k >= 0 && *k < bits as i128) {
                            return compose(&moved(&x, (k / 8) as usize, op == Shl));
                        }
                    }
                    return mix(&[a, b]);
                }
                compose(&bitwise(match op { And => "and", Or => "or", _ => "xor" }, &x, &y))
            }
            Mul | Div | Rem => product(&[a, b]),
            _ => mix(&[a, b]),
        }
    }
    pub fn ap_cast(&self, v: &Val, from: TyId, to: TyId) -> Val {
        let int = |t: TyId| matches!(self.p.t(t).kind, TyKind::Int { .. });
        if let Val::Ln(l) = v {
            if let (Lane::Vec(c), true) = (&**l, int(from) && int(to)) {
                return compose(&bytes(c, 0, self.sz(to), &B::C(0)));
            }
        }
        if int(from) && int(to) {
            return sized(v, self.sz(to));
        }
        same(v)
    }
    pub fn ap_call(&self, last: &str, vs: &[Val], tys: &[TyId], ret: TyId) -> Option<Val> {
        Some(match (last, vs.len()) {
            ("as_" | "from" | "into", 1) => self.ap_cast(&vs[0], tys[0], ret),
            ("to_bits" | "from_bits", 1) => vs[0].clone(),
            (n, 1) if n.starts_with("round") || n.starts_with("ceil") || n.starts_with("rint") || n.starts_with("trunc") || n.starts_with("floor") => same(&vs[0]),
            ("min" | "max" | "clamp", _) if deps(&vs[0]).map(|d| d.len() == 1).unwrap_or(false) && vs[1..].iter().all(is_k) => same(&vs[0]),
            (n, _) if n.contains("mul") || n.contains("div") || n.starts_with("powi") => product(&vs.iter().collect::<Vec<_>>()),
            _ => mix(&vs.iter().collect::<Vec<_>>()),
        })
    }
    pub fn ap_vector(&self, op: &str, ty: &str, es: Option<u64>, args: &[(Blob, TyId)], rs: u64, imm: Option<i128>) -> Option<Blob> {
        let size = |i: usize| self.sz(args[i].1);
        let by = |i: usize| bytes(&args[i].0.cells, 0, size(i), &B::U);
        let el = |i: usize, e: u64| elems(&args[i].0.cells, size(i), e);
        let mem = |b: Vec<B>| Some(Blob { cells: tidy(&b) });
        let all = |e: u64| -> Option<Blob> {
            let v: Vec<Vec<Val>> = (0..args.len()).map(|i| if size(i) == rs { el(i, e) } else { vec![] }).collect();
            if v.iter().any(|x| x.len() as u64 != rs / e) {
                return None;
            }
            Some(blob_of((0..(rs / e) as usize).map(|i| if op.contains("mul") || op == "div" { product(&v.iter().map(|x| &x[i]).collect::<Vec<_>>()) } else { mix(&v.iter().map(|x| &x[i]).collect::<Vec<_>>()) }).collect(), e))
        };
        match (op, ty) {
            ("add" | "adds" | "sub" | "subs", "epi8" | "epu8" | "epi16" | "epu16" | "epi32" | "ps" | "ph") => {
                let e = es?;
                let (a, b) = (el(0, e), el(1, e));
                Some(blob_of(
                    a.iter()
                        .zip(&b)
                        .map(|(x, y)| match op {
                            "add" | "adds" if is_zero(x) => y.clone(),
                            _ if is_zero(y) => x.clone(),
                            _ => mix(&[x, y]),
                        })
                        .collect(),
                    e,
                ))
            }
            ("mul" | "mullo" | "mulhi" | "mulhrs" | "div" | "avg" | "fmadd" | "fmsub" | "fnmadd" | "rcp" | "rcp14" | "sqrt", _) if es.is_some() && !(op == "mul" && ty.starts_with("ep")) => all(es?),
            ("min" | "max", _) if es.is_some() => {
                let e = es?;
                let (a, b) = (el(0, e), el(1, e));
                Some(blob_of(
                    a.iter()
                        .zip(&b)
                        .map(|(x, y)| match (is_k(x), is_k(y)) {
                            (true, false) => same(y),
                            (false, true) => same(x),
                            _ => mix(&[x, y]),
                        })
                        .collect(),
                    e,
                ))
            }
            ("cmp", "ps") | ("cmpeq" | "cmpgt" | "cmplt" | "cmpneq" | "cmpge" | "cmple", _) if es.is_some() && args.len() == 2 && size(0) == rs => all(es?),
            ("packs" | "packus", "epi16" | "epi32") => {
                let e = es?;
                let (a, b) = (el(0, e), el(1, e));
                let h = (16 / e) as usize;
                let mut o = vec![];
                for l in 0..a.len() / h {
                    for v in [&a, &b] {
                        for i in 0..h {
                            o.push(sized(&v[l * h + i], e / 2));
                        }
                    }
                }
                Some(blob_of(o, e / 2))
            }
            ("srli" | "srai" | "slli", "epi16" | "epi32" | "epi64") => {
                let e = es?;
                let k = imm?;
                if op != "srai" && k % 8 == 0 && k >= 0 {
                    let b = by(0);
                    return mem(b.chunks(e as usize).flat_map(|c| moved(c, (k / 8) as usize, op == "slli")).collect());
                }
                Some(blob_of(el(0, e).iter().map(|v| mix(&[v])).collect(), e))
            }
            ("cvtepi32", "ps") | ("cvtps", "epi32") | ("cvttps", "epi32") => Some(blob_of(el(0, 4).iter().map(same).collect(), 4)),
            ("round" | "roundscale" | "floor" | "ceil", "ps") => Some(blob_of(el(0, 4).iter().map(same).collect(), 4)),
            ("cvtph", "ps") => Some(blob_of(elems(&args[0].0.cells, rs / 2, 2).iter().map(same).collect(), 4)),
            ("cvtps", "ph") => {
                let mut v: Vec<Val> = el(0, 4).iter().map(same).collect();
                v.resize((rs / 2) as usize, Val::Int(Poly::c(0)));
                Some(blob_of(v, 2))
            }
            ("and" | "or" | "xor" | "andnot", _) if args.len() == 2 => mem(bitwise(op, &by(0), &by(1))),
            ("blendv", _) => {
                let (a, b, m) = (by(0), by(1), by(2));
                let g = a.iter().chain(&b).chain(&m).map(wide).max().unwrap_or(1).max(if matches!(ty, "ps") { 4 } else { 1 });
                let mut out = vec![B::U; a.len()];
                for i in (0..a.len()).step_by(g) {
                    let r = i..(i + g).min(a.len());
                    if m[r.clone()].iter().all(|x| matches!(x, B::C(_))) {
                        for j in r {
                            let sel = if ty == "ps" { &m[j / 4 * 4 + 3] } else { &m[j] };
                            out[j] = if matches!(sel, B::C(k) if k & 0x80 != 0) { b[j].clone() } else { a[j].clone() };
                        }
                    } else {
                        let v = choice(&[&compose(&a[r.clone()]), &compose(&b[r.clone()])], &[&compose(&m[r.clone()])]);
                        put(&mut out[r], &v);
                    }
                }
                mem(out)
            }
            ("madd" | "maddubs" | "hadd" | "hadds" | "dpwssd" | "dpwssds" | "sad" | "mul", _) => Some(Blob::one(rs, Val::Opaque)),
            _ => None,
        }
    }
    /// a sample is looked at to decide what is done
    pub fn ap_compared(&mut self, a: &Val, b: &Val) {
        for v in [a, b] {
            if let (Val::Ln(_), Some(d)) = (v, deps(v)) {
                for d in d {
                    if !self.ap_seen.contains(&d) {
                        self.ap_seen.push(d);
                    }
                }
            }
        }
        if self.ap_seen.len() > 16 {
            let n = self.ap_seen.len() - 16;
            self.ap_seen.drain(..n);
        }
    }
    pub fn ap_store(&mut self, st: &mut State, off: &Poly, v: &Val) {
        match self.ap_check(st, off, v) {
            None => self.ob(st, ObK::LaneUnk, "sample", true, String::new),
            Some(Ok(())) => self.ob(st, ObK::Lane, "sample", true, String::new),
            Some(Err(t)) => self.ob(st, ObK::Lane, "sample", false, || t),
        }
    }
    fn ap_check(&mut self, st: &mut State, off: &Poly, v: &Val) -> Option<Result<(), String>> {
        let cx = self.lanes.clone()?;
        let dst = self.images.iter().find(|i| i.is_dst)?.clone();
        let src = self.images.iter().find(|i| !i.is_dst).cloned().unwrap_or_else(|| dst.clone());
        let (y, c) = Self::split_row(off, &dst.stride)?;
        let px = cx.esz * cx.cn;
        if c.terms().iter().any(|t| t.1 % px != 0) {
            return None;
        }
        let at = c.konst().rem_euclid(px);
        if at % cx.esz != 0 {
            return None;
        }
        let own = y.mul(&src.stride)?.add(&c);
        let alpha = own.addc((cx.cn - 1) * cx.esz - at);
        let is_alpha = at == (cx.cn - 1) * cx.esz;
        let d = deps(v)?;
        let has = |me: &Self, p: &Poly| d.iter().any(|x| me.zero(st, &x.sub(p)));
        let show = |d: &[Poly]| d.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ");
        // clear and opaque pixels may be dealt with on their own once their alpha was looked at
        let seen = self.ap_seen.clone();
        let looked = seen.iter().any(|x| self.zero(st, &x.sub(&alpha)));
        if is_alpha {
            return Some(match v {
                Val::Ln(l) if matches!(&**l, Lane::Px(..)) && has(self, &own) => Ok(()),
                _ if d.is_empty() && looked => Ok(()),
                _ if d.len() == 1 && has(self, &own) && is_made(v) => Err(format!("alpha at byte {} is multiplied by itself", off.show())),
                _ if d.len() == 1 && has(self, &own) => return None,
                _ => Err(format!("alpha at byte {} is not the alpha of its pixel but made from the samples at [{}]", off.show(), show(&d))),
            });
        }
        if d.is_empty() {
            if looked {
                return Some(Ok(()));
            }
            return Some(Err(format!("the colour at byte {} is replaced by a number", off.show())));
        }
        if looked && matches!(v, Val::Ln(l) if matches!(**l, Lane::Px(..))) && has(self, &own) {
            return Some(Ok(()));
        }
        let extra: Vec<Poly> = d.iter().filter(|x| !self.zero(st, &x.sub(&own)) && !self.zero(st, &x.sub(&alpha))).cloned().collect();
        if !extra.is_empty() {
            return Some(Err(format!("the colour at byte {} is made from the samples at [{}], its own place is {} and its alpha at {}", off.show(), show(&d), own.show(), alpha.show())));
        }
        if !has(self, &own) || !has(self, &alpha) {
            return Some(Err(format!("the colour at byte {} is made without {}", off.show(), if has(self, &own) { "the alpha of its pixel" } else { "its own value" })));
        }
        Some(Ok(()))
    }
}
/// bytes of an integer moved up or down
fn moved(b: &[B], k: usize, up: bool) -> Vec<B> {
    let n = b.len();
    (0..n)
        .map(|i| {
            let j = if up { i.checked_sub(k) } else { Some(i + k).filter(|j| *j < n) };
            j.map(|j| b[j].clone()).unwrap_or(B::C(0))
        })
        .collect()
}
