//! Which samples are known to lie in [0, 2^depth - 1]: a value is followed as two facts, whether it
//! is known not to be negative and whether it is known not to be above the largest sample.
use super::interp::*;
use super::lanes::*;
use super::mem::*;
use super::poly::*;
use ps_ir::*;
use std::rc::Rc;

/// not negative
pub const LO: u8 = 1;
/// not above the largest sample
pub const HI: u8 = 2;
pub const IN: u8 = 3;

pub fn r(f: u8) -> Val {
    Val::Ln(Rc::new(Lane::R(f)))
}
fn cap() -> Val {
    Val::Ln(Rc::new(Lane::Cap))
}
/// what is known of a value; None: nothing is known, not even where it comes from
pub fn known(v: &Val) -> Option<u8> {
    Some(match v {
        Val::Int(p) => match p.is_const() {
            Some(c) => (if c >= 0 { LO } else { 0 }) | if c <= 1 { HI } else { 0 },
            None => 0,
        },
        Val::Tag(c) => (if *c >= 0 { LO } else { 0 }) | if *c <= 1 { HI } else { 0 },
        Val::F(a, b) => (if f64::from_bits(*a) >= 0.0 { LO } else { 0 }) | if f64::from_bits(*b) <= 1.0 { HI } else { 0 },
        Val::Ln(l) => match &**l {
            Lane::R(f) => *f,
            Lane::Cap => IN,
            Lane::Pow => LO,
            Lane::Above => HI,
            Lane::K => 0,
            // some of the bits of a sample are never more than it
            Lane::Part(x, ..) => match &**x {
                Lane::R(IN) | Lane::Cap => IN,
                _ => 0,
            },
            _ => return None,
        },
        _ => return None,
    })
}
fn is_cap(v: &Val) -> bool {
    matches!(v, Val::Ln(l) if matches!(**l, Lane::Cap))
}
fn is_rg(v: &Val) -> bool {
    matches!(v, Val::Ln(l) if matches!(**l, Lane::R(_) | Lane::Cap | Lane::Pow | Lane::Above))
}
/// values of several paths
pub fn merge(vals: &[Val]) -> Option<Val> {
    if !vals.iter().any(is_rg) {
        return None;
    }
    Some(match vals.iter().map(known).collect::<Option<Vec<u8>>>() {
        Some(f) => r(f.into_iter().fold(IN, |a, b| a & b)),
        None => Val::Opaque,
    })
}
/// result of arithmetic that is not followed further
pub fn mix(a: &Val, b: &Val) -> Val {
    match (known(a), known(b)) {
        (Some(_), Some(_)) if is_k(a) && is_k(b) => Val::Ln(Rc::new(Lane::K)),
        (Some(_), Some(_)) => r(0),
        _ => Val::Opaque,
    }
}
/// a value that is rounded, or stored in another form that holds all of it
pub fn same(a: &Val) -> Val {
    match known(a) {
        _ if is_cap(a) => a.clone(),
        Some(_) if is_k(a) && !is_rg(a) => Val::Ln(Rc::new(Lane::K)),
        Some(f) => r(f),
        None => Val::Opaque,
    }
}
pub fn lower(a: &Val, b: &Val, unsigned: bool) -> Val {
    match (known(a), known(b)) {
        (Some(x), Some(y)) => {
            if unsigned {
                r(if x == IN || y == IN { IN } else { 0 })
            } else {
                r((x | y) & HI | x & y & LO)
            }
        }
        // a sample is a bound for anything
        (Some(IN), None) | (None, Some(IN)) if unsigned => r(IN),
        _ => Val::Opaque,
    }
}
pub fn upper(a: &Val, b: &Val, unsigned: bool) -> Val {
    match (known(a), known(b)) {
        (Some(x), Some(y)) => {
            if unsigned {
                r(if x & y == IN { IN } else { 0 })
            } else {
                r((x | y) & LO | x & y & HI)
            }
        }
        _ => Val::Opaque,
    }
}
/// all bits of the result are bits of one of the values
fn bits(a: &Val, b: &Val) -> Val {
    match (known(a), known(b)) {
        (Some(x), Some(y)) if is_k(a) && is_k(b) && (x & y) != IN => Val::Ln(Rc::new(Lane::K)),
        (Some(x), Some(y)) => r(if x & y == IN { IN } else { 0 }),
        _ => Val::Opaque,
    }
}
/// some of the bits of `a`
fn part(a: &Val, m: &Val) -> Val {
    match (known(a), known(m)) {
        (Some(IN), _) => r(IN),
        (_, Some(IN)) => r(IN),
        (Some(_), Some(_)) if is_k(a) && is_k(m) => Val::Ln(Rc::new(Lane::K)),
        (Some(_), Some(_)) => r(0),
        _ => Val::Opaque,
    }
}
fn shr(a: &Val, logical: bool) -> Val {
    match known(a) {
        Some(IN) => r(IN),
        Some(_) if is_k(a) && !is_rg(a) => Val::Ln(Rc::new(Lane::K)),
        Some(f) if f & LO != 0 || !logical => r(f),
        Some(_) => r(0),
        None => Val::Opaque,
    }
}
fn both(a: &Val, b: &Val) -> Val {
    merge(&[a.clone(), b.clone()]).unwrap_or_else(|| if is_k(a) && is_k(b) { Val::Ln(Rc::new(Lane::K)) } else { Val::Opaque })
}
/// signed lanes of so many bits do not hold the samples of a deep image
fn loses(cx: &LnCtx, e: u64, signed: bool) -> bool {
    signed && e <= 2 && cx.deep
}

impl<'p> Interp<'p> {
    pub fn rg(&self) -> bool {
        self.lanes.as_ref().map(|l| l.range).unwrap_or(false)
    }
    /// 2^depth and the largest sample
    pub fn rg_shift(&self, op: BinOp, a: &Val, b: &Val, signed: bool, bits: u32) -> Option<Val> {
        let cx = self.lanes.as_ref()?;
        let d = cx.depth.as_ref()?;
        let (Val::Int(x), Val::Int(y)) = (a, b) else { return None };
        let c = x.is_const()?;
        let small = bits <= 16 && (cx.deep || bits < 16) || bits == 16 && signed && cx.deep;
        match op {
            BinOp::Shl if c == 1 && y == d => Some(if small { Val::Opaque } else { Val::Ln(Rc::new(Lane::Pow)) }),
            BinOp::Shl if c == -1 || c == (1i128 << bits) - 1 => (y == d).then(|| if small { Val::Opaque } else { Val::Ln(Rc::new(Lane::Above)) }),
            BinOp::Shr if !signed && c == (1i128 << bits) - 1 && *y == d.neg().addc(bits as i128) => Some(cap()),
            _ => None,
        }
    }
    pub fn rg_un(&self, op: UnOp, a: &Val) -> Val {
        match (op, a) {
            (UnOp::Not, Val::Ln(l)) if matches!(**l, Lane::Cap) => Val::Ln(Rc::new(Lane::Above)),
            (UnOp::Not, Val::Ln(l)) if matches!(**l, Lane::Above) => cap(),
            (UnOp::Neg, Val::Ln(l)) if matches!(**l, Lane::Pow) => Val::Ln(Rc::new(Lane::Above)),
            _ if self.ap() => super::alpha::mix(&[a]),
            _ if !self.rg() => if is_k(a) { Val::Ln(Rc::new(Lane::K)) } else { Val::Opaque },
            _ => mix(a, a),
        }
    }
    pub fn rg_binop(&mut self, op: BinOp, a: &Val, b: &Val, signed: bool, wide: u32) -> Val {
        use BinOp::*;
        let pow = |v: &Val| matches!(v, Val::Ln(l) if matches!(**l, Lane::Pow));
        let one = |v: &Val| matches!(v, Val::Int(p) if p.is_const() == Some(1));
        let zero = |v: &Val| matches!(v, Val::Int(p) if p.is_zero()) || matches!(v, Val::F(x, y) if f64::from_bits(*x) == 0.0 && f64::from_bits(*y) == 0.0);
        match op {
            Sub if pow(a) && one(b) => cap(),
            Add if zero(a) => b.clone(),
            Add | Sub if zero(b) => a.clone(),
            Mul if zero(a) || zero(b) => Val::Int(Poly::c(0)),
            Shr => {
                if let (Val::Ln(l), Val::Int(p)) = (a, b) {
                    if let (Lane::Vec(v), Some(k)) = (&**l, p.is_const()) {
                        if k % 8 == 0 && k >= 0 {
                            let n = wide as usize / 8;
                            let mut x = bytes(v, 0, n as u64, &B::U);
                            x.drain(..(k as usize / 8).min(n));
                            x.resize(n, B::C(0));
                            return compose(&x);
                        }
                    }
                }
                shr(a, !signed)
            }
            And => {
                if let (Val::Ln(l), Val::Int(p)) = (a, b) {
                    if let (Lane::Vec(v), Some(k)) = (&**l, p.is_const()) {
                        let nb = (128 - k.leading_zeros()) as usize;
                        if k > 0 && (k + 1) & k == 0 && nb % 8 == 0 {
                            let n = wide as usize / 8;
                            let mut x = bytes(v, 0, n as u64, &B::U);
                            for y in x.iter_mut().skip(nb / 8) {
                                *y = B::C(0);
                            }
                            return compose(&x);
                        }
                    }
                }
                part(a, b)
            }
            Or | Xor => super::range::bits(a, b),
            Div if !signed && known(a) == Some(IN) && known(b).is_some() => r(IN),
            Rem if !signed && (known(a) == Some(IN)) && known(b).is_some() => r(IN),
            _ => mix(a, b),
        }
    }
    pub fn rg_cast(&self, v: &Val, from: TyId, to: TyId) -> Val {
        let kind = |t: TyId| match self.p.t(t).kind {
            TyKind::Int { signed, bits, .. } => (false, signed, bits),
            TyKind::Float { .. } => (true, true, 8 * self.sz(t) as u32),
            _ => (false, false, 8 * self.sz(t) as u32),
        };
        let (ff, fs, fb) = kind(from);
        let (tf, ts, tb) = kind(to);
        if let Val::Ln(l) = v {
            if let Lane::Vec(c) = &**l {
                return compose(&bytes(c, 0, self.sz(to), &B::C(0)));
            }
        }
        let Some(mut f) = known(v) else { return Val::Opaque };
        if is_cap(v) {
            return v.clone();
        }
        if is_k(v) && !is_rg(v) {
            return Val::Ln(Rc::new(Lane::K));
        }
        if !ff && !fs {
            f |= LO;
        }
        if ff && !tf && !ts {
            // saturates
            f |= LO;
        }
        if !ff && !tf {
            if tb < fb && f != IN {
                f = 0;
            }
            if tb >= fb && fs && !ts && f & LO == 0 {
                f = 0;
            }
            if tb == fb && !fs && ts && f != IN {
                f = 0;
            }
        }
        r(f)
    }
    /// functions of the standard library
    pub fn rg_call(&self, last: &str, vs: &[Val], tys: &[TyId], ret: TyId) -> Option<Val> {
        let unsigned = matches!(self.p.t(tys[0]).kind, TyKind::Int { signed: false, .. });
        let cx = self.lanes.as_ref()?;
        let e = self.sz(tys[0]);
        let bad = matches!(self.p.t(tys[0]).kind, TyKind::Int { signed: true, .. }) && loses(cx, e, true);
        Some(match (last, vs.len()) {
            ("max" | "maxnum" | "maxnumf32" | "maxnumf64" | "maximum", 2) => upper(&vs[0], &vs[1], unsigned),
            ("min" | "minnum" | "minnumf32" | "minnumf64" | "minimum", 2) if bad => mix(&vs[0], &vs[1]),
            ("min" | "minnum" | "minnumf32" | "minnumf64" | "minimum", 2) => lower(&vs[0], &vs[1], unsigned),
            ("clamp", 3) if bad => mix(&vs[0], &vs[1]),
            ("clamp", 3) => lower(&upper(&vs[0], &vs[1], unsigned), &vs[2], unsigned),
            ("as_" | "from" | "into", 1) => self.rg_cast(&vs[0], tys[0], ret),
            ("to_bits" | "from_bits", 1) => mix(&vs[0], &vs[0]),
            ("mul_add" | "fmaf32" | "fmaf64" | "fma" | "fmaf" | "fmuladdf32", 3) => mix(&mix(&vs[0], &vs[1]), &vs[2]),
            ("abs" | "fabsf32" | "fabsf64", 1) => match known(&vs[0]) {
                Some(f) => r(if f == IN { IN } else { LO }),
                None => Val::Opaque,
            },
            (n, 1) if n.starts_with("round") || n.starts_with("ceil") || n.starts_with("rint") || n.starts_with("trunc") || n.starts_with("floor") => same(&vs[0]),
            (n, 2) if n.contains("add") || n.contains("sub") || n.contains("mul") || n.contains("div") => mix(&vs[0], &vs[1]),
            _ => return None,
        })
    }
    /// vector instructions that compute; None: the instruction only moves bytes, or has no model
    pub fn rg_vector(&self, op: &str, ty: &str, es: Option<u64>, args: &[(Blob, TyId)], rs: u64) -> Option<Blob> {
        let cx = self.lanes.clone()?;
        let size = |i: usize| self.sz(args[i].1);
        let el = |i: usize, e: u64| elems(&args[i].0.cells, size(i), e);
        let k = || Val::Ln(Rc::new(Lane::K));
        let zip = |e: u64, f: &dyn Fn(&Val, &Val) -> Val| {
            let (a, b) = (el(0, e), el(1, e));
            Some(blob_of(a.iter().zip(&b).map(|(x, y)| f(x, y)).collect(), e))
        };
        // elements of the operands of a bitwise operation
        let grain = |n: usize| -> u64 { (0..n).flat_map(|i| args[i].0.cells.iter()).filter(|c| is_rg(&c.val) && matches!(c.sz, 2 | 4)).map(|c| c.sz).max().unwrap_or(2) };
        match (op, ty) {
            ("add" | "adds" | "sub" | "subs" | "mul" | "mulhrs" | "mullo" | "mulhi" | "div" | "hadd" | "hadds", _) if es.is_some() && ty != "ss" && ty != "sh" => {
                let e = es?;
                let out = if op == "mul" && matches!(ty, "epi32" | "epu32") { 8 } else { e };
                if op.starts_with("hadd") || out != e {
                    let v: Vec<Val> = el(0, e).into_iter().chain(el(1, e)).collect();
                    let m = v.iter().fold(k(), |a, b| mix(&a, b));
                    return Some(blob_of(vec![m; (rs / out) as usize], out));
                }
                let zero = |v: &Val| matches!(v, Val::Int(p) if p.is_zero());
                zip(e, &|x, y| match op {
                    "add" | "adds" if zero(x) => y.clone(),
                    "add" | "adds" | "sub" | "subs" if zero(y) => x.clone(),
                    _ => mix(x, y),
                })
            }
            ("add" | "sub" | "mul" | "div", "ss") => {
                let (a, b) = (el(0, 4), el(1, 4));
                let mut o = a.clone();
                o[0] = mix(&a[0], &b[0]);
                Some(blob_of(o, 4))
            }
            ("fmadd" | "fnmadd" | "fmsub", "ps" | "pd" | "ph") => {
                let e = es?;
                let (a, b, c) = (el(0, e), el(1, e), el(2, e));
                Some(blob_of((0..a.len()).map(|i| mix(&mix(&a[i], &b[i]), &c[i])).collect(), e))
            }
            ("madd", "epi16") | ("dpwssd" | "dpwssds", "epi32") => {
                let (x, y) = if op != "madd" { (1, 2) } else { (0, 1) };
                let (a, b) = (el(x, 2), el(y, 2));
                let c = if op != "madd" { Some(el(0, 4)) } else { None };
                Some(blob_of(
                    (0..a.len() / 2)
                        .map(|i| {
                            let s = mix(&mix(&a[2 * i], &b[2 * i]), &mix(&a[2 * i + 1], &b[2 * i + 1]));
                            c.as_ref().map(|c| mix(&s, &c[i])).unwrap_or(s)
                        })
                        .collect(),
                    4,
                ))
            }
            ("rcp" | "sqrt" | "rcp14", "ps") => Some(blob_of(el(0, 4).iter().map(|v| mix(v, v)).collect(), 4)),
            ("min" | "max", _) if es.is_some() => {
                let e = es?;
                let un = ty.starts_with("epu");
                if !un && loses(&cx, e, !matches!(ty, "ph" | "sh")) {
                    return zip(e, &mix);
                }
                zip(e, &|x, y| if op == "min" { lower(x, y, un) } else { upper(x, y, un) })
            }
            ("packs" | "packus", "epi16" | "epi32") => {
                let e = es?;
                let (a, b) = (el(0, e), el(1, e));
                let h = (16 / e) as usize;
                let mut o = vec![];
                for l in 0..a.len() / h {
                    for v in [&a, &b] {
                        for i in 0..h {
                            let x = &v[l * h + i];
                            o.push(match known(x) {
                                Some(f) if is_rg(x) && e == 4 && op == "packus" => r(f | LO),
                                Some(_) if is_rg(x) && e == 4 && !cx.deep => same(x),
                                Some(_) => mix(x, x),
                                None => Val::Opaque,
                            });
                        }
                    }
                }
                Some(blob_of(o, e / 2))
            }
            ("srli" | "srai", "epi16" | "epi32") => {
                let e = es?;
                Some(blob_of(el(0, e).iter().map(|v| if op == "srai" && loses(&cx, e, true) { mix(v, v) } else { shr(v, op == "srli") }).collect(), e))
            }
            ("slli", "epi16" | "epi32") => {
                let e = es?;
                Some(blob_of(el(0, e).iter().map(|v| mix(v, v)).collect(), e))
            }
            ("cvtepi32", "ps") | ("cvtps", "epi32") | ("cvttps", "epi32") => Some(blob_of(el(0, 4).iter().map(same).collect(), 4)),
            ("round" | "roundscale" | "floor" | "ceil", "ps") => Some(blob_of(el(0, 4).iter().map(same).collect(), 4)),
            ("cvtph", "ps") => Some(blob_of(elems(&args[0].0.cells, rs / 2, 2).iter().map(|v| mix(v, v)).collect(), 4)),
            ("cvtps", "ph") => {
                let mut v: Vec<Val> = el(0, 4).iter().map(|v| mix(v, v)).collect();
                v.resize((rs / 2) as usize, Val::Int(Poly::c(0)));
                Some(blob_of(v, 2))
            }
            ("cvtepi16", "epi32" | "epi64") if cx.deep => {
                let to = es?;
                Some(blob_of(elems(&args[0].0.cells, rs / to * 2, 2).iter().map(|v| mix(v, v)).collect(), to))
            }
            ("cvtepu16", "epi32") => Some(blob_of(elems(&args[0].0.cells, rs / 2, 2).iter().map(|v| known(v).map(|f| if is_cap(v) { v.clone() } else { r(f | LO) }).unwrap_or(Val::Opaque)).collect(), 4)),
            ("cvtusepi32", "epi16") => Some(blob_of(elems(&args[0].0.cells, rs * 2, 4).iter().map(|v| match known(v) { Some(IN) => same(v), _ => mix(v, v) }).collect(), 2)),
            ("and" | "or" | "xor" | "andnot", _) if args.len() == 2 => {
                let g = grain(2);
                zip(g, &|x, y| match op {
                    "and" => part(x, y),
                    "andnot" => match known(y) {
                        Some(IN) => r(IN),
                        _ => mix(x, y),
                    },
                    _ => super::range::bits(x, y),
                })
            }
            ("blendv" | "blend", _) => {
                let g = grain(2);
                zip(g, &both)
            }
            (n, _) if n.starts_with("cmpeq") && es.is_some() && size(0) == rs => Some(blob_of(vec![k(); (rs / es?) as usize], es?)),
            _ => None,
        }
    }
    /// a comparison that the range of a sample may follow from
    pub fn rg_compare(&mut self, op: BinOp, a: &Val, b: &Val, unsigned: bool, int: Option<u32>) -> Option<Cond> {
        super::lanes::compared(a, b);
        let cx = self.lanes.as_ref()?;
        if !cx.range || int.map(|n| loses(cx, n as u64 / 8, !unsigned)).unwrap_or(false) {
            return None;
        }
        known(a)?;
        known(b)?;
        let (a, b, strict) = match op {
            BinOp::Lt => (a, b, true),
            BinOp::Le => (a, b, false),
            BinOp::Gt => (b, a, true),
            BinOp::Ge => (b, a, false),
            _ => return None,
        };
        Some(Cond::Ln(Rc::new(LnCmp { a: a.clone(), b: b.clone(), strict, unsigned })))
    }
    pub fn rg_assume(&mut self, st: &mut State, c: &LnCmp, truth: bool) {
        // a < b, or the opposite
        let (a, b, strict) = if truth { (&c.a, &c.b, c.strict) } else { (&c.b, &c.a, !c.strict) };
        let (Some(x), Some(y)) = (known(a), known(b)) else { return };
        let pow = |v: &Val| matches!(v, Val::Ln(l) if matches!(**l, Lane::Pow));
        let mut up = y & HI;
        if strict && pow(b) {
            up = HI;
        }
        let mut down = x & LO;
        if strict && matches!(a, Val::Int(p) if p.is_const() == Some(-1)) {
            down = LO;
        }
        if c.unsigned {
            // a number below a sample is one, a number above one need not be
            up = if up != 0 && (y == IN || pow(b)) { IN } else { 0 };
            down = 0;
        }
        for (v, f) in [(a, x | up), (b, y | down)] {
            let Val::Ln(l) = v else { continue };
            let Lane::R(had) = **l else { continue };
            if f == had {
                continue;
            }
            let new = Rc::new(Lane::R(f));
            for fr in st.frames.iter_mut() {
                let hit = |c: &Cell| matches!(&c.val, Val::Ln(k) if Rc::ptr_eq(k, l));
                if !fr.locals.iter().any(|cs| cs.iter().any(hit)) {
                    continue;
                }
                for cs in Rc::make_mut(fr).locals.iter_mut() {
                    if cs.iter().any(hit) {
                        for c in Rc::make_mut(cs).iter_mut() {
                            if hit(c) {
                                c.val = Val::Ln(new.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    /// a value put together from bytes of others
    pub fn rg_store(&mut self, st: &mut State, v: &Val) {
        match known(v) {
            None => self.ob(st, ObK::LaneUnk, "sample", true, String::new),
            Some(IN) => self.ob(st, ObK::Lane, "sample", true, String::new),
            Some(_) if self.rg_cmp => self.ob(st, ObK::LaneUnk, "sample", true, String::new),
            Some(f) => {
                let t = match f {
                    LO => "a sample is written that may exceed 2^depth - 1",
                    HI => "a sample is written that may come from a negative number",
                    _ => "a sample is written whose range is not bounded by the depth",
                };
                self.ob(st, ObK::Lane, "sample", false, || t.into())
            }
        }
    }
}
