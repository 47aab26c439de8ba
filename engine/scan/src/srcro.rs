//! Read-only memory stays read-only: no reachable library code makes a writable pointer out of a
//! value that grants no write access.
use crate::prog::*;
use crate::report::Report;
use ps_ir::*;
use std::collections::HashMap;

struct Ctx<'a> {
    p: &'a Prog,
    memo: HashMap<TyId, bool>,
}

impl Ctx<'_> {
    /// does a value of the type carry write access to other memory?
    fn writes(&mut self, t: TyId, depth: u32) -> bool {
        if let Some(r) = self.memo.get(&t) {
            return *r;
        }
        if depth > 12 {
            return false;
        }
        let kids: Vec<TyId> = match &self.p.t(t).kind {
            TyKind::Ptr { to, mutable, .. } => {
                if *mutable {
                    self.memo.insert(t, true);
                    return true;
                }
                vec![*to]
            }
            TyKind::Slice(e) | TyKind::Array(e, _) => vec![*e],
            TyKind::Tuple(v) => v.clone(),
            TyKind::Closure { upvars, .. } => upvars.clone(),
            TyKind::Adt { path, variants, .. } => {
                if path.ends_with("NonNull") || path.ends_with("::Unique") || path.contains("UnsafeCell") || path.contains("Atomic") {
                    self.memo.insert(t, true);
                    return true;
                }
                variants.iter().flat_map(|v| v.fields.iter().map(|f| f.1)).collect()
            }
            _ => vec![],
        };
        let r = kids.into_iter().any(|k| self.writes(k, depth + 1));
        if depth == 0 || r {
            self.memo.insert(t, r);
        }
        r
    }
    /// a pointer the receiver can write through at once
    fn direct(&self, t: TyId, depth: u32) -> bool {
        match &self.p.t(t).kind {
            TyKind::Ptr { mutable, .. } => *mutable,
            TyKind::Tuple(v) => depth < 4 && v.iter().any(|x| self.direct(*x, depth + 1)),
            TyKind::Adt { path, args, .. } => {
                path.ends_with("NonNull")
                    || path.ends_with("::Unique")
                    || (depth < 4 && (path.ends_with("::Option") || path.ends_with("::Result")) && args.iter().any(|a| matches!(a, GArg::Ty(x) if self.direct(*x, depth + 1))))
            }
            _ => false,
        }
    }
    fn place_ty(&self, b: &Body, pl: &Place) -> TyId {
        let mut t = b.locals[pl.local as usize];
        for x in &pl.proj {
            match x {
                Proj::Deref => {
                    if let TyKind::Ptr { to, .. } = &self.p.t(t).kind {
                        t = *to
                    } else if let TyKind::Adt { is_box: true, args, .. } = &self.p.t(t).kind {
                        if let Some(GArg::Ty(x)) = args.first() {
                            t = *x
                        }
                    }
                }
                Proj::Field(_, ty) | Proj::Opaque(ty) => t = *ty,
                Proj::Index(_) | Proj::ConstIndex { .. } => {
                    if let TyKind::Slice(e) | TyKind::Array(e, _) = &self.p.t(t).kind {
                        t = *e
                    }
                }
                _ => {}
            }
        }
        t
    }
    fn op_ty(&self, b: &Body, o: &Operand) -> Option<TyId> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Some(self.place_ty(b, p)),
            Operand::Const(t, _) => Some(*t),
            Operand::RuntimeCheck => None,
        }
    }
    /// is the operand, though typed read-only, derived only from values granting write access
    /// (or from constants)?
    fn origin_writable(&mut self, f: &FnInfo, b: &Body, o: &Operand, depth: u32) -> bool {
        let t = match self.op_ty(b, o) {
            Some(t) => t,
            None => return true,
        };
        if self.writes(t, 0) {
            return true;
        }
        let pl = match o {
            Operand::Const(_, c) => return !matches!(c, Const::Ptr(..)),
            Operand::Copy(p) | Operand::Move(p) => p,
            _ => return true,
        };
        if depth > 24 || !pl.proj.is_empty() || pl.local <= b.nargs {
            return false;
        }
        let mut any = false;
        for bl in &b.blocks {
            for s in &bl.stmts {
                if let StmtK::Assign(d, r) = &s.kind {
                    if d.local != pl.local {
                        continue;
                    }
                    any = true;
                    let ok = d.proj.is_empty()
                        && match r {
                            Rvalue::Use(x) | Rvalue::Cast(_, x, _) => self.origin_writable(f, b, x, depth + 1),
                            Rvalue::Bin(BinOp::Offset, x, _) => self.origin_writable(f, b, x, depth + 1),
                            Rvalue::Ref(q, _) | Rvalue::AddrOf(q, _) => {
                                // reborrow through a writable pointer, or of a local variable
                                match q.proj.iter().position(|x| matches!(x, Proj::Deref)) {
                                    None => true,
                                    Some(0) => self.origin_writable(f, b, &Operand::Copy(Place { local: q.local, proj: vec![] }), depth + 1),
                                    Some(_) => false,
                                }
                            }
                            _ => false,
                        };
                    if !ok {
                        return false;
                    }
                }
            }
            if let Term::Call { args, dest, .. } = &bl.term {
                if dest.local == pl.local {
                    any = true;
                    // pointer arithmetic and views: first argument decides
                    let ok = dest.proj.is_empty() && args.first().map(|a| self.origin_writable(f, b, a, depth + 1)).unwrap_or(false);
                    if !ok {
                        return false;
                    }
                }
            }
        }
        any
    }
}

pub fn run(p: &Prog, rep: &mut Report) {
    let cfg = p.p.config.clone();
    rep.rule("no cast, transmute or union in reachable library code yields write access from a value that grants none");
    rep.rule("no reachable library code obtains a writable pointer from a foreign function that was given only read-only access");
    rep.rule("source images are taken by shared reference, without interior mutability");
    let mut c = Ctx { p, memo: HashMap::new() };
    for t in 0..p.p.types.len() as u32 {
        if let TyKind::Adt { path, kind: AdtK::Union, variants, .. } = &p.t(t).kind {
            if !path.starts_with("core::") && !path.starts_with("std::") && !path.starts_with("alloc::") {
                let fs: Vec<TyId> = variants.iter().flat_map(|v| v.fields.iter().map(|f| f.1)).collect();
                let w: Vec<bool> = fs.iter().map(|x| c.writes(*x, 0)).collect();
                let ok = w.iter().all(|x| *x) || !w.iter().any(|x| *x);
                rep.ob(ok);
                if !ok {
                    rep.violate(format!("writable:union:{path}"), format!("union {path} can turn a read-only value into one granting write access"));
                }
            }
        }
    }
    for f in 0..p.p.fns.len() as u32 {
        let fi = p.f(f);
        let Some(b) = &fi.body else { continue };
        if fi.krate != "pic_scale" {
            continue;
        }
        rep.count(&format!("{cfg}: library functions analysed"), 1);
        for t in &fi.params {
            if let TyKind::Ptr { to, mutable, is_ref: true } = &p.t(*t).kind {
                if let TyKind::Adt { path, .. } = &p.t(*to).kind {
                    if path.ends_with("::ImageStore") && !*mutable {
                        rep.count(&format!("{cfg}: source images taken by shared reference"), 1);
                        let cell = crate::purity::interior(p, *to, &mut Default::default());
                        rep.ob(cell.is_none());
                        if let Some(x) = cell {
                            rep.violate(format!("writable:interior:{}", p.t(*to).name), format!("source image type {} contains {x}", p.t(*to).name));
                        }
                    }
                }
            }
        }
        for bl in &b.blocks {
            for s in &bl.stmts {
                let StmtK::Assign(_, Rvalue::Cast(k, o, to)) = &s.kind else { continue };
                let Some(from) = c.op_ty(b, o) else { continue };
                if matches!(k, CastK::IntToInt | CastK::FloatToInt | CastK::FloatToFloat | CastK::IntToFloat) {
                    continue;
                }
                rep.count(&format!("{cfg}: pointer casts and transmutes"), 1);
                if !c.writes(*to, 0) {
                    rep.ob(true);
                    continue;
                }
                rep.count(&format!("{cfg}: casts yielding write access"), 1);
                let ok = c.writes(from, 0) || c.origin_writable(fi, b, o, 0);
                rep.ob(ok);
                if !ok {
                    rep.violate(
                        format!("writable:cast:{}:{}->{}", fi.path, p.t(from).name, p.t(*to).name),
                        format!("{}: {} turns `{}` (no write access) into `{}`", p.loc(f, s.line), fi.path, p.t(from).name, p.t(*to).name),
                    );
                }
            }
            if let Term::Call { f: Callee::Fn(g), args, line, .. } = &bl.term {
                let gi = p.f(*g);
                if gi.krate == "pic_scale" || args.is_empty() {
                    continue;
                }
                if c.direct(gi.ret, 0) {
                    rep.count(&format!("{cfg}: foreign calls returning writable pointers"), 1);
                    let ok = args.iter().any(|a| c.origin_writable(fi, b, a, 0) && !matches!(a, Operand::Const(..)))
                        || args.iter().all(|a| matches!(a, Operand::Const(..)));
                    rep.ob(ok);
                    if !ok {
                        rep.violate(
                            format!("writable:call:{}->{}", fi.path, gi.path),
                            format!("{}: {} obtains `{}` from {} without holding write access", p.loc(f, *line), fi.path, p.t(gi.ret).name, gi.path),
                        );
                    }
                }
            }
        }
    }
}
