#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_public;
extern crate rustc_span;

use ps_ir as ir;
use rustc_public::{CrateDef, CrateDefType};
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::{self, *};
use rustc_public::ty::{self, *};
use std::collections::{HashMap, VecDeque};
use std::ops::ControlFlow;

struct Cx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    p: ir::Program,
    tys: HashMap<Ty, ir::TyId>,
    fns: HashMap<Instance, ir::FnId>,
    allocs: HashMap<mir::alloc::AllocId, ir::AllocId>,
    queue: VecDeque<Instance>,
}

/// Crates / path prefixes whose bodies are not exported: they are modelled by the analyser.
fn is_leaf(krate: &str, path: &str) -> bool {
    const LEAF_CRATES: &[&str] = &["rayon", "rayon_core", "colorutils_rs", "crossbeam_deque", "crossbeam_epoch", "crossbeam_utils", "std_detect", "libm", "compiler_builtins", "hashbrown"];
    const LEAF_PREFIX: &[&str] = &[
        "core::core_arch::", "std::arch::", "core::arch::", "core::fmt::", "std::fmt::", "core::panicking", "std::panicking", "std::rt::", "alloc::fmt",
        "std::thread::", "std::sync::", "std::io::", "std::env::", "std::sys::", "core::str::", "alloc::string", "alloc::raw_vec", "std::alloc::", "alloc::alloc::",
        "std::collections", "std::time", "std::hash", "std::vec::from_elem", "core::num::flt2dec", "std::backtrace", "std::process","std::error", "core::unicode",
    ];
    LEAF_CRATES.contains(&krate) || LEAF_PREFIX.iter().any(|p| path.starts_with(p))
}

impl<'tcx> Cx<'tcx> {
    fn gargs(&mut self, a: &GenericArgs) -> Vec<ir::GArg> {
        a.0.iter()
            .map(|g| match g {
                GenericArgKind::Lifetime(_) => ir::GArg::Lt,
                GenericArgKind::Type(t) => ir::GArg::Ty(self.ty(*t)),
                GenericArgKind::Const(c) => const_garg(c),
            })
            .collect()
    }

    fn ty(&mut self, t: Ty) -> ir::TyId {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let id = self.p.types.len() as u32;
        self.tys.insert(t, id);
        self.p.types.push(ir::TyInfo { name: String::new(), kind: ir::TyKind::Never, size: None, align: 0, tag: None, single: None, offs: vec![] });
        let (size, align, offs, voffs, tag, single) = match t.layout() {
            Ok(l) => {
                let sh = l.shape();
                let offs = match &sh.fields {
                    rustc_public::abi::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes() as u64).collect::<Vec<_>>(),
                    _ => vec![],
                };
                let voffs = match &sh.variants {
                    rustc_public::abi::VariantsShape::Multiple { variants, .. } => {
                        Some(variants.iter().map(|v| v.offsets.iter().map(|o| o.bytes() as u64).collect::<Vec<_>>()).collect::<Vec<_>>())
                    }
                    _ => None,
                };
                let mut single = None;
                let tag = match &sh.variants {
                    rustc_public::abi::VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                        use rustc_public::abi::{Primitive, Scalar, TagEncoding};
                        let prim = match tag {
                            Scalar::Initialized { value, .. } | Scalar::Union { value } => value,
                        };
                        let (size, ptr) = match prim {
                            Primitive::Int { length, .. } => (length.bits() as u64 / 8, false),
                            Primitive::Pointer(_) => (8, true),
                            _ => (0, false),
                        };
                        let niche = match tag_encoding {
                            TagEncoding::Direct => None,
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                Some((untagged_variant.to_index() as u32, niche_variants.start().to_index() as u32, niche_variants.end().to_index() as u32, *niche_start))
                            }
                        };
                        Some(ir::TagInfo { offset: offs.get(*tag_field).copied().unwrap_or(0), size, niche, ptr })
                    }
                    rustc_public::abi::VariantsShape::Single { index } => {
                        single = Some(index.to_index() as u32);
                        None
                    }
                    _ => None,
                };
                (if sh.is_sized() { Some(sh.size.bytes() as u64) } else { None }, sh.abi_align as u64, offs, voffs, tag, single)
            }
            Err(_) => (None, 0, vec![], None, None, None),
        };
        let kind = match t.kind() {
            ty::TyKind::RigidTy(r) => match r {
                RigidTy::Bool => ir::TyKind::Bool,
                RigidTy::Char => ir::TyKind::Char,
                RigidTy::Int(i) => ir::TyKind::Int { signed: true, bits: i.num_bytes() as u32 * 8, ptr_sized: i == IntTy::Isize },
                RigidTy::Uint(i) => ir::TyKind::Int { signed: false, bits: i.num_bytes() as u32 * 8, ptr_sized: i == UintTy::Usize },
                RigidTy::Float(f) => ir::TyKind::Float {
                    bits: match f {
                        FloatTy::F16 => 16,
                        FloatTy::F32 => 32,
                        FloatTy::F64 => 64,
                        FloatTy::F128 => 128,
                    },
                },
                RigidTy::Str => ir::TyKind::Str,
                RigidTy::Never => ir::TyKind::Never,
                RigidTy::Array(e, n) => {
                    let e = self.ty(e);
                    ir::TyKind::Array(e, n.eval_target_usize().unwrap_or(u64::MAX))
                }
                RigidTy::Slice(e) => ir::TyKind::Slice(self.ty(e)),
                RigidTy::RawPtr(e, m) => ir::TyKind::Ptr { to: self.ty(e), mutable: m == Mutability::Mut, is_ref: false },
                RigidTy::Ref(_, e, m) => ir::TyKind::Ptr { to: self.ty(e), mutable: m == Mutability::Mut, is_ref: true },
                RigidTy::Tuple(es) => {
                    let v = es.iter().map(|e| self.ty(*e)).collect();
                    ir::TyKind::Tuple(v)
                }
                RigidTy::Adt(d, args) => {
                    let gargs = self.gargs(&args);
                    let mut variants = vec![];
                    let is_enum = d.kind().is_enum();
                    for (vi, v) in d.variants().into_iter().enumerate() {
                        let fields: Vec<(String, ir::TyId)> = v.fields().iter().map(|f| (f.name.to_string(), self.ty(f.ty_with_args(&args)))).collect();
                        let discr = if is_enum {
                            let dd = d.discriminant_for_variant(v.idx());
                            // sign extend by type
                            let bits = match dd.ty.kind() {
                                ty::TyKind::RigidTy(RigidTy::Int(i)) => i.num_bytes() * 8,
                                _ => 128,
                            };
                            if bits < 128 {
                                let sh = 128 - bits;
                                ((dd.val << sh) as i128) >> sh
                            } else {
                                dd.val as i128
                            }
                        } else {
                            0
                        };
                        let offsets = match &voffs {
                            Some(v) if vi < v.len() => v[vi].clone(),
                            _ => offs.clone(),
                        };
                        variants.push(ir::Variant { name: v.name().to_string(), discr, fields, offsets });
                    }
                    ir::TyKind::Adt {
                        path: d.name().to_string(),
                        kind: if is_enum { ir::AdtK::Enum } else if d.kind().is_union() { ir::AdtK::Union } else { ir::AdtK::Struct },
                        simd: d.is_simd(),
                        is_box: d.is_box(),
                        drops: rustc_public::rustc_internal::internal(self.tcx, d).destructor(self.tcx).is_some(),
                        variants,
                        args: gargs,
                    }
                }
                RigidTy::Closure(d, args) => {
                    let ups: Vec<Ty> = {
                        // upvar tuple type is the last generic argument
                        match args.0.last() {
                            Some(GenericArgKind::Type(t)) => match t.kind() {
                                ty::TyKind::RigidTy(RigidTy::Tuple(v)) => v,
                                _ => vec![],
                            },
                            _ => vec![],
                        }
                    };
                    let upvars = ups.iter().map(|t| self.ty(*t)).collect();
                    let inst = Instance::resolve_closure(d, &args, ClosureKind::Fn).unwrap();
                    let f = self.func(inst);
                    ir::TyKind::Closure { path: d.name().to_string(), upvars, body: f }
                }
                RigidTy::FnDef(d, args) => match Instance::resolve(d, &args) {
                    Ok(i) => ir::TyKind::FnDef(self.func(i)),
                    Err(_) => ir::TyKind::Other(format!("{t}")),
                },
                RigidTy::FnPtr(_) => ir::TyKind::FnPtr,
                RigidTy::Dynamic(..) => ir::TyKind::Dyn(format!("{t}")),
                _ => ir::TyKind::Other(format!("{t}")),
            },
            _ => ir::TyKind::Other(format!("{t}")),
        };
        self.p.types[id as usize] = ir::TyInfo { name: format!("{t}"), kind, size, align, tag, single, offs };
        id
    }

    fn func(&mut self, i: Instance) -> ir::FnId {
        if let Some(&f) = self.fns.get(&i) {
            return f;
        }
        let id = self.p.fns.len() as u32;
        self.fns.insert(i, id);
        let def = i.def.def_id();
        let idef = rustc_public::rustc_internal::internal(self.tcx, def);
        let krate = self.tcx.crate_name(idef.krate).to_string();
        let path = def.name().to_string();
        let is_fn_like = matches!(self.tcx.def_kind(idef), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Closure);
        let target_features = if is_fn_like {
            self.tcx.codegen_fn_attrs(idef).target_features.iter().map(|f| f.name.to_string()).collect()
        } else {
            vec![]
        };
        let span = def.span();
        let li = span.get_lines();
        let kind = match i.kind {
            InstanceKind::Item => ir::FnKind::Item,
            InstanceKind::Intrinsic => ir::FnKind::Intrinsic,
            InstanceKind::LlvmIntrinsic => ir::FnKind::LlvmIntrinsic,
            InstanceKind::Virtual { .. } => ir::FnKind::Virtual,
            InstanceKind::Shim => ir::FnKind::Shim,
        };
        self.p.fns.push(ir::FnInfo {
            path,
            name: i.name().to_string(),
            krate,
            kind,
            target_features,
            gargs: vec![],
            is_unsafe: false,
            file: span.get_filename().to_string(),
            line: li.start_line as u32,
            ret: 0,
            params: vec![],
            body: None,
            leaf: false,
        });
        let args = i.args();
        let g = self.gargs(&args);
        self.p.fns[id as usize].gargs = g;
        let t = i.ty();
        if let Some(sig) = t.kind().fn_sig() {
            let sig = sig.skip_binder();
            self.p.fns[id as usize].is_unsafe = sig.safety == Safety::Unsafe;
            let tcx = self.tcx;
            let it = rustc_public::rustc_internal::internal(tcx, t);
            let isig = match it.kind() {
                rustc_middle::ty::Closure(_, a) => tcx.instantiate_bound_regions_with_erased(a.as_closure().sig()),
                _ => tcx.instantiate_bound_regions_with_erased(it.fn_sig(tcx)),
            };
            let mut norm = |x: rustc_middle::ty::Ty<'tcx>| -> ir::TyId {
                let n = tcx.normalize_erasing_regions(rustc_middle::ty::TypingEnv::fully_monomorphized(), rustc_middle::ty::Unnormalized::new_wip(x));
                self.ty(rustc_public::rustc_internal::stable(n))
            };
            let params: Vec<ir::TyId> = isig.inputs().iter().map(|x| norm(*x)).collect();
            let ret = norm(isig.output());
            self.p.fns[id as usize].ret = ret;
            self.p.fns[id as usize].params = params;
        }
        self.queue.push_back(i);
        id
    }

    fn alloc(&mut self, a: mir::alloc::AllocId) -> ir::AllocId {
        if let Some(&i) = self.allocs.get(&a) {
            return i;
        }
        let id = self.p.allocs.len() as u32;
        self.allocs.insert(a, id);
        self.p.allocs.push(ir::AllocInfo::Other);
        let info = match GlobalAlloc::from(a) {
            GlobalAlloc::Memory(m) => self.mem(&m),
            GlobalAlloc::Function(i) => ir::AllocInfo::Fn(self.func(i)),
            GlobalAlloc::Static(s) => {
                let init = s.eval_initializer().ok().map(|m| Box::new(self.mem(&m)));
                let d = rustc_public::rustc_internal::internal(self.tcx, s.def_id());
                let mutable = self.tcx.is_mutable_static(d);
                let t = self.ty(s.ty());
                ir::AllocInfo::Static { path: s.name().to_string(), mutable, init, ty: t }
            }
            GlobalAlloc::VTable(..) => ir::AllocInfo::VTable,
            _ => ir::AllocInfo::Other,
        };
        self.p.allocs[id as usize] = info;
        id
    }
    fn mem(&mut self, m: &Allocation) -> ir::AllocInfo {
        let relocs = m.provenance.ptrs.iter().map(|(o, p)| (*o as u64, self.alloc(p.0))).collect();
        ir::AllocInfo::Mem { bytes: m.bytes.clone(), relocs, align: m.align, mutable: m.mutability == Mutability::Mut }
    }

    fn konst(&mut self, c: &MirConst) -> (ir::TyId, ir::Const) {
        let t = self.ty(c.ty());
        let k = match c.kind() {
            ConstantKind::ZeroSized => ir::Const::Zst,
            ConstantKind::Allocated(a) => self.alloc_const(a, t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.alloc_const(a, t),
                TyConstKind::ZSTValue(_) => ir::Const::Zst,
                _ => match tc.eval_target_usize() {
                    Ok(v) => ir::Const::Bits(v as u128),
                    Err(_) => ir::Const::Unk(format!("{tc:?}")),
                },
            },
            k => ir::Const::Unk(format!("{k:?}")),
        };
        (t, k)
    }
    fn alloc_const(&mut self, a: &Allocation, t: ir::TyId) -> ir::Const {
        let scalar = matches!(
            self.p.types[t as usize].kind,
            ir::TyKind::Bool | ir::TyKind::Char | ir::TyKind::Int { .. } | ir::TyKind::Float { .. } | ir::TyKind::Ptr { .. } | ir::TyKind::FnPtr
        );
        if a.bytes.is_empty() {
            return ir::Const::Zst;
        }
        if a.provenance.ptrs.is_empty() && scalar && a.bytes.len() <= 16 {
            if let Ok(v) = a.read_uint() {
                return ir::Const::Bits(v);
            }
        }
        let relocs: Vec<(u64, ir::AllocId)> = a.provenance.ptrs.iter().map(|(o, p)| (*o as u64, self.alloc(p.0))).collect();
        if scalar && a.bytes.len() == 8 && relocs.len() == 1 {
            let off = a.read_uint().unwrap_or(0) as u64;
            return ir::Const::Ptr(relocs[0].1, off);
        }
        ir::Const::Bytes(a.bytes.iter().map(|b| b.unwrap_or(0)).collect(), relocs)
    }

    fn place(&mut self, p: &Place) -> ir::Place {
        ir::Place {
            local: p.local as u32,
            proj: p
                .projection
                .iter()
                .map(|e| match e {
                    ProjectionElem::Deref => ir::Proj::Deref,
                    ProjectionElem::Field(i, t) => ir::Proj::Field(*i as u32, self.ty(*t)),
                    ProjectionElem::Index(l) => ir::Proj::Index(*l as u32),
                    ProjectionElem::ConstantIndex { offset, min_length, from_end } => ir::Proj::ConstIndex { offset: *offset, min: *min_length, from_end: *from_end },
                    ProjectionElem::Subslice { from, to, from_end } => ir::Proj::Subslice { from: *from, to: *to, from_end: *from_end },
                    ProjectionElem::Downcast(v) => ir::Proj::Downcast(v.to_index() as u32),
                    ProjectionElem::OpaqueCast(t) => ir::Proj::Opaque(self.ty(*t)),
                })
                .collect(),
        }
    }
    fn op(&mut self, o: &Operand) -> ir::Operand {
        match o {
            Operand::Copy(p) => ir::Operand::Copy(self.place(p)),
            Operand::Move(p) => ir::Operand::Move(self.place(p)),
            Operand::Constant(c) => {
                let (t, k) = self.konst(&c.const_);
                ir::Operand::Const(t, k)
            }
            Operand::RuntimeChecks(_) => ir::Operand::RuntimeCheck,
        }
    }
    fn binop(b: BinOp) -> ir::BinOp {
        use ir::BinOp as R;
        match b {
            BinOp::Add | BinOp::AddUnchecked => R::Add,
            BinOp::Sub | BinOp::SubUnchecked => R::Sub,
            BinOp::Mul | BinOp::MulUnchecked => R::Mul,
            BinOp::Div => R::Div,
            BinOp::Rem => R::Rem,
            BinOp::BitXor => R::Xor,
            BinOp::BitAnd => R::And,
            BinOp::BitOr => R::Or,
            BinOp::Shl | BinOp::ShlUnchecked => R::Shl,
            BinOp::Shr | BinOp::ShrUnchecked => R::Shr,
            BinOp::Eq => R::Eq,
            BinOp::Lt => R::Lt,
            BinOp::Le => R::Le,
            BinOp::Ne => R::Ne,
            BinOp::Ge => R::Ge,
            BinOp::Gt => R::Gt,
            BinOp::Cmp => R::Cmp,
            BinOp::Offset => R::Offset,
        }
    }
    fn rvalue(&mut self, r: &Rvalue, dest_ty: Ty) -> ir::Rvalue {
        use ir::Rvalue as R;
        match r {
            Rvalue::Use(o, _) => R::Use(self.op(o)),
            Rvalue::CopyForDeref(p) => R::Use(ir::Operand::Copy(self.place(p))),
            Rvalue::Reborrow(_, _, p) => R::Use(ir::Operand::Copy(self.place(p))),
            Rvalue::Repeat(o, n) => R::Repeat(self.op(o), n.eval_target_usize().unwrap_or(u64::MAX)),
            Rvalue::Ref(_, k, p) => R::Ref(self.place(p), k.to_mutable_lossy() == Mutability::Mut),
            Rvalue::AddressOf(k, p) => R::AddrOf(self.place(p), matches!(k, RawPtrKind::Mut)),
            Rvalue::BinaryOp(b, x, y) => R::Bin(Self::binop(*b), self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => R::Checked(Self::binop(*b), self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => R::Un(
                match u {
                    UnOp::Not => ir::UnOp::Not,
                    UnOp::Neg => ir::UnOp::Neg,
                    UnOp::PtrMetadata => ir::UnOp::PtrMeta,
                },
                self.op(x),
            ),
            Rvalue::Len(p) => R::Len(self.place(p)),
            Rvalue::Discriminant(p) => R::Discr(self.place(p)),
            Rvalue::ThreadLocalRef(c) => R::ThreadLocal(c.name().to_string()),
            Rvalue::Cast(k, o, t) => {
                let tid = self.ty(*t);
                let oo = self.op(o);
                use ir::CastK as C;
                let ck = match k {
                    CastKind::IntToInt => C::IntToInt,
                    CastKind::FloatToInt => C::FloatToInt,
                    CastKind::FloatToFloat => C::FloatToFloat,
                    CastKind::IntToFloat => C::IntToFloat,
                    CastKind::PtrToPtr => C::PtrToPtr,
                    CastKind::FnPtrToPtr => C::FnPtrToPtr,
                    CastKind::Transmute | CastKind::BoxDerefTransmute => C::Transmute,
                    CastKind::Subtype => C::Subtype,
                    CastKind::PointerExposeAddress => C::Expose,
                    CastKind::PointerWithExposedProvenance => C::WithExposed,
                    CastKind::PointerCoercion(pc) => match pc {
                        PointerCoercion::ReifyFnPointer(_) => {
                            let ot = o.ty(&self.cur_locals()).unwrap();
                            match ot.kind() {
                                ty::TyKind::RigidTy(RigidTy::FnDef(d, a)) => C::Reify(self.func(Instance::resolve_for_fn_ptr(d, &a).unwrap())),
                                _ => panic!(),
                            }
                        }
                        PointerCoercion::ClosureFnPointer(_) => {
                            let ct = o.ty(&self.cur_locals()).unwrap();
                            match ct.kind() {
                                ty::TyKind::RigidTy(RigidTy::Closure(d, a)) => C::ClosureFnPtr(self.func(Instance::resolve_closure(d, &a, ClosureKind::Fn).unwrap())),
                                _ => panic!(),
                            }
                        }
                        PointerCoercion::UnsafeFnPointer => C::UnsafeFnPtr,
                        PointerCoercion::MutToConstPointer => C::MutToConst,
                        PointerCoercion::ArrayToPointer => C::ArrayToPtr,
                        PointerCoercion::Unsize => C::Unsize,
                    },
                };
                R::Cast(ck, oo, tid)
            }
            Rvalue::Aggregate(k, ops) => {
                let ak = match k {
                    AggregateKind::Array(_) => ir::AggK::Array,
                    AggregateKind::Tuple => ir::AggK::Tuple,
                    AggregateKind::Adt(_, v, _, _, f) => ir::AggK::Adt(self.ty(dest_ty), v.to_index() as u32, f.map(|x| x as u32)),
                    AggregateKind::Closure(..) => ir::AggK::Closure(self.ty(dest_ty)),
                    AggregateKind::RawPtr(..) => ir::AggK::RawPtr(self.ty(dest_ty)),
                    _ => ir::AggK::Other,
                };
                let v = ops.iter().map(|o| self.op(o)).collect();
                R::Agg(ak, v)
            }
        }
    }
    fn cur_locals(&self) -> Vec<LocalDecl> {
        CUR.with(|c| c.borrow().clone())
    }

    fn body(&mut self, b: &Body) -> ir::Body {
        CUR.with(|c| *c.borrow_mut() = b.locals().to_vec());
        let locals: Vec<_> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let names = b.var_debug_info.iter().filter_map(|v| v.local().map(|l| (l as u32, v.name.to_string()))).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut stmts = vec![];
            for s in &bb.statements {
                let line = s.source_info.span.get_lines().start_line as u32;
                let k = match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let t = p.ty(b.locals()).unwrap();
                        ir::StmtK::Assign(self.place(p), self.rvalue(r, t))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => ir::StmtK::SetDiscr(self.place(place), variant_index.to_index() as u32),
                    StatementKind::StorageLive(l) => ir::StmtK::Live(*l as u32),
                    StatementKind::StorageDead(l) => ir::StmtK::Dead(*l as u32),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => ir::StmtK::Assume(self.op(o)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        ir::StmtK::CopyNonOverlapping(self.op(&c.src), self.op(&c.dst), self.op(&c.count))
                    }
                    _ => continue,
                };
                stmts.push(ir::Stmt { line, kind: k });
            }
            let t = &bb.terminator;
            let line = t.source_info.span.get_lines().start_line as u32;
            use TerminatorKind as K;
            let term = match &t.kind {
                K::Goto { target } => ir::Term::Goto(*target as u32),
                K::SwitchInt { discr, targets } => {
                    ir::Term::Switch(self.op(discr), targets.branches().map(|(v, t)| (v, t as u32)).collect(), targets.otherwise() as u32)
                }
                K::Resume => ir::Term::Resume,
                K::Abort => ir::Term::Abort,
                K::Return => ir::Term::Return,
                K::Unreachable => ir::Term::Unreachable,
                K::Drop { place, target, .. } => {
                    let ty = place.ty(b.locals()).unwrap();
                    let t = self.ty(ty);
                    ir::Term::Drop(self.place(place), t, *target as u32)
                }
                K::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(b.locals()).unwrap();
                    let f = match ft.kind() {
                        ty::TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                            Ok(i) => ir::Callee::Fn(self.func(i)),
                            Err(e) => panic!("unresolved {d:?} {e:?}"),
                        },
                        _ => ir::Callee::Ptr(self.op(func)),
                    };
                    ir::Term::Call { f, args: args.iter().map(|a| self.op(a)).collect(), dest: self.place(destination), target: target.map(|t| t as u32), line }
                }
                K::Assert { cond, expected, msg, target, .. } => ir::Term::Assert {
                    cond: self.op(cond),
                    expected: *expected,
                    target: *target as u32,
                    msg: match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".into(),
                        AssertMessage::Overflow(b, ..) => format!("overflow:{b:?}"),
                        m => m.description().unwrap_or("assert").to_string(),
                    },
                },
                K::InlineAsm { destination, .. } => ir::Term::Asm(destination.map(|t| t as u32)),
            };
            blocks.push(ir::Block { stmts, term, line });
        }
        ir::Body { nargs: b.arg_locals().len() as u32, spread: b.spread_arg().map(|x| x as u32), locals, names, blocks }
    }
}

fn const_garg(c: &TyConst) -> ir::GArg {
    match c.kind() {
        TyConstKind::Value(t, a) => match t.kind() {
            ty::TyKind::RigidTy(RigidTy::Int(_)) => a.read_int().map(ir::GArg::Const).unwrap_or(ir::GArg::Unk),
            _ => a.read_uint().map(|v| ir::GArg::Const(v as i128)).unwrap_or(ir::GArg::Unk),
        },
        _ => c.eval_target_usize().map(|v| ir::GArg::Const(v as i128)).unwrap_or(ir::GArg::Unk),
    }
}

thread_local! { static CUR: std::cell::RefCell<Vec<LocalDecl>> = const { std::cell::RefCell::new(vec![]) }; }

fn analyze(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = std::env::var("PS_IR_OUT").unwrap();
    let mut cx = Cx { tcx, p: Default::default(), tys: HashMap::new(), fns: HashMap::new(), allocs: HashMap::new(), queue: VecDeque::new() };
    cx.p.config = std::env::var("PS_IR_CONFIG").unwrap_or_default();
    for item in rustc_public::all_local_items() {
        if item.kind() != rustc_public::ItemKind::Fn || item.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let n = item.name().to_string();
            let last = n.rsplit("::").next().unwrap_or("").to_string();
            if last.starts_with("ep_") {
                let f = cx.func(i);
                cx.p.roots.push(f);
            }
        }
    }
    while let Some(i) = cx.queue.pop_front() {
        let id = cx.fns[&i];
        let (krate, path) = {
            let f = &cx.p.fns[id as usize];
            (f.krate.clone(), f.path.clone())
        };
        if matches!(i.kind, InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic | InstanceKind::Virtual { .. }) {
            continue;
        }
        if is_leaf(&krate, &path) || (i.kind == InstanceKind::Shim && path.contains("drop_in_place")) {
            cx.p.fns[id as usize].leaf = true;
            continue;
        }
        if !i.has_body() {
            cx.p.fns[id as usize].leaf = true;
            continue;
        }
        if let Some(b) = i.body() {
            let ib = cx.body(&b);
            let f = &mut cx.p.fns[id as usize];
            f.ret = ib.locals[0];
            f.params = ib.locals[1..=ib.nargs as usize].to_vec();
            f.body = Some(ib);
        } else {
            cx.p.fns[id as usize].leaf = true;
        }
    }
    let f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    serde_json::to_writer(f, &cx.p).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_client = args.iter().any(|a| a == "ps_client");
    if std::env::var("PS_IR_OUT").is_err() || !is_client {
        let st = std::process::Command::new("rustc").args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = rustc_public::run_with_tcx!(&args, analyze);
    if r.is_err() {
        std::process::exit(1);
    }
}
