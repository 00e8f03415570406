//! Monomorphic MIR of everything reachable from the local crate's functions.
use crate::json::{n, s, J};
use rustc_const_eval::const_eval::{mk_eval_cx_for_const_val, CompileTimeInterpCx};
use rustc_const_eval::interpret::{OpTy, Projectable};
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::def_id::DefId;
use rustc_span::{Span, DUMMY_SP};
use std::collections::HashMap;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
}

pub fn dump(tcx: TyCtxt<'_>) -> J {
    let env = TypingEnv::fully_monomorphized();
    let mut cx = Cx {
        tcx,
        env,
        tys: HashMap::new(),
        ty_out: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
    };
    let mut roots = vec![];
    for id in tcx.hir_body_owners() {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        let g = tcx.generics_of(d);
        if g.requires_monomorphization(tcx) {
            continue;
        }
        let inst = Instance::mono(tcx, d);
        roots.push(n(cx.inst(inst)));
    }
    let mut fns = vec![];
    let mut i = 0;
    while i < cx.inst_list.len() {
        let inst = cx.inst_list[i];
        let j = cx.instance(inst);
        fns.push(j);
        i += 1;
    }
    J::O(vec![
        ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str())),
        ("roots", J::A(roots)),
        ("fns", J::A(fns)),
        ("types", J::A(cx.ty_out)),
    ])
}

pub fn span_str(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    if sp.is_dummy() {
        return String::new();
    }
    let lo = sm.lookup_char_pos(sp.lo());
    format!("{}:{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line, lo.col.0 + 1)
}

impl<'tcx> Cx<'tcx> {
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(&k) = self.insts.get(&i) {
            return k;
        }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        k
    }

    fn path(&self, d: DefId) -> String {
        // e.g. ssbh_lib::arrays::<impl ..>::name
        let k = self.tcx.crate_name(d.krate);
        let p = self.tcx.def_path_str(d);
        let ks = k.as_str();
        if d.is_local() {
            format!("{ks}::{p}")
        } else {
            p
        }
    }

    fn instance(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let d = inst.def_id();
        let kind = match inst.def {
            ty::InstanceKind::Item(_) => "item",
            ty::InstanceKind::Intrinsic(_) | ty::InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            ty::InstanceKind::Virtual(..) => "virtual",
            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
            ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr_shim",
            ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
            ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop_glue",
            ty::InstanceKind::Shim(_) => "shim",
        };
        let dk = tcx.def_kind(d);
        let mut o = vec![
            ("path", s(self.path(d))),
            ("full", s(tcx.def_path_str_with_args(d, inst.args))),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("crate", s(tcx.crate_name(d.krate).as_str())),
            ("kind", s(kind)),
            ("closure", J::B(matches!(dk, DefKind::Closure))),
            ("ctor", J::B(matches!(dk, DefKind::Ctor(..)))),
            ("span", s(span_str(tcx, tcx.def_span(d)))),
        ];
        // trait / impl information
        if let Some(assoc) = tcx.opt_associated_item(d) {
            let parent = tcx.parent(d);
            let (tr, self_ty) = match tcx.def_kind(parent) {
                DefKind::Impl { of_trait } => {
                    let tr = if of_trait {
                        Some(self.path(tcx.impl_trait_ref(parent).skip_binder().def_id))
                    } else {
                        None
                    };
                    let st = tcx.type_of(parent);
                    let st = tcx.instantiate_and_normalize_erasing_regions(inst.args, self.env, st);
                    (tr, Some(st))
                }
                DefKind::Trait => {
                    let st = inst.args.get(0).and_then(|a| a.as_type());
                    (Some(self.path(parent)), st)
                }
                _ => (None, None),
            };
            let _ = assoc;
            // the size and alignment reported for a type go with how it is written
            if tcx.opt_item_name(d).is_some_and(|x| x.as_str() == "ssbh_write") {
                let trait_did = match tcx.def_kind(parent) {
                    DefKind::Impl { of_trait: true } => Some(tcx.impl_trait_ref(parent).skip_binder().def_id),
                    DefKind::Trait => Some(parent),
                    _ => None,
                };
                if let (Some(td), Some(st)) = (trait_did, self_ty) {
                    for it in tcx.associated_items(td).in_definition_order() {
                        if matches!(tcx.item_name(it.def_id).as_str(), "size_in_bytes" | "alignment_in_bytes") {
                            let args = tcx.mk_args(&[st.into()]);
                            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, it.def_id, args) {
                                self.inst(i);
                            }
                        }
                    }
                }
            }
            if let Some(t) = tr {
                o.push(("trait", s(t)));
            }
            if let Some(t) = self_ty {
                if !t.has_non_region_param() {
                    let t = self.ty(t);
                    o.push(("self_ty", n(t)));
                }
            }
        }
        let targs: Vec<J> = inst
            .args
            .iter()
            .filter_map(|a| a.as_type())
            .map(|t| n(self.ty(t)))
            .collect();
        o.push(("targs", J::A(targs)));
        // const generic args as strings
        let cargs: Vec<J> = inst
            .args
            .iter()
            .filter_map(|a| a.as_const())
            .map(|c| match c.try_to_target_usize(tcx) {
                Some(v) => n(v),
                None => s(format!("{c:?}")),
            })
            .collect();
        if !cargs.is_empty() {
            o.push(("cargs", J::A(cargs)));
        }
        // parent chain for closures
        if matches!(dk, DefKind::Closure) {
            o.push(("parent", s(self.path(tcx.typeck_root_def_id(d)))));
        }
        let ctor = matches!(dk, DefKind::Ctor(..));
        if ctor {
            // Describe constructor functions directly.
            let sig_ty = inst.ty(tcx, self.env);
            let out = sig_ty.fn_sig(tcx).output().skip_binder();
            let v = tcx.parent(d);
            if let ty::Adt(ad, _) = out.kind() {
                let vi = if ad.is_enum() {
                    ad.variant_index_with_ctor_id(d).as_usize()
                } else {
                    0
                };
                let _ = v;
                let t = self.ty(out);
                o.push(("ctor_ty", n(t)));
                o.push(("ctor_variant", n(vi)));
            }
            return J::O(o);
        }
        let has_mir = match inst.def {
            ty::InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d),
            ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => false,
            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. })
            | ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
            _ => false,
        };
        let krate = tcx.crate_name(d.krate);
        let expand = matches!(
            krate.as_str(),
            "ssbh_lib" | "ssbh_data" | "ssbh_write" | "sa_roots" | "binrw" | "core" | "alloc" | "itertools"
        );
        if has_mir && expand {
            let body = tcx.instance_mir(inst.def);
            let body = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                EarlyBinder::bind(tcx, body.clone()),
            );
            self.body(&body, &mut o);
        }
        J::O(o)
    }

    fn body(&mut self, b: &Body<'tcx>, o: &mut Vec<(&'static str, J)>) {
        o.push(("argc", n(b.arg_count)));
        if let Some(l) = b.spread_arg {
            o.push(("spread", n(l.as_usize())));
        }
        let locals = b.local_decls.iter().map(|d| n(self.ty(d.ty))).collect();
        o.push(("locals", J::A(locals)));
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if let Some(l) = p.as_local() {
                    names.push(J::A(vec![n(l.as_usize()), s(v.name.as_str())]));
                }
            }
        }
        o.push(("names", J::A(names)));
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let r = self.rvalue(r, b);
                        st.push(J::A(vec![self.place(p), r, s(span_str(self.tcx, x.source_info.span))]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![
                            self.place(place),
                            J::A(vec![s("setdiscr"), n(variant_index.as_usize())]),
                            s(span_str(self.tcx, x.source_info.span)),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let tj = self.term(t, b);
            let mut e = vec![("s", J::A(st)), ("t", tj), ("sp", s(span_str(self.tcx, t.source_info.span)))];
            if bb.is_cleanup {
                e.push(("cleanup", J::B(true)));
            }
            blocks.push(J::O(e));
        }
        o.push(("blocks", J::A(blocks)));
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize()), n(self.ty(t))]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), n(offset), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_usize())]),
                ProjectionElem::OpaqueCast(_) => s("cast"),
                _ => s("?"),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("p"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("c"), self.constant(&c.const_)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("c"), J::O(vec![("rc", J::B(true))])]),
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = vec![("ty", n(ti))];
        if let ty::FnDef(d, args) = t.kind() {
            let k = self.resolve((*d).into(), args.skip_binder());
            o.push(("fn", k));
            return J::O(o);
        }
        match c.eval(self.tcx, self.env, DUMMY_SP) {
            Ok(v) => {
                if let Some((ecx, op)) = mk_eval_cx_for_const_val(self.tcx.at(DUMMY_SP), self.env, v, t) {
                    let j = self.decode(&ecx, &op, 0);
                    o.push(("v", j));
                } else {
                    o.push(("err", s("decode")));
                }
            }
            Err(_) => o.push(("err", s("eval"))),
        }
        J::O(o)
    }

    fn decode(&mut self, ecx: &CompileTimeInterpCx<'tcx>, op: &OpTy<'tcx>, depth: usize) -> J {
        let t = op.layout.ty;
        if depth > 12 {
            return J::O(vec![("deep", s(t.to_string()))]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let Some(sc) = ecx.read_scalar(op).discard_err() else {
                    return J::Null;
                };
                let Ok(i) = sc.try_to_scalar_int() else {
                    return J::Null;
                };
                match t.kind() {
                    ty::Int(_) => s(i.to_int(i.size()).to_string()),
                    ty::Float(ty::FloatTy::F32) => {
                        s(format!("{}", f32::from_bits(i.to_bits(i.size()) as u32)))
                    }
                    ty::Float(ty::FloatTy::F64) => {
                        s(format!("{}", f64::from_bits(i.to_bits(i.size()) as u64)))
                    }
                    _ => s(i.to_bits(i.size()).to_string()),
                }
            }
            ty::Ref(_, _, _) => {
                let Some(pl) = ecx.deref_pointer(op).discard_err() else {
                    return J::O(vec![("ptr", s(t.to_string()))]);
                };
                if pl.layout.ty.is_str() {
                    return match ecx.read_str(&pl).discard_err() {
                        Some(x) => J::O(vec![("str", s(x))]),
                        None => J::Null,
                    };
                }
                if matches!(pl.layout.ty.kind(), ty::Dynamic(..) | ty::Foreign(..)) {
                    return J::O(vec![("dyn", s(t.to_string()))]);
                }
                let inner: OpTy<'tcx> = pl.into();
                let j = self.decode(ecx, &inner, depth + 1);
                J::O(vec![("ref", j)])
            }
            ty::Array(..) | ty::Slice(_) => {
                let Some(len) = op.len(ecx).discard_err() else {
                    return J::Null;
                };
                if len > 4096 {
                    return J::O(vec![("big", n(len))]);
                }
                let mut v = vec![];
                for i in 0..len {
                    let Some(f) = ecx.project_index(op, i).discard_err() else {
                        return J::Null;
                    };
                    v.push(self.decode(ecx, &f, depth + 1));
                }
                J::O(vec![("arr", J::A(v))])
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    let Some(f) = ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)).discard_err() else {
                        return J::Null;
                    };
                    v.push(self.decode(ecx, &f, depth + 1));
                }
                J::O(vec![("tup", J::A(v))])
            }
            ty::Adt(def, _) => {
                if def.is_union() || def.variants().is_empty() {
                    return J::O(vec![("union", s(t.to_string()))]);
                }
                let vi = if def.is_enum() {
                    match ecx.read_discriminant(op).discard_err() {
                        Some(v) => v,
                        None => return J::Null,
                    }
                } else {
                    rustc_abi::FIRST_VARIANT
                };
                let Some(down) = ecx.project_downcast(op, vi).discard_err() else {
                    return J::Null;
                };
                let nf = def.variants()[vi].fields.len();
                let mut v = vec![];
                for i in 0..nf {
                    let Some(f) = ecx.project_field(&down, rustc_abi::FieldIdx::from_usize(i)).discard_err() else {
                        return J::Null;
                    };
                    v.push(self.decode(ecx, &f, depth + 1));
                }
                let ti = self.ty(t);
                J::O(vec![("adt", n(ti)), ("var", n(vi.as_usize())), ("fs", J::A(v))])
            }
            ty::FnDef(d, args) => {
                let k = self.resolve((*d).into(), args.skip_binder());
                J::O(vec![("fn", k)])
            }
            _ => J::O(vec![("opaque", s(t.to_string()))]),
        }
    }

    /// index of the resolved instance, or a description of why there is none
    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        if args.has_non_region_param() {
            return s("generic");
        }
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => n(self.inst(i)),
            _ => s(format!("unresolved {}", self.tcx.def_path_str_with_args(d, args))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(op, ..) => J::A(vec![s("use"), self.operand(op)]),
            Rvalue::Repeat(op, c) => J::A(vec![
                s("repeat"),
                self.operand(op),
                c.try_to_target_usize(self.tcx).map(n).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, k, p) => {
                J::A(vec![s("ref"), self.place(p), J::B(matches!(k, BorrowKind::Mut { .. }))])
            }
            Rvalue::Reborrow(_, m, p) => {
                // &*p
                let pj = self.place(p);
                J::A(vec![s("reborrow"), pj, J::B(m.is_mut())])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(p), J::B(true)]),
            Rvalue::Cast(k, op, t) => {
                let from = op.ty(&b.local_decls, self.tcx);
                let (f, to) = (self.ty(from), self.ty(*t));
                J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(op), n(f), n(to)])
            }
            Rvalue::BinaryOp(op, ab) => J::A(vec![
                s("bin"),
                s(format!("{op:?}")),
                self.operand(&ab.0),
                self.operand(&ab.1),
            ]),
            Rvalue::UnaryOp(op, a) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(a)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let t = self.ty(t);
                J::A(vec![s("discr"), self.place(p), n(t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<J> = ops.iter().map(|x| self.operand(x)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, uf) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        J::A(vec![
                            s("adt"),
                            n(t),
                            n(v.as_usize()),
                            uf.map(|f| n(f.as_usize())).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        J::A(vec![s("closure"), n(self.ty(t))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(fs)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("p"), self.place(p)])]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::WrapUnsafeBinder(..) => J::A(vec![s("unknown")]),
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, b: &Body<'tcx>) -> J {
        let bbn = |x: BasicBlock| n(x.as_usize());
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbn(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(&b.local_decls, self.tcx);
                let dt = self.ty(dt);
                let v = targets
                    .iter()
                    .map(|(v, bb)| J::A(vec![s(v.to_string()), bbn(bb)]))
                    .collect();
                J::A(vec![
                    s("switch"),
                    self.operand(discr),
                    J::A(v),
                    bbn(targets.otherwise()),
                    n(dt),
                ])
            }
            TerminatorKind::Return => J::A(vec![s("return")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
            TerminatorKind::Drop { place, target, .. } => {
                J::A(vec![s("drop"), self.place(place), bbn(*target)])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(&b.local_decls, self.tcx);
                let callee = match ft.kind() {
                    ty::FnDef(d, a) => J::O(vec![
                        ("i", self.resolve((*d).into(), a.skip_binder())),
                        ("d", s(self.path((*d).into()))),
                    ]),
                    _ => J::O(vec![("op", self.operand(func)), ("d", s("<indirect>"))]),
                };
                let aj = args.iter().map(|x| self.operand(&x.node)).collect();
                J::A(vec![
                    s("call"),
                    callee,
                    J::A(aj),
                    self.place(destination),
                    target.map(bbn).unwrap_or(J::Null),
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        ("bounds".into(), vec![self.operand(len), self.operand(index)])
                    }
                    AssertKind::Overflow(op, a, c) => {
                        (format!("overflow_{op:?}"), vec![self.operand(a), self.operand(c)])
                    }
                    AssertKind::OverflowNeg(a) => ("overflow_Neg".into(), vec![self.operand(a)]),
                    AssertKind::DivisionByZero(a) => ("div_zero".into(), vec![self.operand(a)]),
                    AssertKind::RemainderByZero(a) => ("rem_zero".into(), vec![self.operand(a)]),
                    m => (format!("other_{m:?}").chars().take(40).collect(), vec![]),
                };
                J::A(vec![
                    s("assert"),
                    self.operand(cond),
                    J::B(*expected),
                    s(k),
                    J::A(ops),
                    bbn(*target),
                ])
            }
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbn(*real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbn(*real_target)]),
            _ => J::A(vec![s("unknown")]),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let tcx = self.tcx;
        let t = if t.has_non_region_param() {
            t
        } else {
            tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
        };
        if let Some(&k) = self.tys.get(&t) {
            return k;
        }
        let k = self.ty_out.len();
        self.tys.insert(t, k);
        self.ty_out.push(J::Null);
        let full = t.to_string();
        let mut o = vec![("s", s(full))];
        let conc = !t.has_non_region_param() && !t.has_escaping_bound_vars();
        if conc {
            if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                if l.is_sized() {
                    o.push(("sz", n(l.size.bytes_usize())));
                    o.push(("al", n(l.align.abi.bytes_usize())));
                }
            }
        }
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("path", s(self.path(def.did()))));
                o.push(("crate", s(tcx.crate_name(def.did().krate).as_str())));
                let targs: Vec<J> = args.iter().filter_map(|a| a.as_type()).map(|x| n(self.ty(x))).collect();
                o.push(("args", J::A(targs)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let vis = match f.vis {
                            ty::Visibility::Public => "pub".to_string(),
                            ty::Visibility::Restricted(d) => self.path(d.to_def_id()),
                        };
                        fs.push(J::A(vec![s(f.name.as_str()), n(self.ty(ft)), s(vis)]));
                    }
                    let d = if def.is_enum() {
                        s(def.discriminant_for_variant(tcx, vi).to_string())
                    } else {
                        J::Null
                    };
                    vs.push(J::O(vec![("n", s(v.name.as_str())), ("d", d), ("f", J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("to", n(self.ty(*x))));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(x, _) => {
                o.push(("k", s("ptr")));
                o.push(("to", n(self.ty(*x))));
            }
            ty::Array(x, c) => {
                o.push(("k", s("array")));
                o.push(("of", n(self.ty(*x))));
                o.push(("len", c.try_to_target_usize(tcx).map(n).unwrap_or(J::Null)));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                o.push(("of", n(self.ty(*x))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| n(self.ty(x))).collect();
                o.push(("fs", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
                if conc {
                    let inst = Instance::new_raw(*d, args);
                    let i = self.inst(inst);
                    o.push(("inst", n(i)));
                    let up = args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x))).collect();
                    o.push(("up", J::A(up)));
                }
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path((*d).into()))));
                if conc {
                    let r = self.resolve((*d).into(), args.skip_binder());
                    o.push(("inst", r));
                }
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                o.push(("k", s("prim")));
                let sz = match t.kind() {
                    ty::Bool => 1,
                    ty::Char => 4,
                    ty::Int(i) => i.bit_width().unwrap_or(64) / 8,
                    ty::Uint(i) => i.bit_width().unwrap_or(64) / 8,
                    ty::Float(f) => f.bit_width() / 8,
                    _ => 0,
                };
                o.push(("size", n(sz)));
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[k] = J::O(o);
        k
    }
}

#[allow(dead_code)]
fn _unused<'tcx, P: Projectable<'tcx, rustc_middle::mir::interpret::CtfeProvenance>>(_: P) {}
