//! HIR / generic MIR facts about one crate: unsafe code, statics, functions.
use crate::json::{n, s, J};
use crate::mono::span_str;
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::mir::{Operand, TerminatorKind};
use rustc_middle::ty::{self, TyCtxt};

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    unsafe_blocks: Vec<J>,
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
            self.unsafe_blocks.push(J::O(vec![
                ("fn", s(self.tcx.def_path_str(owner.to_def_id()))),
                ("src", s(format!("{src:?}"))),
                ("span", s(span_str(self.tcx, b.span))),
                ("exp", J::B(b.span.from_expansion())),
                ("macro", s(b.span.ctxt().outer_expn_data().kind.descr())),
            ]));
        }
        intravisit::walk_block(self, b);
    }
}

pub fn dump(tcx: TyCtxt<'_>) -> J {
    let mut v = V { tcx, unsafe_blocks: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    let mut statics = vec![];
    let mut fns = vec![];
    let mut unsafe_items = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                statics.push(J::O(vec![
                    ("path", s(tcx.def_path_str(d))),
                    ("mut", J::B(mutability.is_mut())),
                    ("ty", s(tcx.type_of(d).skip_binder().to_string())),
                    ("freeze", J::B(tcx.type_of(d).skip_binder().is_freeze(tcx, ty::TypingEnv::fully_monomorphized()))),
                    ("span", s(span_str(tcx, tcx.def_span(d)))),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let mut o = vec![
                    ("ty", s(tcx.type_of(d).skip_binder().to_string())),
                    ("span", s(span_str(tcx, tcx.def_span(d)))),
                ];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).skip_binder();
                    o.push(("trait", s(tcx.def_path_str(tr.def_id))));
                    if tcx.impl_trait_header(d).safety.is_unsafe() {
                        unsafe_items.push(J::O(vec![("kind", s("impl")), ("path", s(tr.to_string())), ("span", s(span_str(tcx, tcx.def_span(d))))]));
                    }
                }
                impls.push(J::O(o));
            }
            DefKind::ForeignMod => {
                unsafe_items.push(J::O(vec![("kind", s("extern")), ("path", s(tcx.def_path_str(d))), ("span", s(span_str(tcx, tcx.def_span(d))))]));
            }
            _ => {}
        }
    }
    for id in tcx.hir_body_owners() {
        let d = id.to_def_id();
        let dk = tcx.def_kind(d);
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let mut o = vec![
            ("path", s(tcx.def_path_str(d))),
            ("kind", s(format!("{dk:?}"))),
            ("span", s(span_str(tcx, tcx.def_span(d)))),
            ("exp", J::B(tcx.def_span(d).from_expansion())),
        ];
        if !matches!(dk, DefKind::Closure) {
            o.push(("pub", J::B(tcx.effective_visibilities(()).is_exported(id) || tcx.effective_visibilities(()).is_reachable(id))));
            o.push(("generic", J::B(tcx.generics_of(d).requires_monomorphization(tcx))));
            if tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                unsafe_items.push(J::O(vec![("kind", s("fn")), ("path", s(tcx.def_path_str(d))), ("span", s(span_str(tcx, tcx.def_span(d))))]));
            }
        }
        let mut calls = vec![];
        if tcx.is_mir_available(d) {
            let b = tcx.optimized_mir(d);
            for bb in b.basic_blocks.iter() {
                if let TerminatorKind::Call { func, fn_span, .. } = &bb.terminator().kind {
                    if let Operand::Constant(c) = func {
                        if let ty::FnDef(cd, ca) = c.const_.ty().kind() {
                            let cd: rustc_span::def_id::DefId = (*cd).into();
                            calls.push(J::A(vec![
                                s(tcx.def_path_str(cd)),
                                s(tcx.def_path_str_with_args(cd, ca.skip_binder())),
                                s(span_str(tcx, *fn_span)),
                            ]));
                        }
                    }
                }
            }
        }
        o.push(("calls", J::A(calls)));
        fns.push(J::O(o));
    }
    J::O(vec![
        ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str())),
        ("count", n(fns.len())),
        ("fns", J::A(fns)),
        ("impls", J::A(impls)),
        ("statics", J::A(statics)),
        ("unsafe_blocks", J::A(v.unsafe_blocks)),
        ("unsafe_items", J::A(unsafe_items)),
    ])
}
