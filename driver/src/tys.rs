//! Structured types (regions kept) for signatures.
use crate::json::*;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt};

thread_local!(static IN_OPAQUE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

pub fn region<'tcx>(r: ty::Region<'tcx>) -> String {
    match r.kind() {
        ty::ReEarlyParam(p) => p.name.to_string(),
        ty::ReLateParam(p) => format!("{:?}", p.kind),
        ty::ReBound(_, b) => format!("bound:{}:{:?}", b.var.as_u32(), b.kind),
        ty::ReStatic => "'static".into(),
        ty::ReErased => "'erased".into(),
        k => format!("{:?}", k),
    }
}

pub fn garg<'tcx>(tcx: TyCtxt<'tcx>, g: ty::GenericArg<'tcx>) -> J {
    match g.kind() {
        GenericArgKind::Lifetime(r) => o([("k", s("re")), ("r", s(region(r)))]),
        GenericArgKind::Type(t) => ty(tcx, t),
        GenericArgKind::Const(c) => o([("k", s("const")), ("s", s(format!("{}", c)))]),
        #[allow(unreachable_patterns)]
        _ => o([("k", s("other"))]),
    }
}

pub fn gargs<'tcx>(tcx: TyCtxt<'tcx>, args: ty::GenericArgsRef<'tcx>) -> J {
    a(args.iter().map(|g| garg(tcx, g)))
}

pub fn ty<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> J {
    let str_ = ("s", s(format!("{}", t)));
    match t.kind() {
        ty::Adt(d, args) => o([("k", s("adt")), ("path", s(tcx.def_path_str(d.did()))), ("local", b(d.did().is_local())), ("args", gargs(tcx, args)), str_]),
        ty::Ref(r, inner, m) => o([("k", s("ref")), ("r", s(region(*r))), ("mut", b(m.is_mut())), ("t", ty(tcx, *inner)), str_]),
        ty::RawPtr(inner, m) => o([("k", s("ptr")), ("mut", b(m.is_mut())), ("t", ty(tcx, *inner)), str_]),
        ty::Slice(inner) => o([("k", s("slice")), ("t", ty(tcx, *inner)), str_]),
        ty::Array(inner, n_) => o([("k", s("array")), ("t", ty(tcx, *inner)), ("n", s(format!("{}", n_))), str_]),
        ty::Tuple(ts) => o([("k", s("tuple")), ("ts", a(ts.iter().map(|t| ty(tcx, t)))), str_]),
        ty::Param(p) => o([("k", s("param")), ("name", s(p.name.as_str())), str_]),
        ty::Alias(_, al) => {
            let did: rustc_hir::def_id::DefId = match al.kind { ty::AliasTyKind::Projection { def_id } => def_id.into(), ty::AliasTyKind::Inherent { def_id } => def_id.into(), ty::AliasTyKind::Opaque { def_id } => def_id.into(), ty::AliasTyKind::Free { def_id } => def_id.into() };
            let mut ob = Obj::new();
            ob.put("k", s("alias")).put("path", s(tcx.def_path_str(did)))
              .put("kind", s(format!("{:?}", tcx.def_kind(did))))
              .put("args", a(al.args.iter().map(|g| garg(tcx, g)))).put("s", s(format!("{}", t)));
            if matches!(tcx.def_kind(did), rustc_hir::def::DefKind::OpaqueTy) && !IN_OPAQUE.with(|c| c.get()) {
                IN_OPAQUE.with(|c| c.set(true));
                // bounds of the opaque type
                let bs = tcx.explicit_item_bounds(did).iter_instantiated_copied(tcx, al.args);
                let mut v = vec![];
                for x in bs { let (c, _) = x.skip_norm_wip(); v.push(clause(tcx, c)); }
                ob.put("bounds", J::A(v));
                IN_OPAQUE.with(|c| c.set(false));
            }
            ob.done()
        }
        ty::FnPtr(sig, _) => {
            let sg = sig.skip_binder();
            o([("k", s("fnptr")), ("ts", a(sg.inputs_and_output.iter().map(|t| ty(tcx, t)))), str_])
        }
        ty::Dynamic(preds, r) => o([("k", s("dyn")), ("r", s(region(*r))), ("ps", s(format!("{:?}", preds))), str_]),
        ty::Closure(d, args) => o([("k", s("closure")), ("path", s(tcx.def_path_str(*d))), ("upvars", a(args.as_closure().upvar_tys().iter().map(|t| ty(tcx, t)))), str_]),
        _ => o([("k", s("prim")), str_]),
    }
}

pub fn clause<'tcx>(tcx: TyCtxt<'tcx>, c: ty::Clause<'tcx>) -> J {
    match c.kind().skip_binder() {
        ty::ClauseKind::Trait(p) => o([("k", s("trait")), ("path", s(tcx.def_path_str(p.trait_ref.def_id))), ("args", gargs(tcx, p.trait_ref.args)), ("pol", b(matches!(p.polarity, ty::ClausePolarity::Positive))), ("s", s(format!("{}", c)))]),
        ty::ClauseKind::Projection(p) => {
            let term = match p.term.kind() { ty::TermKind::Ty(t) => ty(tcx, t), _ => J::Null };
            o([("k", s("proj")), ("path", s(format!("{:?}", p.projection_term))), ("args", a(p.projection_term.args.iter().map(|g| garg(tcx, g)))), ("term", term), ("s", s(format!("{}", c)))])
        }
        ty::ClauseKind::RegionOutlives(p) => o([("k", s("re_outlives")), ("a", s(region(p.0))), ("b", s(region(p.1)))]),
        ty::ClauseKind::TypeOutlives(p) => o([("k", s("ty_outlives")), ("t", ty(tcx, p.0)), ("r", s(region(p.1)))]),
        _ => o([("k", s("other")), ("s", s(format!("{}", c)))]),
    }
}
