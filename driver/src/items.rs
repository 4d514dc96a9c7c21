use crate::json::*;
use crate::tys;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::{self, GenericParamDefKind, Ty, TyCtxt, TypingEnv, TypingMode};
use rustc_span::sym;
use rustc_trait_selection::infer::InferCtxtExt;

pub fn span<'tcx>(tcx: TyCtxt<'tcx>, sp: rustc_span::Span) -> J {
    let sp = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    let f = lo.file.name.prefer_local_unconditionally().to_string();
    a([s(f), n(lo.line as u64)])
}

fn generics<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> J {
    let mut v = vec![];
    let mut stack = vec![];
    let mut cur = Some(did);
    while let Some(d) = cur { let g = tcx.generics_of(d); stack.push(g); cur = g.parent; }
    for g in stack.into_iter().rev() {
        for p in &g.own_params {
            let kind = match p.kind { GenericParamDefKind::Lifetime => "lt", GenericParamDefKind::Type { .. } => "ty", GenericParamDefKind::Const { .. } => "const" };
            v.push(o([("name", s(p.name.as_str())), ("kind", s(kind)), ("index", n(p.index as u64))]));
        }
    }
    J::A(v)
}

fn preds<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> J {
    let mut v = vec![];
    for c in tcx.param_env(did).caller_bounds() { v.push(tys::clause(tcx, c)); }
    J::A(v)
}

pub fn vis<'tcx>(tcx: TyCtxt<'tcx>, did: LocalDefId) -> (bool, bool) {
    let ev = tcx.effective_visibilities(());
    (ev.is_reachable(did), ev.is_exported(did))
}

pub fn parent_impl<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> J {
    let mut cur = did;
    loop {
        match tcx.opt_parent(cur) {
            None => return J::Null,
            Some(p) => {
                match tcx.def_kind(p) {
                    DefKind::Impl { of_trait } => {
                        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                        let mut ob = Obj::new();
                        ob.put("self", tys::ty(tcx, st));
                        if of_trait {
                            let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                            ob.put("trait", s(tcx.def_path_str(tr.def_id)));
                            ob.put("trait_args", tys::gargs(tcx, tr.args));
                        } else { ob.put("trait", J::Null); }
                        return ob.done();
                    }
                    DefKind::Trait => return o([("in_trait", s(tcx.def_path_str(p))), ("trait", J::Null)]),
                    DefKind::Mod => return J::Null,
                    _ => cur = p,
                }
            }
        }
    }
}

pub fn implements<'tcx>(tcx: TyCtxt<'tcx>, env: ty::ParamEnv<'tcx>, tr: DefId, t: Ty<'tcx>) -> bool {
    let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
    let t = tcx.erase_and_anonymize_regions(t);
    infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions()
}

pub fn implements_ref<'tcx>(tcx: TyCtxt<'tcx>, env: ty::ParamEnv<'tcx>, t: ty::TraitRef<'tcx>) -> bool {
    let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
    infcx.type_implements_trait(t.def_id, t.args, env).must_apply_modulo_regions()
}

fn adt<'tcx>(tcx: TyCtxt<'tcx>, ldid: LocalDefId) -> J {
    let did = ldid.to_def_id();
    let def = tcx.adt_def(did);
    let ident = ty::GenericArgs::identity_for_item(tcx, did);
    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    let (reach, exported) = vis(tcx, ldid);
    let mut ob = Obj::new();
    ob.put("path", s(tcx.def_path_str(did)));
    ob.put("exported", b(exported));
    ob.put("span", span(tcx, tcx.def_span(did)));
    ob.put("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }));
    ob.put("reachable", b(reach));
    ob.put("pub", b(tcx.visibility(did).is_public()));
    ob.put("repr_c", b(def.repr().c()));
    ob.put("repr_transparent", b(def.repr().transparent()));
    ob.put("repr_packed", b(def.repr().packed()));
    ob.put("repr_align", b(def.repr().align.is_some()));
    ob.put("repr", s(format!("{:?}", def.repr())));
    ob.put("generics", generics(tcx, did));
    ob.put("preds", preds(tcx, did));
    ob.put("variances", a(tcx.variances_of(did).iter().map(|v| s(format!("{:?}", v)))));
    ob.put("has_dtor", b(tcx.adt_destructor(did).is_some()));
    ob.put("variants", a(def.variants().iter().map(|v| {
        o([("name", s(v.name.as_str())), ("discr", s(format!("{:?}", v.discr))), ("fields", a(v.fields.iter().map(|f| {
            let ft = f.ty(tcx, ident).skip_norm_wip();
            o([("name", s(f.name.as_str())), ("ty", tys::ty(tcx, ft)), ("pub", b(f.vis.is_public())), ("vis", s(format!("{:?}", f.vis)))])
        })))])
    })));
    // Send/Sync/Clone/Copy answers
    let mut solver = vec![];
    let send = tcx.get_diagnostic_item(sym::Send);
    let sync = tcx.lang_items().sync_trait();
    let clone = tcx.lang_items().clone_trait().unwrap();
    let copy = tcx.lang_items().copy_trait().unwrap();
    let tparams: Vec<Ty<'tcx>> = ident.types().collect();
    let base: Vec<ty::Clause<'tcx>> = tcx.param_env(did).caller_bounds().collect();
    let mk = |withs: &[(DefId, Ty<'tcx>)]| -> ty::ParamEnv<'tcx> {
        let mut cs = base.clone();
        for (tr, t) in withs {
            let c: ty::Clause<'tcx> = ty::Upcast::upcast(ty::TraitRef::new(tcx, *tr, [*t]), tcx);
            cs.push(c);
        }
        ty::ParamEnv::new(tcx, cs)
    };
    for (nm, tr) in [("Send", send), ("Sync", sync)] {
        let Some(tr) = tr else { continue };
        // all parameters Send + Sync
        let s_ = send.unwrap(); let y_ = sync.unwrap();
        let mut all = vec![];
        for p in &tparams { all.push((s_, *p)); all.push((y_, *p)); }
        let mut q = Obj::new();
        q.put("trait", s(nm));
        q.put("all", b(implements(tcx, mk(&all), tr, t)));
        q.put("none", b(implements(tcx, mk(&[]), tr, t)));
        let mut w = vec![];
        for p in &tparams {
            for (mn, mt) in [("Send", s_), ("Sync", y_)] {
                let withs: Vec<_> = all.iter().filter(|(tt, pp)| !(pp == p && *tt == mt)).cloned().collect();
                w.push(o([("param", s(format!("{}", p))), ("lacks", s(mn)), ("holds", b(implements(tcx, mk(&withs), tr, t)))]));
            }
            let withs: Vec<_> = all.iter().filter(|(_, pp)| pp != p).cloned().collect();
            w.push(o([("param", s(format!("{}", p))), ("lacks", s("both")), ("holds", b(implements(tcx, mk(&withs), tr, t)))]));
        }
        q.put("without", J::A(w));
        solver.push(q.done());
    }
    for (nm, tr) in [("Clone", clone), ("Copy", copy)] {
        let mut all = vec![];
        for p in &tparams { all.push((clone, *p)); all.push((copy, *p)); }
        solver.push(o([("trait", s(nm)), ("all", b(implements(tcx, mk(&all), tr, t)))]));
    }
    ob.put("solver", J::A(solver));
    ob.done()
}

fn func<'tcx>(tcx: TyCtxt<'tcx>, ldid: LocalDefId) -> J {
    let did = ldid.to_def_id();
    let kind = tcx.def_kind(did);
    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
    let sg = tcx.liberate_late_bound_regions(did, sig);
    let (reach, exported) = vis(tcx, ldid);
    let mut ob = Obj::new();
    ob.put("path", s(tcx.def_path_str(did)));
    ob.put("name", s(tcx.item_name(did).as_str()));
    ob.put("kind", s(format!("{:?}", kind)));
    ob.put("span", span(tcx, tcx.def_span(did)));
    ob.put("reachable", b(reach)).put("exported", b(exported));
    ob.put("pub", b(tcx.visibility(did).is_public()));
    ob.put("unsafe", b(!sg.safety().is_safe()));
    ob.put("inputs", a(sg.inputs().iter().map(|t| tys::ty(tcx, *t))));
    ob.put("output", tys::ty(tcx, sg.output()));
    ob.put("generics", generics(tcx, did));
    ob.put("preds", preds(tcx, did));
    ob.put("impl", parent_impl(tcx, did));
    ob.put("has_self", b(matches!(kind, DefKind::AssocFn) && tcx.associated_item(did).is_method()));
    ob.done()
}

fn imp<'tcx>(tcx: TyCtxt<'tcx>, ldid: LocalDefId) -> J {
    let did = ldid.to_def_id();
    let mut ob = Obj::new();
    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
    ob.put("span", span(tcx, tcx.def_span(did)));
    ob.put("self", tys::ty(tcx, st));
    ob.put("generics", generics(tcx, did));
    ob.put("preds", preds(tcx, did));
    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
        let tr = tr.instantiate_identity().skip_norm_wip();
        ob.put("trait", s(tcx.def_path_str(tr.def_id)));
        ob.put("trait_args", tys::gargs(tcx, tr.args));
        ob.put("polarity", s(format!("{:?}", tcx.impl_polarity(did))));
        ob.put("derived", b(tcx.is_automatically_derived(did)));
    } else { ob.put("trait", J::Null); }
    let mut assoc = vec![];
    for it in tcx.associated_items(did).in_definition_order() {
        let mut x = Obj::new();
        x.put("name", s(it.name().as_str())).put("path", s(tcx.def_path_str(it.def_id)));
        if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) {
            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
            x.put("ty", tys::ty(tcx, t));
        }
        assoc.push(x.done());
    }
    ob.put("items", J::A(assoc));
    ob.done()
}

/// flattened layout of an ADT instantiated with stand-in types
fn layout_flat<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, base: u64, prefix: String, out: &mut Vec<J>, depth: usize) {
    let env = TypingEnv::fully_monomorphized();
    let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { out.push(o([("off", n(base)), ("err", b(true)), ("name", s(&prefix))])); return };
    let leaf = |out: &mut Vec<J>, what: &str| out.push(o([("off", n(base)), ("size", n(l.size.bytes())), ("align", n(l.align.abi.bytes())), ("what", s(what)), ("name", s(&prefix)), ("ty", s(format!("{}", t)))]));
    match t.kind() {
        ty::Adt(d, args) if d.is_struct() && d.did().is_local() && depth < 12 => {
            if d.is_phantom_data() { return; }
            for (i, f) in d.non_enum_variant().fields.iter_enumerated() {
                let ft = f.ty(tcx, args).skip_norm_wip();
                let ft = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft));
                let off = l.fields.offset(i.as_usize()).bytes();
                layout_flat(tcx, ft, base + off, format!("{}.{}", prefix, f.name), out, depth + 1);
            }
        }
        ty::Adt(d, _) if d.is_phantom_data() => {}
        ty::Tuple(ts) => {
            for (i, x) in ts.iter().enumerate() {
                layout_flat(tcx, x, base + l.fields.offset(i).bytes(), format!("{}.{}", prefix, i), out, depth + 1);
            }
        }
        ty::RawPtr(..) | ty::Ref(..) => leaf(out, "ptr"),
        _ => leaf(out, "val"),
    }
}

fn layouts<'tcx>(tcx: TyCtxt<'tcx>, adts: &[LocalDefId]) -> J {
    let mut v = vec![];
    let u8t = tcx.types.u8; let u16t = tcx.types.u16; let u32t = tcx.types.u32; let u64t = tcx.types.u64;
    let arr = |t: Ty<'tcx>, k: u64| Ty::new_array(tcx, t, k);
    let stand_ins: Vec<(&str, [Ty<'tcx>; 3])> = vec![
        ("u8", [u8t; 3]), ("u32", [u32t; 3]), ("u64", [u64t; 3]), ("u16x5", [arr(u16t, 5); 3]), ("u64x3", [arr(u64t, 3); 3]),
        ("u8-u64", [u8t, u64t, u8t]), ("u64-u8", [u64t, u8t, u32t]), ("u32-u16", [u32t, u16t, u8t]), ("u16-u64", [u16t, u64t, u64t]),
    ];
    // concrete allocator: DefaultAllocator if it exists
    let mut allocs: Vec<Ty<'tcx>> = vec![];
    for d in adts {
        if tcx.item_name(d.to_def_id()).as_str() == "DefaultAllocator" { allocs.push(tcx.type_of(d.to_def_id()).instantiate_identity().skip_norm_wip()); }
    }
    for d in adts {
        let did = d.to_def_id();
        let g = tcx.generics_of(did);
        for (nm, st) in &stand_ins {
            // two classes of parameters: allocator-bounded ones get the default allocator and the stand-in type otherwise
            for alloc_choice in 0..2 {
                let env = tcx.param_env(did);
                let mut nth = 0usize;
                let mut used = vec![];
                let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                    GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 3).into(),
                    GenericParamDefKind::Type { .. } => {
                        let is_alloc = env.caller_bounds().any(|c| {
                            if let Some(tc) = c.as_trait_clause() {
                                let tr = tc.skip_binder().trait_ref;
                                tcx.item_name(tr.def_id).as_str().contains("Allocator") && matches!(tr.self_ty().kind(), ty::Param(q) if q.index == p.index)
                            } else { false }
                        });
                        if is_alloc && alloc_choice == 0 && !allocs.is_empty() { allocs[0].into() }
                        else if is_alloc { u32t.into() }
                        else { let x = st[nth.min(2)]; nth += 1; used.push(o([("param", s(p.name.as_str())), ("ty", s(format!("{}", x)))])); x.into() }
                    }
                });
                let _ = g;
                let t = Ty::new_adt(tcx, tcx.adt_def(did), args);
                let mut out = vec![];
                let envm = TypingEnv::fully_monomorphized();
                let Ok(l) = tcx.layout_of(envm.as_query_input(t)) else { continue };
                layout_flat(tcx, t, 0, String::new(), &mut out, 0);
                v.push(o([("adt", s(tcx.def_path_str(did))), ("stand_in", s(*nm)), ("params", J::A(used)), ("alloc", n(alloc_choice as u64)), ("size", n(l.size.bytes())), ("align", n(l.align.abi.bytes())), ("leaves", J::A(out))]));
            }
        }
    }
    J::A(v)
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, top: &mut Obj) {
    let mut adts = vec![]; let mut fns = vec![]; let mut impls = vec![]; let mut consts = vec![]; let mut statics = vec![]; let mut traits = vec![];
    for ldid in tcx.hir_crate_items(()).definitions() {
        match tcx.def_kind(ldid) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(ldid),
            DefKind::Fn | DefKind::AssocFn => fns.push(ldid),
            DefKind::Impl { .. } => impls.push(ldid),
            DefKind::Const { .. } | DefKind::AssocConst { .. } => consts.push(ldid),
            DefKind::Static { .. } => statics.push(ldid),
            DefKind::Trait => traits.push(ldid),
            _ => {}
        }
    }
    top.put("adts", a(adts.iter().map(|d| adt(tcx, *d))));
    top.put("fns", a(fns.iter().map(|d| func(tcx, *d))));
    top.put("impls", a(impls.iter().map(|d| imp(tcx, *d))));
    top.put("traits", a(traits.iter().map(|d| {
        let did = d.to_def_id();
        o([("path", s(tcx.def_path_str(did))), ("unsafe", b(!tcx.trait_def(did).safety.is_safe())), ("reachable", b(vis(tcx, *d).0)), ("items", a(tcx.associated_items(did).in_definition_order().map(|i| s(i.name().as_str()))))])
    })));
    top.put("statics", a(statics.iter().map(|d| {
        let did = d.to_def_id();
        o([("path", s(tcx.def_path_str(did))), ("mut", b(tcx.is_mutable_static(did))), ("ty", s(format!("{}", tcx.type_of(did).instantiate_identity().skip_norm_wip()))), ("bytes", static_bytes(tcx, did)), ("span", span(tcx, tcx.def_span(did)))])
    })));
    let mut cv = vec![];
    for d in &consts {
        let did = d.to_def_id();
        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let mut ob = Obj::new();
        ob.put("path", s(tcx.def_path_str(did))).put("ty", s(format!("{}", t))).put("span", span(tcx, tcx.def_span(did)));
        if tcx.generics_of(did).count() == 0 && !matches!(tcx.def_kind(did), DefKind::AssocConst { .. }) {
            if let Ok(v) = tcx.const_eval_poly(did) {
                ob.put("val", const_ints(tcx, v, t));
            }
        }
        cv.push(ob.done());
    }
    top.put("consts", J::A(cv));
    top.put("layouts", layouts(tcx, &adts));
}

fn static_bytes<'tcx>(tcx: TyCtxt<'tcx>, did: DefId) -> J {
    match tcx.eval_static_initializer(did) {
        Ok(al) => {
            let al = al.inner();
            a(al.inspect_with_uninit_and_ptr_outside_interpreter(0..al.len()).iter().map(|x| n(*x as u64)))
        }
        Err(_) => J::Null,
    }
}

pub fn const_ints<'tcx>(tcx: TyCtxt<'tcx>, v: rustc_middle::mir::ConstValue, t: Ty<'tcx>) -> J {
    let env = TypingEnv::fully_monomorphized();
    let t = tcx.erase_and_anonymize_regions(t);
    let (et, len) = match t.kind() {
        ty::Array(e, l) => match l.try_to_target_usize(tcx) { Some(l) => (*e, l), None => return J::Null },
        _ if t.is_integral() => (t, 1),
        _ => return J::Null,
    };
    if !et.is_integral() { return J::Null; }
    let Ok(l) = tcx.layout_of(env.as_query_input(et)) else { return J::Null };
    let sz = l.size.bytes() as usize;
    use rustc_middle::mir::ConstValue;
    match v {
        ConstValue::Scalar(sc) => match sc.try_to_scalar_int() { Ok(i) => n(i.to_bits(l.size)), Err(_) => J::Null },
        ConstValue::Indirect { alloc_id, offset } => {
            let al = tcx.global_alloc(alloc_id).unwrap_memory();
            let al = al.inner();
            let st = offset.bytes() as usize;
            let bytes = al.inspect_with_uninit_and_ptr_outside_interpreter(st..st + sz * len as usize);
            a(bytes.chunks(sz).map(|c| { let mut x: u128 = 0; for (i, b_) in c.iter().enumerate() { x |= (*b_ as u128) << (8 * i); } n(x) }))
        }
        _ => J::Null,
    }
}
