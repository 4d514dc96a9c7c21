//! Instantiated MIR of every local function (identity arguments) and of everything it calls
//! that is worth inlining, together with a table of the types that occur.
use crate::items::{parent_impl, span, vis};
use crate::json::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tids: HashMap<Ty<'tcx>, usize>,
    tqueue: VecDeque<Ty<'tcx>>,
    tout: Vec<(usize, J)>,
    iids: HashMap<(Instance<'tcx>, TypingEnv<'tcx>), usize>,
    iqueue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, usize)>,
    iout: Vec<J>,
    tenv: HashMap<usize, TypingEnv<'tcx>>,
}

fn expandable(path: &str) -> bool {
    // std code whose MIR is followed instead of being modelled
    const P: &[&str] = &[
        "std::option::Option::<", "core::option::", "std::result::Result::<", "<std::option::Option<", "<std::result::Result<",
        "std::mem::replace", "std::mem::swap", "std::mem::take", "std::cmp::", "<std::cmp::",
        "std::ops::function", "std::ops::Fn", "<&", "std::convert::", "<T as std::convert::", "<I as std::iter::IntoIterator",
        "<U as", "<F as", "std::clone::impls", "std::ops::ControlFlow", "<std::ops::ControlFlow",
        "std::cell::Cell", "std::cell::UnsafeCell", "std::pin::Pin", "<std::pin::Pin",
        "std::ops::Bound", "std::iter::FromIterator", "std::iter::Extend", "moveit::", "<moveit::", "<P as moveit", 
        "std::ptr::NonNull", "<std::ptr::NonNull", "core::ops::range", "std::ops::Range", "<std::ops::Range", "std::iter::range",
        "superslice::", "<[T] as superslice",
        "std::mem::ManuallyDrop", "<std::mem::ManuallyDrop", "std::boxed::Box",
        "std::iter::", "<std::iter::", "core::iter::", "<I as std::iter::", "<T as std::iter::", "std::array::<impl [T; N]>::as_slice",
        "<std::ops::try_trait", "std::ops::try_trait", "<std::ops::Try",
    ];
    P.iter().any(|p| path.starts_with(p))
}

impl<'tcx> Cx<'tcx> {
    fn tid(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tids.get(&t) { return *i; }
        let i = self.tids.len();
        self.tids.insert(t, i);
        self.tenv.insert(i, env);
        self.tqueue.push_back(t);
        i
    }

    fn drain_types(&mut self) {
        while let Some(t) = self.tqueue.pop_front() {
            let i = self.tids[&t];
            let env = self.tenv[&i];
            let j = self.ty_entry(t, env);
            self.tout.push((i, j));
        }
    }

    fn norm(&self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn ty_entry(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut ob = Obj::new();
        ob.put("s", s(format!("{}", t)));
        match t.kind() {
            ty::Bool => { ob.put("k", s("bool")); }
            ty::Char => { ob.put("k", s("char")); }
            ty::Int(x) => { ob.put("k", s("int")); ob.put("signed", b(true)); ob.put("bits", n(x.bit_width().unwrap_or(64))); }
            ty::Uint(x) => { ob.put("k", s("int")); ob.put("signed", b(false)); ob.put("bits", n(x.bit_width().unwrap_or(64))); }
            ty::Float(_) => { ob.put("k", s("float")); }
            ty::Never => { ob.put("k", s("never")); }
            ty::Str => { ob.put("k", s("str")); }
            ty::Param(p) => { ob.put("k", s("param")); ob.put("name", s(p.name.as_str())); }
            ty::Adt(d, args) => {
                ob.put("k", s("adt"));
                ob.put("path", s(tcx.def_path_str(d.did())));
                ob.put("local", b(d.did().is_local()));
                ob.put("kind", s(if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" }));
                ob.put("repr_c", b(d.repr().c()));
                ob.put("phantom", b(d.is_phantom_data()));
                ob.put("args", a(args.iter().map(|g| match g.kind() {
                    ty::GenericArgKind::Type(x) => n(self.tid(x, env) as u64),
                    ty::GenericArgKind::Const(c) => match c.try_to_target_usize(tcx) { Some(v) => s(format!("{}", v)), None => s(format!("{}", c)) },
                    _ => J::Null,
                })));
                let mut vs = vec![];
                for (vi, v) in d.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        let ft = self.norm(ft, env);
                        fs.push(a([s(f.name.as_str()), n(self.tid(ft, env) as u64)]));
                    }
                    let dv = if d.is_enum() { {
                        // the discriminants of a signed type are sign extended
                        let dc = d.discriminant_for_variant(tcx, vi);
                        match dc.ty.kind() {
                            ty::Int(i) => {
                                let bits = i.bit_width().unwrap_or(64);
                                n(((dc.val << (128 - bits)) as i128) >> (128 - bits))
                            }
                            _ => n(dc.val as i128),
                        }
                    } } else { n(0) };
                    vs.push(o([("name", s(v.name.as_str())), ("discr", dv), ("fields", J::A(fs))]));
                }
                ob.put("variants", J::A(vs));
                if let Some(dt) = tcx.adt_destructor(d.did()) {
                    // Drop::drop for this type
                    let drop_trait_fn = tcx.associated_item_def_ids(tcx.lang_items().drop_trait().unwrap())[0];
                    let targs = tcx.mk_args(&[t.into()]);
                    let r = Instance::try_resolve(tcx, env, drop_trait_fn, targs).ok().flatten();
                    match r {
                        Some(i) if dt.did.is_local() => { let id = self.iid(i, env); ob.put("drop", n(id as u64)); }
                        _ => { ob.put("drop", s(tcx.def_path_str(dt.did))); }
                    }
                }
            }
            ty::Ref(_, x, m) => { ob.put("k", s("ref")); ob.put("mut", b(m.is_mut())); ob.put("t", n(self.tid(*x, env) as u64)); }
            ty::RawPtr(x, m) => { ob.put("k", s("ptr")); ob.put("mut", b(m.is_mut())); ob.put("t", n(self.tid(*x, env) as u64)); }
            ty::Slice(x) => { ob.put("k", s("slice")); ob.put("t", n(self.tid(*x, env) as u64)); }
            ty::Array(x, c) => {
                ob.put("k", s("array")); ob.put("t", n(self.tid(*x, env) as u64));
                match c.try_to_target_usize(tcx) { Some(v) => ob.put("n", n(v)), None => ob.put("n", s(format!("{}", c))) };
            }
            ty::Tuple(ts) => { ob.put("k", s("tuple")); ob.put("ts", a(ts.iter().map(|x| n(self.tid(x, env) as u64)))); }
            ty::Closure(d, args) => {
                ob.put("k", s("closure"));
                ob.put("path", s(tcx.def_path_str(*d)));
                ob.put("upvars", a(args.as_closure().upvar_tys().iter().map(|x| n(self.tid(x, env) as u64))));
                let k = args.as_closure().kind();
                ob.put("ckind", s(format!("{:?}", k)));
                if tcx.is_mir_available(*d) {
                    let inst = Instance::new_raw(*d, args);
                    let id = self.iid(inst, env);
                    ob.put("inst", n(id as u64));
                }
            }
            ty::FnDef(d, args) => {
                ob.put("k", s("fndef"));
                let args = args.skip_binder();
                ob.put("path", s(tcx.def_path_str(*d)));
                let c = self.callee(*d, args, env);
                ob.put("callee", c);
            }
            ty::FnPtr(..) => { ob.put("k", s("fnptr")); }
            ty::Dynamic(..) => { ob.put("k", s("dyn")); }
            ty::Alias(..) => { ob.put("k", s("alias")); }
            _ => { ob.put("k", s("other")); }
        }
        ob.put("needs_drop", b(t.needs_drop(tcx, env)));
        ob.put("sized", b(t.is_sized(tcx, env)));
        ob.put("copy", b(tcx.type_is_copy_modulo_regions(env, t)));
        if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
            if l.is_sized() { ob.put("size", n(l.size.bytes())); ob.put("align", n(l.align.abi.bytes())); }
        }
        ob.done()
    }

    fn iid(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let key = (i, env);
        if let Some(x) = self.iids.get(&key) { return *x; }
        let x = self.iids.len();
        self.iids.insert(key, x);
        self.iqueue.push_back((i, env, x));
        x
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut ob = Obj::new();
        ob.put("path", s(tcx.def_path_str(did)));
        let args = tcx.erase_and_anonymize_regions(args);
        ob.put("targs", a(args.iter().map(|g| match g.kind() {
            ty::GenericArgKind::Type(x) => n(self.tid(x, env) as u64),
            ty::GenericArgKind::Const(c) => s(format!("{}", c)),
            _ => J::Null,
        })));
        if let Some(p) = tcx.trait_of_assoc(did) {
            ob.put("trait", s(tcx.def_path_str(p)));
            ob.put("method", s(tcx.item_name(did).as_str()));
        }
        ob.put("local", b(did.is_local()));
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            ob.put("unsafe", b(!sig.safety().is_safe()));
        }
        let res = if tcx.def_kind(did) == DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Fn)
            || tcx.def_kind(did) == DefKind::Ctor(rustc_hir::def::CtorOf::Variant, rustc_hir::def::CtorKind::Fn) {
            let parent = tcx.parent(did);
            let vi = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                let adt = tcx.adt_def(tcx.parent(parent));
                adt.variant_index_with_id(parent).as_u32()
            } else { 0 };
            ob.put("ctor", n(vi as u64));
            None
        } else {
            Instance::try_resolve(tcx, env, did, args).ok().flatten()
        };
        // internal iteration is followed through the trait's default bodies (which only use `next`):
        // the overrides of the standard library must agree with them
        let res = match res {
            Some(inst) if !inst.def_id().is_local() && tcx.trait_of_assoc(did).is_some()
                && matches!(tcx.def_path_str(tcx.trait_of_assoc(did).unwrap()).as_str(), "std::iter::Iterator" | "std::iter::DoubleEndedIterator")
                && matches!(tcx.item_name(did).as_str(), "fold" | "try_fold" | "for_each" | "try_for_each" | "find" | "find_map" | "position" | "all" | "any" | "count" | "last" | "nth" | "advance_by" | "rfold" | "try_rfold" | "nth_back" | "rfind" | "advance_back_by" | "by_ref" | "partition" | "max_by" | "min_by")
                && tcx.defaultness(did).has_value() => Some(Instance::new_raw(did, args)),
            None if tcx.trait_of_assoc(did).map_or(false, |t| tcx.def_path_str(t) == "std::iter::Iterator")
                && tcx.defaultness(did).has_value() && tcx.item_name(did).as_str() != "size_hint" => Some(Instance::new_raw(did, args)),
            r => r,
        };
        if let Some(inst) = res {
            let rp = tcx.def_path_str(inst.def_id());
            ob.put("rpath", s(&rp));
            ob.put("rkind", s(match inst.def { InstanceKind::Item(_) => "item".to_string(), InstanceKind::Intrinsic(_) => "intrinsic".to_string(), InstanceKind::Virtual(..) => "virtual".into(), k => format!("{:?}", k).chars().take(40).collect() }));
            ob.put("rlocal", b(inst.def_id().is_local()));
            if let InstanceKind::Item(d) = inst.def {
                let full = format!("{}", tcx.def_path_str(d));
                let local = d.is_local() && tcx.is_mir_available(d);
                if local || (expandable(&full) && tcx.is_mir_available(d)) {
                    let id = self.iid(inst, env);
                    ob.put("inst", n(id as u64));
                }
            }
        }
        ob.done()
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut ob = Obj::new();
        ob.put("c", s(format!("{}", c.const_)));
        ob.put("ty", n(self.tid(t, env) as u64));
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let cal = self.callee(*d, args, env);
            ob.put("fn", cal);
            return ob.done();
        }
        if let Some(did) = c.check_static_ptr(tcx) { ob.put("static", s(tcx.def_path_str(did))); if tcx.is_mutable_static(did) { ob.put("mutable", b(true)); } return ob.done(); }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            ob.put("uneval", s(tcx.def_path_str(u.def)));
            ob.put("uargs", a(u.args.iter().map(|g| match g.kind() { ty::GenericArgKind::Type(x) => n(self.tid(x, env) as u64), ty::GenericArgKind::Const(c) => s(format!("{}", c)), _ => J::Null })));
            if let Some(p) = u.promoted {
                ob.put("promoted", n(p.as_u32()));
                if u.def.is_local() || tcx.is_mir_available(u.def) {
                    let inst = Instance::new_raw(u.def, u.args);
                    let pid = self.promoted(inst, p, env);
                    ob.put("pbody", pid);
                }
            } else {
                // generic constants: follow their body when it is local
                let d = u.def;
                if d.is_local() && matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                    if let Ok(Some(inst)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Option<Instance<'tcx>> {
                        if tcx.trait_of_assoc(d).is_some() { None } else { Some(Instance::new_raw(d, u.args)) }
                    })) {
                        let j = self.const_body(inst, env);
                        ob.put("cbody", j);
                    }
                }
            }
        }
        if let Ok(v) = c.const_.eval(tcx, env, rustc_span::DUMMY_SP) {
            match v {
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                    let sz = i.size();
                    let bits = i.to_bits(sz);
                    ob.put("bits", s(format!("{}", bits)));
                    ob.put("size", n(sz.bytes()));
                }
                ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    match tcx.global_alloc(prov.alloc_id()) {
                        rustc_middle::mir::interpret::GlobalAlloc::Static(d) => { ob.put("static", s(tcx.def_path_str(d))); if tcx.is_mutable_static(d) { ob.put("mutable", b(true)); } }
                        rustc_middle::mir::interpret::GlobalAlloc::Memory(_) => { ob.put("mem", b(true)); }
                        _ => {}
                    }
                    ob.put("poff", n(off.bytes()));
                }
                ConstValue::ZeroSized => { ob.put("zst", b(true)); }
                ConstValue::Slice { meta, .. } => { ob.put("slen", n(meta)); }
                ConstValue::Indirect { .. } => { ob.put("indirect", b(true)); }
            }
        }
        if let mir::Const::Ty(_, cc) = c.const_ { ob.put("param", s(format!("{}", cc))); }
        ob.done()
    }

    fn promoted(&mut self, inst: Instance<'tcx>, p: Promoted, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let ps = tcx.promoted_mir(inst.def_id());
        let body = ps[p].clone();
        self.body_of(inst, body, env)
    }

    fn const_body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let body = tcx.mir_for_ctfe(inst.def_id()).clone();
        self.body_of(inst, body, env)
    }

    fn place(&mut self, p: &Place<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut v = vec![n(p.local.as_u32())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => a([s("f"), n(f.as_u32()), n(self.tid(t, env) as u64)]),
                ProjectionElem::Index(l) => a([s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => a([s("ci"), n(offset), b(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => a([s("ss"), n(from), n(to), b(from_end)]),
                ProjectionElem::Downcast(_, v) => a([s("d"), n(v.as_u32())]),
                _ => a([s("?")]),
            });
        }
        J::A(v)
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => a([s("copy"), self.place(p, env)]),
            Operand::Move(p) => a([s("move"), self.place(p, env)]),
            Operand::Constant(c) => a([s("const"), self.konst(c, env)]),
            Operand::RuntimeChecks(_) => a([s("rtcheck")]),
        }
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match rv {
            Rvalue::Use(op, _) => a([s("use"), self.operand(op, env)]),
            Rvalue::Repeat(op, c) => a([s("repeat"), self.operand(op, env), s(format!("{}", c))]),
            Rvalue::Ref(_, k, p) => a([s("ref"), s(match k { BorrowKind::Mut { .. } => "mut", _ => "shr" }), self.place(p, env)]),
            Rvalue::RawPtr(k, p) => a([s("raw"), s(match k { RawPtrKind::Mut => "mut", RawPtrKind::Const => "const", _ => "meta" }), self.place(p, env)]),
            Rvalue::Cast(k, op, t) => a([s("cast"), s(format!("{:?}", k)), self.operand(op, env), n(self.tid(*t, env) as u64)]),
            Rvalue::BinaryOp(k, ops) => a([s("bin"), s(format!("{:?}", k)), self.operand(&ops.0, env), self.operand(&ops.1, env)]),
            Rvalue::UnaryOp(k, op) => a([s("un"), s(format!("{:?}", k)), self.operand(op, env)]),
            Rvalue::Discriminant(p) => a([s("discr"), self.place(p, env)]),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(t) => a([s("array"), n(self.tid(*t, env) as u64)]),
                    AggregateKind::Tuple => a([s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, uf) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.norm(t, env);
                        a([s("adt"), n(self.tid(t, env) as u64), n(v.as_u32()), match uf { Some(f) => n(f.as_u32()), None => J::Null }])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        a([s("closure"), n(self.tid(t, env) as u64)])
                    }
                    AggregateKind::RawPtr(t, _) => a([s("rawptr"), n(self.tid(*t, env) as u64)]),
                    _ => a([s("?")]),
                };
                a([s("agg"), kk, a(ops.iter().map(|x| self.operand(x, env)))])
            }
            Rvalue::CopyForDeref(p) => a([s("use"), a([s("copy"), self.place(p, env)])]),
            Rvalue::Reborrow(_, m, p) => a([s("ref"), s(if m.is_mut() { "mut" } else { "shr" }), self.place(p, env)]),
            _ => a([s("?"), s(format!("{:?}", rv))]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u { UnwindAction::Cleanup(bb) => n(bb.as_u32()), UnwindAction::Continue => s("continue"), UnwindAction::Unreachable => s("unreachable"), UnwindAction::Terminate(_) => s("terminate") }
    }

    fn body_of(&mut self, inst: Instance<'tcx>, raw: Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let raw2 = raw.clone();
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw)) {
            Ok(x) => x,
            Err(_) => { let _ = raw2; return J::Null }
        };
        let mut ob = Obj::new();
        ob.put("argc", n(body.arg_count as u64));
        ob.put("locals", a(body.local_decls.iter().map(|l| n(self.tid(l.ty, env) as u64))));
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.push(a([n(p.local.as_u32()), s(v.name.as_str())])); } }
        }
        ob.put("names", J::A(names));
        if let Some(l) = body.spread_arg { ob.put("spread", n(l.as_u32())); }
        let local = inst.def_id().is_local();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let line = if local { span_line(tcx, x.source_info.span) } else { J::Null };
                match &x.kind {
                    StatementKind::Assign(bx) => { let (p, r) = &**bx; st.push(a([s("="), self.place(p, env), self.rvalue(r, env), line])); }
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(a([s("setd"), self.place(place, env), n(variant_index.as_u32()), line])),
                    StatementKind::StorageDead(l) => st.push(a([s("dead"), n(l.as_u32())])),
                    StatementKind::StorageLive(l) => st.push(a([s("live"), n(l.as_u32())])),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => st.push(a([s("assume"), self.operand(op, env), line])),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => st.push(a([s("cno"), self.operand(&c.src, env), self.operand(&c.dst, env), self.operand(&c.count, env), line])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = if local { span_line(tcx, t.source_info.span) } else { J::Null };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => a([s("goto"), n(target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    a([s("switch"), self.operand(discr, env), a(targets.iter().map(|(v, t)| a([s(format!("{}", v)), n(t.as_u32())]))), n(targets.otherwise().as_u32()), n(self.tid(dt, env) as u64)])
                }
                TerminatorKind::Return => a([s("return")]),
                TerminatorKind::UnwindResume => a([s("resume")]),
                TerminatorKind::UnwindTerminate(_) => a([s("abort")]),
                TerminatorKind::Unreachable => a([s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    a([s("drop"), self.place(place, env), n(self.tid(pt, env) as u64), n(target.as_u32()), self.unwind(unwind), line])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = match func {
                        Operand::Constant(c) => self.konst(c, env),
                        _ => o([("dyn", self.operand(func, env))]),
                    };
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let ats: Vec<J> = args.iter().map(|x| n(self.tid(x.node.ty(&body.local_decls, tcx), env) as u64)).collect();
                    a([s("call"), f, a(args.iter().map(|x| self.operand(&x.node, env))), self.place(destination, env), match target { Some(t) => n(t.as_u32()), None => J::Null }, self.unwind(unwind), line, J::A(ats), n(self.tid(dt, env) as u64)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg { AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::DivisionByZero(_) => "div0", AssertKind::RemainderByZero(_) => "rem0", _ => "other" };
                    a([s("assert"), self.operand(cond, env), b(*expected), s(m), n(target.as_u32()), self.unwind(unwind), line])
                }
                TerminatorKind::FalseEdge { real_target, .. } => a([s("goto"), n(real_target.as_u32())]),
                TerminatorKind::FalseUnwind { real_target, .. } => a([s("goto"), n(real_target.as_u32())]),
                k => a([s("?"), s(format!("{:?}", k))]),
            };
            blocks.push(a([J::A(st), tj, b(bb.is_cleanup)]));
        }
        ob.put("blocks", J::A(blocks));
        ob.done()
    }

    fn run(&mut self) {
        loop {
            self.drain_types();
            let Some((inst, env, id)) = self.iqueue.pop_front() else { if self.tqueue.is_empty() { break } else { continue } };
            let tcx = self.tcx;
            let mut ob = Obj::new();
            ob.put("id", n(id as u64));
            let d = inst.def_id();
            ob.put("path", s(tcx.def_path_str(d)));
            ob.put("local", b(d.is_local()));
            ob.put("closure", b(tcx.is_closure_like(d)));
            if d.is_local() { ob.put("span", span(tcx, tcx.def_span(d))); ob.put("impl", parent_impl(tcx, d)); ob.put("reachable", b(!tcx.is_closure_like(d) && vis(tcx, d.expect_local()).0)); }
            ob.put("args", a(inst.args.iter().map(|g| match g.kind() { ty::GenericArgKind::Type(x) => n(self.tid(x, env) as u64), ty::GenericArgKind::Const(c) => s(format!("{}", c)), _ => J::Null })));
            let body = tcx.instance_mir(inst.def).clone();
            let j = self.body_of(inst, body, env);
            ob.put("body", j);
            self.iout.push(ob.done());
        }
    }
}

fn span_line<'tcx>(tcx: TyCtxt<'tcx>, sp: rustc_span::Span) -> J {
    let sp = sp.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
    n(lo.line as u64)
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, top: &mut Obj) {
    let mut cx = Cx { tcx, tids: HashMap::new(), tqueue: VecDeque::new(), tout: vec![], iids: HashMap::new(), iqueue: VecDeque::new(), iout: vec![], tenv: HashMap::new() };
    let mut roots = vec![];
    for ldid in tcx.mir_keys(()).iter() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) { DefKind::Fn | DefKind::AssocFn => {} _ => continue }
        if !tcx.is_mir_available(did) { continue; }
        let env = TypingEnv::post_analysis(tcx, did);
        let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did));
        let inst = Instance::new_raw(did, args);
        let id = cx.iid(inst, env);
        let fsig = tcx.liberate_late_bound_regions(did, tcx.fn_sig(did).instantiate_identity().skip_norm_wip());
        let is_const = tcx.is_const_fn(did);
        roots.push(o([("id", n(id as u64)), ("path", s(tcx.def_path_str(did))), ("name", s(tcx.item_name(did).as_str())), ("reachable", b(vis(tcx, *ldid).0)), ("pub", b(tcx.visibility(did).is_public())),
            ("unsafe", b(!fsig.safety().is_safe())), ("const", b(is_const)), ("impl", parent_impl(tcx, did)), ("span", span(tcx, tcx.def_span(did))),
            ("inputs", a(fsig.inputs().iter().map(|t| { let t = cx.norm(*t, env); n(cx.tid(t, env) as u64) }))), ("output", { let t = cx.norm(fsig.output(), env); n(cx.tid(t, env) as u64) })]));
    }
    // what the public functions returning a constructor (`impl New`) do when it is run
    let mut ctors = vec![];
    for ldid in tcx.mir_keys(()).iter() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) { DefKind::Fn | DefKind::AssocFn => {} _ => continue }
        if !tcx.is_mir_available(did) { continue; }
        let fsig = tcx.liberate_late_bound_regions(did, tcx.fn_sig(did).instantiate_identity().skip_norm_wip());
        let ty::Alias(_, al) = fsig.output().kind() else { continue };
        let ty::Opaque { def_id } = al.kind else { continue };
        let env = TypingEnv::post_analysis(tcx, did);
        let out = cx.norm(fsig.output(), env);
        for c in tcx.item_bounds(def_id).instantiate_identity().skip_norm_wip() {
            let Some(t) = c.as_trait_clause() else { continue };
            let tr = t.skip_binder().trait_ref.def_id;
            let Some(m) = tcx.associated_items(tr).in_definition_order().find(|x| x.is_fn() && x.name().as_str() == "new") else { continue };
            let Some(ot) = tcx.associated_items(tr).in_definition_order().find(|x| x.is_type() && x.name().as_str() == "Output") else { continue };
            let made = cx.norm(Ty::new_projection(tcx, ty::IsRigid::No, ot.def_id, [out]), env);
            let args = tcx.mk_args(&[out.into()]);
            if let Some(inst) = Instance::try_resolve(tcx, env, m.def_id, args).ok().flatten() {
                let id = cx.iid(inst, env);
                let first = cx.iids[&(Instance::new_raw(did, tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did))), env)];
                ctors.push(o([("maker", n(first as u64)), ("new", n(id as u64)), ("made", n(cx.tid(made, env) as u64))]));
            }
        }
    }
    top.put("ctors", J::A(ctors));
    // what a container offers through `Deref` to another local container: the functions of the
    // target, instantiated with the arguments the outer type fixes
    for ldid in tcx.hir_crate_items(()).definitions() {
        let imp = ldid.to_def_id();
        let DefKind::Impl { of_trait: true } = tcx.def_kind(imp) else { continue };
        let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
        if Some(tr.def_id) != tcx.lang_items().deref_trait() { continue }
        let env = TypingEnv::post_analysis(tcx, imp);
        let outer = tcx.erase_and_anonymize_regions(tr.self_ty());
        let Some(target) = tcx.associated_items(imp).in_definition_order().find(|x| x.is_type()) else { continue };
        let tt = tcx.erase_and_anonymize_regions(cx.norm(tcx.type_of(target.def_id).instantiate_identity().skip_norm_wip(), env));
        let ty::Adt(def, targs) = tt.kind() else { continue };
        if !def.did().is_local() { continue }
        let outer_id = cx.tid(outer, env);
        for fl in tcx.mir_keys(()).iter() {
            let did = fl.to_def_id();
            match tcx.def_kind(did) { DefKind::AssocFn => {} _ => continue }
            if !tcx.is_mir_available(did) { continue }
            let Some(im) = tcx.opt_parent(did) else { continue };
            let DefKind::Impl { .. } = tcx.def_kind(im) else { continue };
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let ty::Adt(d2, iargs) = st.kind() else { continue };
            if d2.did() != def.did() { continue }
            let fsig = tcx.liberate_late_bound_regions(did, tcx.fn_sig(did).instantiate_identity().skip_norm_wip());
            // only functions that take the target by reference
            let Some(first) = fsig.inputs().first() else { continue };
            let ty::Ref(_, inner, _) = first.kind() else { continue };
            if *inner != st { continue }
            if tcx.generics_of(did).own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue }
            // impl parameter -> argument
            let mut ok = true;
            let args = ty::GenericArgs::for_item(tcx, did, |p, _| {
                if let ty::GenericParamDefKind::Lifetime = p.kind { return tcx.lifetimes.re_erased.into(); }
                for (k, x) in iargs.iter().enumerate() {
                    let hit = match x.kind() {
                        ty::GenericArgKind::Type(t) => matches!(t.kind(), ty::Param(q) if q.index == p.index),
                        ty::GenericArgKind::Const(c) => matches!(c.kind(), ty::ConstKind::Param(q) if q.index == p.index),
                        _ => false,
                    };
                    if hit { return targs[k]; }
                }
                ok = false;
                tcx.types.unit.into()
            });
            if !ok { continue }
            // impls for specialised arguments that the target does not have
            let mine = st;
            let subst = EarlyBinder::bind(tcx, mine).instantiate(tcx, args).skip_norm_wip();
            if tcx.erase_and_anonymize_regions(subst) != tt { continue }
            let mut holds = true;
            for c in tcx.param_env(im).caller_bounds() {
                let c = EarlyBinder::bind(tcx, c).instantiate(tcx, args).skip_norm_wip();
                if let Some(t) = c.as_trait_clause() {
                    let t = tcx.erase_and_anonymize_regions(t.skip_binder().trait_ref);
                    if Some(t.def_id) == tcx.lang_items().sized_trait() { continue }
                    holds &= crate::items::implements_ref(tcx, env.param_env, t);
                }
            }
            if !holds { continue }
            let inst = Instance::new_raw(did, args);
            let id = cx.iid(inst, env);
            let sub = |t: Ty<'tcx>| EarlyBinder::bind(tcx, t).instantiate(tcx, args).skip_norm_wip();
            roots.push(o([("id", n(id as u64)), ("path", s(format!("{} via {}", tcx.def_path_str(did), tcx.def_path_str(match outer.kind() { ty::Adt(x, _) => x.did(), _ => imp })))), ("name", s(tcx.item_name(did).as_str())), ("reachable", b(vis(tcx, *fl).0)), ("pub", b(tcx.visibility(did).is_public())),
                ("unsafe", b(!fsig.safety().is_safe())), ("const", b(tcx.is_const_fn(did))), ("impl", parent_impl(tcx, did)), ("span", span(tcx, tcx.def_span(did))), ("outer", n(outer_id as u64)),
                ("inputs", a(fsig.inputs().iter().map(|t| { let t = cx.norm(sub(*t), env); n(cx.tid(t, env) as u64) }))), ("output", { let t = cx.norm(sub(fsig.output()), env); n(cx.tid(t, env) as u64) })]));
        }
    }
    cx.run();
    top.put("roots", J::A(roots));
    let mut tv = cx.tout; tv.sort_by_key(|x| x.0);
    top.put("types", a(tv.into_iter().map(|x| x.1)));
    top.put("insts", J::A(cx.iout));
}
