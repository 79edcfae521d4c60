use crate::json::{i, s, J};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv, ShimKind};
use rustc_span::Span;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyids: FxHashMap<Ty<'tcx>, usize>,
    seen: FxHashMap<String, ()>,
    queue: Vec<(String, Todo<'tcx>)>,
    bodies: Vec<J>,
    adts: FxHashMap<DefId, ()>,
    adt_out: Vec<J>,
}

enum Todo<'tcx> {
    Inst(Instance<'tcx>, TypingEnv<'tcx>, DefId),
    Const(DefId, ty::GenericArgsRef<'tcx>, TypingEnv<'tcx>, DefId),
    Promoted(DefId, ty::GenericArgsRef<'tcx>, mir::Promoted, TypingEnv<'tcx>, DefId),
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String { with_no_trimmed_paths!(tcx.def_path_str(d)) }
fn dpath(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn allowed(p: &str) -> bool {
    const OK: &[&str] = &[
        "core::option::", "core::result::", "core::ops::control_flow::", "core::ops::try_trait::",
        "core::ops::function::", "core::ops::deref::", "core::convert::", "core::cmp::", "core::clone::",
        "core::bool::", "core::borrow::", "core::tuple::", "core::default::", "alloc::borrow::",
        "serde::de::", "serde::ser::", "serde_core::de::", "serde_core::ser::", "serde::private::", "serde_core::private::",
    ];
    const NO: &[&str] = &["serde_core::de::impls", "serde_core::ser::impls", "serde_core::ser::fmt",
        "core::result::unwrap_failed", "core::option::unwrap_failed", "core::option::expect_failed", "core::cmp::impls::"];
    OK.iter().any(|o| p.starts_with(o)) && !NO.iter().any(|o| p.starts_with(o))
        || p.starts_with("core::cmp::impls::") && false
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        s(format!("{}:{}", name, lo.line))
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adts.insert(def.did(), ()).is_some() { return; }
        let tcx = self.tcx;
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let disc = if def.is_enum() { i(def.discriminant_for_variant(tcx, vi).val) } else { J::N };
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("disc", disc),
                ("fields", J::A(v.fields.iter().map(|f| s(f.name.to_string())).collect())),
                ("vis", J::A(v.fields.iter().map(|f| J::B(f.vis.is_public())).collect())),
            ]));
        }
        let mut idtys = vec![];
        if def.did().is_local() {
            for v in def.variants().iter() {
                let mut fs = vec![];
                for f in v.fields.iter() { let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); fs.push(i(self.ty(t))); }
                idtys.push(J::A(fs));
            }
        }
        let dr = tcx.adt_destructor(def.did()).map(|d| s(path(tcx, d.did))).unwrap_or(J::N);
        let mut auto = vec![];
        let mut frz = J::N;
        if def.did().is_local() {
            let t = tcx.type_of(def.did()).instantiate_identity().skip_norm_wip();
            let te = TypingEnv::non_body_analysis(tcx, def.did());
            frz = J::B(t.is_freeze(tcx, te));
            for (n, sym) in [("Send", rustc_span::sym::Send), ("Sync", rustc_span::sym::Sync)] {
                let tr = tcx.get_diagnostic_item(sym).or_else(|| if n == "Sync" { tcx.lang_items().sync_trait() } else { None });
                if let Some(tr) = tr {
                    use rustc_trait_selection::infer::InferCtxtExt;
                    use rustc_infer::infer::TyCtxtInferExt;
                    let (icx, pe) = tcx.infer_ctxt().build_with_typing_env(te);
                    auto.push(J::A(vec![s(n), J::B(icx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions())]));
                }
            }
        }
        let j = J::O(vec![
            ("path", s(path(tcx, def.did()))),
            ("enum", J::B(def.is_enum())),
            ("local", J::B(def.did().is_local())),
            ("variants", J::A(vs)),
            ("field_tys", J::A(idtys)),
            ("drop", dr), ("auto", J::A(auto)), ("freeze", frz),
        ]);
        self.adt_out.push(j);
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(k) = self.tyids.get(&t) { return *k; }
        let id = self.types.len();
        self.types.push(J::N);
        self.tyids.insert(t, id);
        let tcx = self.tcx;
        let str_ = with_no_trimmed_paths!(format!("{}", t));
        let mut o = vec![("s", s(str_))];
        use rustc_type_ir::TyKind::*;
        match t.kind() {
            Bool => o.push(("k", s("bool"))),
            Char => o.push(("k", s("char"))),
            Int(_) | Uint(_) | Float(_) => { o.push(("k", s(match t.kind() { Int(_) => "int", Uint(_) => "uint", _ => "float" }))); }
            Adt(d, args) => {
                self.adt(*d);
                o.push(("k", s("adt")));
                o.push(("adt", s(path(tcx, d.did()))));
                let a: Vec<_> = args.types().collect();
                let a = a.into_iter().map(|x| i(self.ty(x))).collect();
                o.push(("args", J::A(a)));
            }
            Str => o.push(("k", s("str"))),
            Array(e, n) => {
                let e = self.ty(*e);
                o.push(("k", s("array"))); o.push(("of", i(e)));
                o.push(("n", n.try_to_target_usize(tcx).map(|x| i(x)).unwrap_or(J::N)));
            }
            Slice(e) => { let e = self.ty(*e); o.push(("k", s("slice"))); o.push(("of", i(e))); }
            RawPtr(e, m) => { let e = self.ty(*e); o.push(("k", s("ptr"))); o.push(("of", i(e))); o.push(("mut", J::B(m.is_mut()))); }
            Ref(_, e, m) => { let e = self.ty(*e); o.push(("k", s("ref"))); o.push(("of", i(e))); o.push(("mut", J::B(m.is_mut()))); }
            FnDef(d, args) => {
                o.push(("k", s("fndef"))); o.push(("path", s(path(tcx, *d))));
                let a: Vec<_> = args.skip_binder().types().collect();
                let a = a.into_iter().map(|x| i(self.ty(x))).collect();
                o.push(("args", J::A(a)));
            }
            FnPtr(..) => o.push(("k", s("fnptr"))),
            Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal() { o.push(("trait", s(path(tcx, p.def_id())))); }
            }
            Closure(d, args) => {
                o.push(("k", s("closure"))); o.push(("path", s(path(tcx, *d))));
                let kind = args.as_closure().kind_ty().to_opt_closure_kind();
                o.push(("ck", s(format!("{:?}", kind))));
                let ups: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let ups = ups.into_iter().map(|x| i(self.ty(x))).collect();
                o.push(("ups", J::A(ups)));
            }
            Never => o.push(("k", s("never"))),
            Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a = ts.iter().map(|x| i(self.ty(x))).collect();
                o.push(("args", J::A(a)));
            }
            Param(_) => o.push(("k", s("param"))),
            Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }

    fn key(&self, d: DefId, args: ty::GenericArgsRef<'tcx>, root: DefId, extra: &str) -> String {
        use rustc_middle::ty::TypeVisitableExt;
        let p = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, args));
        let dp = dpath(self.tcx, d);
        if args.has_param() || dp.contains("{closure") {
            format!("{}|{}@{}{}", dp, p, dpath(self.tcx, root), extra)
        } else { format!("{}|{}{}", dp, p, extra) }
    }

    fn want(&mut self, key: &str, todo: Todo<'tcx>) {
        if self.seen.insert(key.to_string(), ()).is_none() { self.queue.push((key.to_string(), todo)); }
    }

    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, te: TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let mut o = vec![("decl", s(path(tcx, d))), ("ddecl", s(dpath(tcx, d)))];
        let tys: Vec<_> = args.types().collect();
        let a = tys.into_iter().map(|x| i(self.ty(x))).collect();
        o.push(("args", J::A(a)));
        if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("trait", s(path(tcx, tr)))); }
        o.push(("track", J::B(tcx.should_inherit_track_caller(d) || tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER))));
        match tcx.def_kind(d) {
            DefKind::Ctor(of, _) => {
                let v = match of {
                    rustc_hir::def::CtorOf::Variant => tcx.parent(d),
                    rustc_hir::def::CtorOf::Struct => tcx.parent(d),
                };
                let (adt, idx) = match of {
                    rustc_hir::def::CtorOf::Variant => { let e = tcx.parent(v); let ad = tcx.adt_def(e); (e, ad.variant_index_with_id(v).as_usize()) }
                    rustc_hir::def::CtorOf::Struct => (v, 0),
                };
                self.adt(tcx.adt_def(adt));
                o.push(("ctor", s(path(tcx, adt)))); o.push(("variant", i(idx)));
                return J::O(o);
            }
            _ => {}
        }
        match Instance::try_resolve(tcx, te, d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                o.push(("res", s(path(tcx, rd))));
                o.push(("dres", s(dpath(tcx, rd))));
                o.push(("local", J::B(rd.is_local())));
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
                    InstanceKind::Shim(ShimKind::ClosureOnce{..}) => "closure_once",
                    InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
                    InstanceKind::Shim(_) => "shim",
                };
                o.push(("kind", s(kind)));
                let dp = dpath(tcx, rd);
                let want = match inst.def {
                    InstanceKind::Item(x) => x.is_local() || (allowed(&dp) && tcx.is_mir_available(x)),
                    _ => false,
                };
                if want {
                    let k = self.key(rd, inst.args, root, "");
                    self.want(&k, Todo::Inst(inst, te, root));
                    o.push(("key", s(k)));
                }
                if tcx.is_closure_like(rd) { o.push(("closure", J::B(true))); }
            }
            Ok(None) => {
                o.push(("kind", s("unresolved")));
                // a provided method of a local/allowed trait whose body we can look at
            }
            Err(_) => o.push(("kind", s("error"))),
        }
        J::O(o)
    }

    fn closure_key(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, te: TypingEnv<'tcx>, root: DefId) -> J {
        if !(d.is_local() || allowed(&dpath(self.tcx, d))) || !self.tcx.is_mir_available(d) { return J::N; }
        let inst = Instance::new_raw(d, args);
        let k = self.key(d, args, root, "");
        self.want(&k, Todo::Inst(inst, te, root));
        s(k)
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, te: TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tid = self.ty(t);
        let mut o = vec![("ty", i(tid))];
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fndef(*d, args.skip_binder(), te, root);
            o.push(("fn", f));
            return J::O(o);
        }
        match c {
            mir::Const::Val(v, _) => self.cval(*v, t, &mut o),
            mir::Const::Unevaluated(uv, _) => {
                if let Some(p) = uv.promoted {
                    let k = self.key(uv.def, uv.args, root, &format!("::promoted[{}]", p.as_usize()));
                    self.want(&k, Todo::Promoted(uv.def, uv.args, p, te, root));
                    o.push(("const", s(k)));
                } else {
                    o.push(("cname", s(path(tcx, uv.def))));
                    let tys: Vec<_> = uv.args.types().collect();
                    let a = tys.into_iter().map(|x| i(self.ty(x))).collect();
                    o.push(("cargs", J::A(a)));
                    let r = if tcx.trait_of_assoc(uv.def).is_some() { Instance::try_resolve(tcx, te, uv.def, uv.args).ok().flatten() } else { Some(Instance::new_raw(uv.def, uv.args)) };
                    if let Some(inst) = r {
                        let rd = inst.def_id();
                        o.push(("cres", s(path(tcx, rd))));
                        if rd.is_local() && tcx.is_mir_available(rd) {
                            let k = self.key(rd, inst.args, root, "::const");
                            self.want(&k, Todo::Const(rd, inst.args, te, root));
                            o.push(("const", s(k)));
                        } else {
                            if let Ok(v) = tcx.const_eval_resolve(te, *uv, rustc_span::DUMMY_SP) { self.cval(v, t, &mut o); }
                        }
                    }
                }
            }
            mir::Const::Ty(_, ct) => {
                match ct.try_to_target_usize(tcx) {
                    Some(v) => o.push(("int", i(v))),
                    None => o.push(("param", s(with_no_trimmed_paths!(format!("{}", ct))))),
                }
            }
        }
        J::O(o)
    }

    fn cval(&mut self, v: mir::ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            mir::ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(x)) => {
                match t.kind() {
                    ty::Int(_) => o.push(("int", i(x.to_int(x.size())))),
                    ty::Float(f) => {
                        let b = x.to_uint(x.size());
                        let v = match f { ty::FloatTy::F32 => format!("{:?}", f32::from_bits(b as u32)), _ => format!("{:?}", f64::from_bits(b as u64)) };
                        o.push(("float", s(v)));
                    }
                    _ => o.push(("int", i(x.to_uint(x.size())))),
                }
            }
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, _off) = p.prov_and_relative_offset();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(mir::interpret::GlobalAlloc::Static(d)) => o.push(("static", s(path(tcx, d)))),
                    Some(mir::interpret::GlobalAlloc::Memory(m)) => {
                        let a = m.inner();
                        if a.provenance().ptrs().is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            o.push(("bytes", J::A(b.iter().map(|x| i(x)).collect())));
                        } else { o.push(("opaque", J::B(true))); }
                    }
                    _ => o.push(("opaque", J::B(true))),
                }
            }
            mir::ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    match (std::str::from_utf8(b), t.builtin_deref(true).map(|x| x.is_str()).unwrap_or(false)) {
                        (Ok(x), true) => o.push(("str", s(x))),
                        _ => o.push(("bytes", J::A(b.iter().map(|x| i(x)).collect()))),
                    }
                }
            }
            _ => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        let tid = self.ty(*ft);
                        let mut oo = vec![("ty", i(tid))];
                        self.cval(*fv, *ft, &mut oo);
                        fs.push(J::O(oo));
                    }
                    o.push(("variant", d.variant.map(|x| i(x.as_usize())).unwrap_or(J::N)));
                    o.push(("fields", J::A(fs)));
                } else { o.push(("opaque", J::B(true))); }
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        if p.projection.is_empty() { return i(p.local.as_usize()); }
        let mut v = vec![i(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => { let tid = self.ty(t); J::A(vec![s("f"), i(f.as_usize()), i(tid)]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("ci"), i(offset), i(min_length), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), i(from), i(to), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("d"), i(vi.as_usize())]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(v)
    }

    fn op(&mut self, o: &Operand<'tcx>, te: TypingEnv<'tcx>, root: DefId) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p); J::A(vec![s("c"), p]) }
            Operand::Move(p) => { let p = self.place(p); J::A(vec![s("m"), p]) }
            Operand::Constant(c) => { let c = self.constant(&c.const_, te, root); J::A(vec![s("k"), c]) }
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }

    fn body(&mut self, key: &str, kind: &str, d: DefId, body: &mir::Body<'tcx>, te: TypingEnv<'tcx>, root: DefId) {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in body.local_decls.iter() { let t = self.ty(l.ty); locals.push(i(t)); }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p);
                names.push(J::A(vec![s(v.name.to_string()), pj]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        let pj = self.place(p);
                        let rj = self.rv(rv, body, te, root);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), pj, rj, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(J::A(vec![s("sd"), pj, i(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_usize())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dj = self.op(discr, te, root);
                    let dt = self.ty(discr.ty(body, tcx));
                    let ts = targets.iter().map(|(v, b)| J::A(vec![s(v.to_string()), i(b.as_usize())])).collect();
                    J::A(vec![s("switch"), dj, J::A(ts), i(targets.otherwise().as_usize()), i(dt)])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pj = self.place(place);
                    let t = self.ty(place.ty(body, tcx).ty);
                    let u = match unwind { mir::UnwindAction::Cleanup(b) => i(b.as_usize()), _ => J::N };
                    J::A(vec![s("drop"), pj, i(target.as_usize()), i(t), u])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.op(func, te, root);
                    let mut a = vec![];
                    for x in args.iter() { a.push(self.op(&x.node, te, root)); }
                    let mut at = vec![];
                    for x in args.iter() { at.push(i(self.ty(x.node.ty(body, tcx)))); }
                    let dj = self.place(destination);
                    let u = match unwind { mir::UnwindAction::Cleanup(b) => i(b.as_usize()), _ => J::N };
                    let rt = self.ty(destination.ty(body, tcx).ty);
                    J::A(vec![s("call"), f, J::A(a), dj, target.map(|x| i(x.as_usize())).unwrap_or(J::N), u, sp, i(rt), J::A(at)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, te, root);
                    let m = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        mir::AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        mir::AssertKind::DivisionByZero(_) | mir::AssertKind::RemainderByZero(_) => "div0".into(),
                        _ => "other".into(),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(m), i(target.as_usize()), sp])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                _ => J::A(vec![s("unsupported")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let track = kind == "fn" && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER);
        let sp = self.span(tcx.def_span(d));
        self.bodies.push(J::O(vec![
            ("key", s(key)), ("kind", s(kind)), ("path", s(path(tcx, d))), ("dpath", s(dpath(tcx, d))),
            ("local", J::B(d.is_local())), ("root", s(dpath(tcx, root))), ("span", sp), ("track", J::B(track)),
            ("closure", J::B(tcx.is_closure_like(d))),
            ("argc", i(body.arg_count)),
            ("spread", body.spread_arg.map(|l| i(l.as_usize())).unwrap_or(J::N)),
            ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)),
        ]));
    }

    fn rv(&mut self, r: &Rvalue<'tcx>, body: &mir::Body<'tcx>, te: TypingEnv<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => { let o = self.op(o, te, root); J::A(vec![s("use"), o]) }
            Rvalue::Repeat(o, n) => {
                let o = self.op(o, te, root);
                J::A(vec![s("repeat"), o, n.try_to_target_usize(tcx).map(|x| i(x)).unwrap_or(J::N)])
            }
            Rvalue::Ref(_, bk, p) => {
                let t = self.ty(p.ty(body, tcx).ty);
                let p = self.place(p);
                J::A(vec![s("ref"), p, J::B(matches!(bk, mir::BorrowKind::Mut { .. })), i(t)])
            }
            Rvalue::RawPtr(_, p) => { let t = self.ty(p.ty(body, tcx).ty); let p = self.place(p); J::A(vec![s("ref"), p, J::B(true), i(t)]) }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("c"), p])]) }
            Rvalue::Cast(k, o, t) => {
                let from = self.ty(o.ty(body, tcx));
                let o = self.op(o, te, root);
                let to = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, i(from), i(to)])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = self.ty(b.0.ty(body, tcx));
                let a = self.op(&b.0, te, root);
                let c = self.op(&b.1, te, root);
                J::A(vec![s("bin"), s(format!("{:?}", op)), a, c, i(t)])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = self.ty(a.ty(body, tcx));
                let a = self.op(a, te, root);
                J::A(vec![s("un"), s(format!("{:?}", op)), a, i(t)])
            }
            Rvalue::Discriminant(p) => { let t = self.ty(p.ty(body, tcx).ty); let p = self.place(p); J::A(vec![s("discr"), p, i(t)]) }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops.iter() { v.push(self.op(o, te, root)); }
                match &**k {
                    mir::AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), J::A(v)]),
                    mir::AggregateKind::Array(_) => J::A(vec![s("agg"), s("array"), J::A(v)]),
                    mir::AggregateKind::Adt(d, vi, _, _, _) => {
                        self.adt(tcx.adt_def(*d));
                        let t = self.ty(r.ty(body, tcx));
                        J::A(vec![s("agg"), s("adt"), J::A(v), s(path(tcx, *d)), i(vi.as_usize()), i(t)])
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let k = self.closure_key(*d, args, te, root);
                        let t = self.ty(r.ty(body, tcx));
                        J::A(vec![s("agg"), s("closure"), J::A(v), k, s(dpath(tcx, *d)), i(t)])
                    }
                    _ => J::A(vec![s("agg"), s("other"), J::A(v)]),
                }
            }
            _ => J::A(vec![s("unknown"), s(format!("{:?}", r))]),
        }
    }
}

struct Unsafe<'tcx> { tcx: TyCtxt<'tcx>, found: Vec<rustc_span::Span> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.in_external_macro(self.tcx.sess.source_map()) { self.found.push(b.span); }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx { tcx, types: vec![], tyids: Default::default(), seen: Default::default(), queue: vec![], bodies: vec![], adts: Default::default(), adt_out: vec![] };
    let mut items = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let mut statics = vec![];
    let mut consts = vec![];
    let ev = tcx.effective_visibilities(());
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let has_body = tcx.is_mir_available(d);
                let args = ty::GenericArgs::identity_for_item(tcx, d);
                let te = TypingEnv::post_analysis(tcx, d);
                let mut key = J::N;
                if has_body {
                    let inst = Instance::new_raw(d, args);
                    let k = cx.key(d, args, d, "");
                    cx.want(&k, Todo::Inst(inst, te, d));
                    key = s(k);
                }
                let (mut tr, mut st) = (J::N, J::N);
                let parent = tcx.parent(d);
                let mut of_trait = false;
                if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                    let t = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    st = i(cx.ty(t));
                    if let Some(x) = tcx.impl_opt_trait_ref(parent) {
                        tr = s(with_no_trimmed_paths!(format!("{}", x.instantiate_identity().skip_norm_wip().print_only_trait_path())));
                        of_trait = true;
                    }
                } else if matches!(tcx.def_kind(parent), DefKind::Trait { .. }) { tr = s(path(tcx, parent)); }
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                let sig = tcx.liberate_late_bound_regions(d, sig);
                let ins: Vec<_> = sig.inputs().iter().cloned().collect();
                let ins = ins.into_iter().map(|t| i(cx.ty(t))).collect();
                let out = cx.ty(sig.output());
                let track = tcx.codegen_fn_attrs(d).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER);
                let sp = cx.span(tcx.def_span(d));
                items.push(J::O(vec![
                    ("path", s(path(tcx, d))), ("dpath", s(dpath(tcx, d))), ("name", s(tcx.item_name(d).to_string())),
                    ("key", key), ("trait", tr), ("impl_trait", J::B(of_trait)), ("self", st), ("track", J::B(track)),
                    ("pub", J::B(ev.is_reachable(ld))), ("inputs", J::A(ins)), ("output", i(out)), ("span", sp),
                ]));
            }
            k if matches!(k.descr(d), "associated constant") => {
                if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
                let parent = tcx.parent(d);
                let (mut tr, mut st) = (J::N, J::N);
                if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                    st = i(cx.ty(tcx.type_of(parent).instantiate_identity().skip_norm_wip()));
                    if let Some(x) = tcx.impl_opt_trait_ref(parent) { tr = s(path(tcx, x.skip_binder().def_id)); }
                }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t);
                let mut o = vec![("path", s(path(tcx, d))), ("name", s(tcx.item_name(d).to_string())), ("trait", tr), ("self", st), ("ty", i(tid)), ("span", cx.span(tcx.def_span(d)))];
                if t.is_scalar() || t.builtin_deref(true).map(|x| x.is_str()).unwrap_or(false) { if let Ok(v) = tcx.const_eval_poly(d) { cx.cval(v, t, &mut o); } }
                consts.push(J::O(o));
            }
            DefKind::Static { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let frz = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                let t = cx.ty(t);
                let init = match tcx.eval_static_initializer(d) {
                    Ok(a) => {
                        let a = a.inner();
                        if a.provenance().ptrs().is_empty() {
                            J::A(a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len()).iter().map(|b| i(*b)).collect())
                        } else { J::N }
                    }
                    Err(_) => J::N,
                };
                statics.push(J::O(vec![("init", init), ("path", s(path(tcx, d))), ("ty", i(t)), ("freeze", J::B(frz)), ("mut", J::B(tcx.is_mutable_static(d)))]));
            }
            DefKind::Struct | DefKind::Enum => cx.adt(tcx.adt_def(d)),
            DefKind::Trait { .. } => {
                let ms = tcx.associated_items(d).in_definition_order()
                    .filter(|a| a.is_fn())
                    .map(|a| J::A(vec![s(a.name().to_string()), J::B(a.defaultness(tcx).has_value())])).collect();
                traits.push(J::O(vec![("path", s(path(tcx, d))), ("methods", J::A(ms))]));
            }
            DefKind::Impl { of_trait } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t);
                let (mut tr, mut trp) = (J::N, J::N);
                let mut required = vec![];
                if of_trait {
                    let x = tcx.impl_opt_trait_ref(d).unwrap().instantiate_identity().skip_norm_wip();
                    tr = s(path(tcx, x.def_id));
                    trp = s(with_no_trimmed_paths!(format!("{}", x.print_only_trait_path())));
                    for a in tcx.associated_items(x.def_id).in_definition_order().filter(|a| a.is_fn()) {
                        required.push(J::A(vec![s(a.name().to_string()), J::B(a.defaultness(tcx).has_value())]));
                    }
                }
                let ms = tcx.associated_items(d).in_definition_order().filter(|a| a.is_fn())
                    .map(|a| J::A(vec![s(a.name().to_string()), s(dpath(tcx, a.def_id))])).collect();
                let derived = tcx.is_automatically_derived(d);
                impls.push(J::O(vec![("trait", tr), ("trait_full", trp), ("self", i(tid)), ("methods", J::A(ms)), ("trait_methods", J::A(required)),
                    ("dpath", s(dpath(tcx, d))), ("derived", J::B(derived)), ("span", cx.span(tcx.def_span(d)))]));
            }
            _ => {}
        }
    }
    let mut unsafes = vec![];
    for o in tcx.hir_body_owners() {
        use rustc_hir::intravisit::Visitor;
        let mut u = Unsafe { tcx, found: vec![] };
        u.visit_body(tcx.hir_body_owned_by(o));
        for sp in u.found {
            let sp = cx.span(sp);
            unsafes.push(J::O(vec![("dpath", s(dpath(tcx, o.to_def_id()))), ("span", sp)]));
        }
    }
    while let Some((key, todo)) = cx.queue.pop() {
        match todo {
            Todo::Inst(inst, te, root) => {
                let d = inst.def_id();
                let b = tcx.instance_mir(inst.def).clone();
                match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, b.clone())) {
                    Ok(b) => cx.body(&key, "fn", d, &b, te, root),
                    Err(_) => cx.body(&key, "fn", d, &b, te, root),
                }
            }
            Todo::Const(d, args, te, root) => {
                let b = tcx.mir_for_ctfe(d).clone();
                let inst = Instance::new_raw(d, args);
                if let Ok(b) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, b)) {
                    cx.body(&key, "const", d, &b, te, root);
                }
            }
            Todo::Promoted(d, args, p, te, root) => {
                let b = tcx.promoted_mir(d)[p].clone();
                let inst = Instance::new_raw(d, args);
                if let Ok(b) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, b)) {
                    cx.body(&key, "promoted", d, &b, te, root);
                }
            }
        }
    }
    let _ = LOCAL_CRATE;
    let n = cx.bodies.len();
    eprintln!("figfacts: {} bodies, {} types", n, cx.types.len());
    let out = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("types", J::A(cx.types)), ("adts", J::A(cx.adt_out)), ("items", J::A(items)), ("impls", J::A(impls)),
        ("traits", J::A(traits)), ("statics", J::A(statics)), ("unsafe", J::A(unsafes)), ("consts", J::A(consts)), ("bodies", J::A(cx.bodies)),
    ]);
    let mut o = String::new();
    out.write(&mut o);
    o
}
