//! Dumps the resolved MIR reachable from the local crate as JSON.
use crate::json::{n, s, J};
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, String, Option<Promoted>)>,
    seen: HashSet<String>,
    stop: Vec<String>,
    stop_crates: Vec<String>,
}

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

/// crate-qualified definition path without any generics, e.g. core::option::{impl#0}::map
fn raw_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let dp = tcx.def_path(d);
    let mut r = tcx.crate_name(d.krate).to_string();
    for c in dp.data.iter() {
        r.push_str("::");
        r.push_str(&c.as_sym(true).to_string());
    }
    r
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let rd = |v: &str| -> Vec<String> {
        std::env::var(v)
            .unwrap_or_default()
            .split(';')
            .filter(|x| !x.is_empty())
            .map(|x| x.to_string())
            .collect()
    };
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: vec![],
        tyidx: HashMap::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        stop: rd("MIRDUMP_STOP"),
        stop_crates: rd("MIRDUMP_STOP_CRATES"),
    };
    let mut roots = vec![];
    for ld in tcx.mir_keys(()).iter().copied() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {}
            _ => continue,
        }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let generic = tcx.generics_of(d).requires_monomorphization(tcx);
        let env = if generic { TypingEnv::codegen(tcx, d) } else { TypingEnv::fully_monomorphized() };
        let args = if generic { args } else { tcx.erase_and_anonymize_regions(args) };
        let inst = Instance { def: InstanceKind::Item(d), args };
        let key = cx.enqueue(inst, env);
        let mut o = vec![
            ("key", s(key)),
            ("path", s(path_of(tcx, d))),
            ("raw", s(raw_path(tcx, d))),
            ("generic", J::Bool(generic)),
            ("name", s(tcx.item_name(d).to_string())),
            ("vis", s(format!("{:?}", tcx.visibility(d)))),
            ("file", cx.span(tcx.def_span(d))),
            ("exported", J::Bool(tcx.effective_visibilities(()).is_exported(ld))),
            ("async", J::Bool(tcx.asyncness(d).is_async())),
        ];
        if let Some(imp) = tcx.impl_of_assoc(d) {
            o.push(("self_ty", s(with_no_trimmed_paths!(tcx.type_of(imp).instantiate_identity().skip_norm_wip().to_string()))));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(path_of(tcx, tr.def_id))));
                o.push(("trait_ref", s(with_no_trimmed_paths!(tr.to_string()))));
            }
        }
        cx.env = env;
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let ins: Vec<J> = sig.inputs().iter().map(|t| { let t = cx.norm(*t); n(cx.ty(t) as i64) }).collect();
        let out = { let t = cx.norm(sig.output()); cx.ty(t) };
        o.push(("inputs", J::Arr(ins)));
        o.push(("output", n(out as i64)));
        roots.push(J::Obj(o));
    }
    // local ADTs, impls, constants
    let mut adts = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).free_items() {
        let d = id.owner_id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                cx.env = TypingEnv::codegen(tcx, d);
                let i = cx.ty(t);
                let ev = tcx.effective_visibilities(());
                let mut fields = vec![];
                if let Some(ad) = t.ty_adt_def() {
                    for v in ad.variants() {
                        for f in v.fields.iter() {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            fields.push(J::Obj(vec![
                                ("name", s(format!("{}.{}", v.name, f.name))),
                                ("ty", s(with_no_trimmed_paths!(ft.to_string()))),
                                ("exported", J::Bool(f.did.as_local().map_or(false, |l| ev.is_exported(l)))),
                            ]));
                        }
                    }
                }
                adts.push(J::Obj(vec![
                    ("path", s(path_of(tcx, d))),
                    ("ty", n(i as i64)),
                    ("vis", s(format!("{:?}", tcx.visibility(d)))),
                    ("exported", J::Bool(ev.is_exported(id.owner_id.def_id))),
                    ("fields", J::Arr(fields)),
                    ("eff_vis", J::Bool(tcx.effective_visibilities(()).is_reachable(id.owner_id.def_id))),
                    ("file", cx.span(tcx.def_span(d))),
                ]));
            }
            DefKind::Impl { .. } => {
                let st = with_no_trimmed_paths!(tcx.type_of(d).instantiate_identity().skip_norm_wip().to_string());
                let tr = tcx.impl_opt_trait_ref(d).map(|t| path_of(tcx, t.instantiate_identity().skip_norm_wip().def_id));
                impls.push(J::Obj(vec![
                    ("self_ty", s(st)),
                    ("trait", tr.map(s).unwrap_or(J::Null)),
                    ("file", cx.span(tcx.def_span(d))),
                ]));
            }
            _ => {}
        }
    }
    let mut bodies: Vec<(String, J)> = vec![];
    while let Some((inst, env, key, prom)) = cx.queue.pop_front() {
        cx.env = env;
        let b = cx.body(inst, prom);
        if let Some(b) = b {
            bodies.push((key, b));
        }
    }
    J::Obj(vec![
        ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
        ("roots", J::Arr(roots)),
        ("adts", J::Arr(adts)),
        ("impls", J::Arr(impls)),
        ("types", J::Arr(cx.types)),
        ("bodies", J::Map(bodies)),
    ])
}

impl<'tcx> Cx<'tcx> {
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => {
                r.local_path().map(|p| p.to_string_lossy().to_string()).unwrap_or_default()
            }
            _ => String::new(),
        };
        s(format!("{}:{}", f, loc.line))
    }

    fn key(&self, inst: Instance<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{:?}|{}|{:?}", kind_tag(&inst.def), raw_path(self.tcx, inst.def_id()), inst.args))
    }

    fn enqueue(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let k = self.key(inst);
        if self.seen.insert(k.clone()) {
            self.queue.push_back((inst, env, k.clone(), None));
        }
        k
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tyidx.insert(t, i);
        let st = with_no_trimmed_paths!(t.to_string());
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(it) => {
                o.push(("k", s("int")));
                o.push(("bits", n(it.bit_width().unwrap_or(64))));
                o.push(("signed", J::Bool(true)));
            }
            ty::Uint(it) => {
                o.push(("k", s("int")));
                o.push(("bits", n(it.bit_width().unwrap_or(64))));
                o.push(("signed", J::Bool(false)));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Array(e, l) => {
                o.push(("k", s("array")));
                let e = self.norm(*e);
                o.push(("elem", n(self.ty(e) as i64)));
                o.push(("len", l.try_to_target_usize(tcx).map(|x| n(x)).unwrap_or(J::Null)));
            }
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                o.push(("elem", n(self.ty(*e) as i64)));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                o.push(("to", n(self.ty(*e) as i64)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.norm(*e);
                o.push(("to", n(self.ty(e) as i64)));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let mut v = vec![];
                for x in ts.iter() {
                    let x = self.norm(x);
                    v.push(n(self.ty(x) as i64));
                }
                o.push(("elems", J::Arr(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path_of(tcx, def.did()))));
                o.push(("raw", s(raw_path(tcx, def.did()))));
                o.push(("local", J::Bool(def.did().is_local())));
                o.push((
                    "kind",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let mut v = vec![];
                for a in args.types() {
                    let a = self.norm(a);
                    v.push(n(self.ty(a) as i64));
                }
                o.push(("args", J::Arr(v)));
                let kr = tcx.crate_name(def.did().krate).to_string();
                let expand = def.did().is_local() || kr == "core" || kr == "alloc" || kr == "std" || kr.starts_with("futures")
                    || def.is_enum() && def.all_fields().next().is_none();
                if expand && !def.is_union() {
                    let mut vs = vec![];
                    let discrs: Vec<(usize, i128)> = if def.is_enum() {
                        def.discriminants(tcx)
                            .map(|(i, d)| {
                                let v = match d.ty.kind() {
                                    ty::Int(_) => {
                                        let bits = d.ty.primitive_size(tcx).bits() as u32;
                                        ((d.val << (128 - bits)) as i128) >> (128 - bits)
                                    }
                                    _ => d.val as i128,
                                };
                                (i.as_usize(), v)
                            })
                            .collect()
                    } else {
                        vec![(0, 0)]
                    };
                    for (vi, vd) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in vd.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = self.norm(ft);
                            fs.push(J::Obj(vec![
                                ("name", s(f.name.to_string())),
                                ("ty", n(self.ty(ft) as i64)),
                                ("pub", J::Bool(f.vis.is_public())),
                            ]));
                        }
                        let d = discrs.iter().find(|(i, _)| *i == vi.as_usize()).map(|x| x.1).unwrap_or(0);
                        vs.push(J::Obj(vec![
                            ("name", s(vd.name.to_string())),
                            ("discr", s(d.to_string())),
                            ("fields", J::Arr(fs)),
                        ]));
                    }
                    o.push(("variants", J::Arr(vs)));
                }
                // local Drop impl
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    if d.did.is_local() {
                        let inst = Instance { def: InstanceKind::Item(d.did), args };
                        let env = self.env;
                        let k = self.enqueue(inst, env);
                        o.push(("drop", s(k)));
                    }
                }
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.no_bound_vars().unwrap_or(args.skip_binder());
                let c = self.callee(*d, args);
                o.push(("callee", c));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("raw", s(raw_path(tcx, *d))));
                let up: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let mut v = vec![];
                for u in up {
                    let u = self.norm(u);
                    v.push(n(self.ty(u) as i64));
                }
                o.push(("upvars", J::Arr(v)));
                let inst = Instance { def: InstanceKind::Item(*d), args };
                let env = self.env;
                o.push(("body", s(self.enqueue(inst, env))));
            }
            ty::Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                o.push(("raw", s(raw_path(tcx, *d))));
                o.push(("local", J::Bool(d.is_local())));
                let up: Vec<Ty<'tcx>> = args.as_coroutine().upvar_tys().iter().collect();
                let mut v = vec![];
                for u in up {
                    let u = self.norm(u);
                    v.push(n(self.ty(u) as i64));
                }
                o.push(("upvars", J::Arr(v)));
                let rt = args.as_coroutine().return_ty();
                let rt = self.norm(rt);
                o.push(("ret", n(self.ty(rt) as i64)));
                if d.is_local() {
                    let inst = Instance { def: InstanceKind::Item(*d), args };
                    let env = self.env;
                    o.push(("body", s(self.enqueue(inst, env))));
                }
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        o.push(("s", s(st)));
        self.types[i] = J::Obj(o);
        i
    }

    /// describes a function value: declared path, resolved path, instance key
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(path_of(tcx, d))));
        o.push(("raw", s(raw_path(tcx, d))));
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path_of(tcx, tr))));
        }
        let mut v = vec![];
        for a in args.types() {
            v.push(n(self.ty(a) as i64));
        }
        o.push(("targs", J::Arr(v)));
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ikind", s("ctor")));
            let cty = tcx.type_of(d).instantiate(tcx, args).skip_norm_wip();
            let rt = tcx.instantiate_bound_regions_with_erased(cty.fn_sig(tcx)).output();
            let rt = self.norm(rt);
            o.push(("ctor_ty", n(self.ty(rt) as i64)));
            if let ty::Adt(def, _) = rt.kind() {
                let vi = def.variants().iter_enumerated().find(|(_, v)| v.ctor_def_id() == Some(d)).map(|(i, _)| i.as_usize()).unwrap_or(0);
                o.push(("ctor_variant", n(vi as i64)));
            }
            return J::Obj(o);
        }
        let inst = match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => Some(i),
            _ => None,
        };
        // collecting an iterator: the next function of its type, whatever the specialised bodies call
        if matches!(tcx.opt_item_name(d).map(|x| x.to_string()).as_deref(), Some("from_iter") | Some("extend") | Some("fold") | Some("sum")) && tcx.trait_of_assoc(d).is_some() {
            if let (Some(it), Some(nf)) = (args.types().last(), tcx.lang_items().next_fn()) {
                let it = if tcx.opt_item_name(d).map(|x| x.to_string()).as_deref() == Some("fold") { args.type_at(0) } else { it };
                let nargs = tcx.mk_args(&[it.into()]);
                if let Ok(Some(_)) = Instance::try_resolve(tcx, self.env, nf, nargs) {
                    let c = self.callee(nf, nargs);
                    o.push(("inext", c));
                    let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(nf).instantiate(tcx, nargs).skip_norm_wip());
                    let rt = self.norm(sig.output());
                    let at = self.norm(sig.inputs()[0]);
                    o.push(("inext_opt", n(self.ty(rt) as i64)));
                    o.push(("inext_ref", n(self.ty(at) as i64)));
                    o.push(("inext_ty", n(self.ty(it) as i64)));
                }
            }
        }
        if let Some(inst) = inst {
            let rd = inst.def_id();
            o.push(("rpath", s(path_of(tcx, rd))));
            o.push(("rraw", s(raw_path(tcx, rd))));
            if let Some(imp) = tcx.impl_of_assoc(rd) {
                o.push(("rself", s(with_no_trimmed_paths!(tcx.type_of(imp).instantiate_identity().skip_norm_wip().to_string()))));
            }
            match inst.def {
                InstanceKind::Item(_) => {
                    o.push(("ikind", s("item")));
                    self.maybe_key(&mut o, inst);
                    // default method body of the trait, when an impl overrides it
                    if let Some(_tr) = tcx.trait_of_assoc(d) {
                        if rd != d && tcx.defaultness(d).has_value() && !rd.is_local() {
                            let di = Instance { def: InstanceKind::Item(d), args };
                            if self.has_mir(d) && !self.stopped(d) && self.want_default(d) {
                                let env = self.env;
                                o.push(("default_key", s(self.enqueue(di, env))));
                            }
                        }
                    }
                }
                InstanceKind::Intrinsic(_) => o.push(("ikind", s("intrinsic"))),
                InstanceKind::Virtual(..) => o.push(("ikind", s("virtual"))),
                InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => {
                    o.push(("ikind", s("closure_once")));
                    let cty = inst.args.type_at(0);
                    let cargs = match cty.kind() {
                        ty::Closure(_, a) => *a,
                        _ => inst.args,
                    };
                    let ci = Instance { def: InstanceKind::Item(closure), args: cargs };
                    let env = self.env;
                    o.push(("key", s(self.enqueue(ci, env))));
                }
                InstanceKind::Shim(ShimKind::FnPtr(_, fty)) => {
                    o.push(("ikind", s("fnptr_shim")));
                    if let ty::FnDef(fd, fargs) = fty.kind() {
                        let fargs = fargs.no_bound_vars().unwrap_or(fargs.skip_binder());
                        let c = self.callee(*fd, fargs);
                        o.push(("inner", c));
                    }
                }
                InstanceKind::Shim(ShimKind::Clone(_, cty)) => {
                    o.push(("ikind", s("clone_shim")));
                    o.push(("clone_ty", n(self.ty(cty) as i64)));
                }
                InstanceKind::Shim(ShimKind::DropGlue(..)) => o.push(("ikind", s("drop_glue"))),
                _ => {
                    o.push(("ikind", s("shim")));
                }
            }
        } else {
            o.push(("ikind", s("unresolved")));
        }
        J::Obj(o)
    }

    fn want_default(&self, d: DefId) -> bool {
        let p = raw_path(self.tcx, d);
        p.starts_with("core::iter::traits::") || p.starts_with("core::cmp::")
    }

    fn stopped(&self, d: DefId) -> bool {
        if d.is_local() {
            return false;
        }
        let cr = self.tcx.crate_name(d.krate).to_string();
        if !matches!(cr.as_str(), "core" | "alloc" | "std") || self.stop_crates.contains(&cr) {
            return true;
        }
        let p = path_of(self.tcx, d);
        let r = raw_path(self.tcx, d);
        self.stop.iter().any(|x| p.starts_with(x.as_str()) || r.starts_with(x.as_str()))
    }

    fn has_mir(&self, d: DefId) -> bool {
        if d.is_local() {
            return self.tcx.is_mir_available(d);
        }
        self.tcx.is_mir_available(d)
    }

    fn maybe_key(&mut self, o: &mut Vec<(&'static str, J)>, inst: Instance<'tcx>) {
        let d = inst.def_id();
        if self.tcx.is_intrinsic(d, rustc_span::Symbol::intern("")) {
            return;
        }
        if self.stopped(d) {
            o.push(("stopped", J::Bool(true)));
            return;
        }
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && self.has_mir(d) {
            let env = self.env;
            o.push(("key", s(self.enqueue(inst, env))));
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, prom: Option<Promoted>) -> Option<J> {
        let tcx = self.tcx;
        let d = inst.def_id();
        let raw: mir::Body<'tcx> = if let Some(p) = prom {
            tcx.promoted_mir(d).get(p)?.clone()
        } else if let Some(ld) = d.as_local() {
            local_body(tcx, ld)
        } else {
            tcx.instance_mir(inst.def).clone()
        };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, raw.clone())) {
            Ok(b) => b,
            Err(_) => raw,
        };
        let mut locals = vec![];
        for (_, l) in body.local_decls.iter_enumerated() {
            locals.push(n(self.ty(l.ty) as i64));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::Arr(vec![s(v.name.to_string()), self.place(&p)]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in bb.statements.iter() {
                if let Some(j) = self.stmt(x) {
                    st.push(j);
                }
            }
            let t = self.term(&body, bb.terminator());
            blocks.push(J::Obj(vec![("s", J::Arr(st)), ("t", t)]));
        }
        let ck = match tcx.def_kind(d) {
            DefKind::Closure => {
                if tcx.is_coroutine(d) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            _ => "fn",
        };
        Some(J::Obj(vec![
            ("path", s(path_of(tcx, d))),
            ("raw", s(raw_path(tcx, d))),
            ("local", J::Bool(d.is_local())),
            ("kind", s(ck)),
            ("phase", s(format!("{:?}", body.phase))),
            ("args", n(body.arg_count as i64)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize() as i64)).unwrap_or(J::Null)),
            ("span", self.span(body.span)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ]))
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::Arr(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.norm(t);
                    J::Arr(vec![s("f"), n(f.as_usize() as i64), n(self.ty(t) as i64)])
                }
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_usize() as i64)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::Arr(vec![s("ci"), n(offset), n(min_length), J::Bool(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("ss"), n(from), n(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![s("d"), n(v.as_usize() as i64)]),
                _ => J::Arr(vec![s("?"), s(format!("{:?}", e))]),
            });
        }
        J::Obj(vec![("l", n(p.local.as_usize() as i64)), ("p", J::Arr(v))])
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Obj(vec![("o", s("copy")), ("pl", self.place(p))]),
            Operand::Move(p) => J::Obj(vec![("o", s("move")), ("pl", self.place(p))]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let t = self.norm(t);
                let ti = self.ty(t);
                let v = self.constant(c.const_, t, c.span);
                J::Obj(vec![("o", s("const")), ("ty", n(ti as i64)), ("v", v)])
            }
            Operand::RuntimeChecks(r) => J::Obj(vec![("o", s("rtcheck")), ("v", s(format!("{:?}", r)))]),
        }
    }

    fn constant(&mut self, c: mir::Const<'tcx>, t: Ty<'tcx>, sp: Span) -> J {
        let tcx = self.tcx;
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or(args.skip_binder());
            return J::Obj(vec![("fn", self.callee(*d, args))]);
        }
        let mut name = None;
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                if !u.def.is_local() {
                    let inst = Instance { def: InstanceKind::Item(u.def), args: tcx.erase_and_anonymize_regions(u.args) };
                    let k = format!("promoted|{:?}|{}", p, self.key(inst));
                    if self.seen.insert(k.clone()) {
                        self.queue.push_back((inst, self.env, k.clone(), Some(p)));
                    }
                    return J::Obj(vec![("promoted", s(k))]);
                }
            } else {
                name = Some(path_of(tcx, u.def));
            }
        }
        if std::env::var("MIRDUMP_DEBUG").is_ok() {
            eprintln!("EVAL {:?}", c);
        }
        match c.eval(tcx, self.env, sp) {
            Ok(v) => {
                let j = self.cval(v, t, 0);
                match (j, name) {
                    (J::Obj(mut o), Some(nm)) => {
                        o.push(("name", s(nm)));
                        J::Obj(o)
                    }
                    (j, _) => j,
                }
            }
            Err(_) => J::Obj(vec![("uneval", s(format!("{:?}", c)))]),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::Obj(vec![("opaque", s("deep"))]);
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(b) = v.try_to_bits_for_ty(tcx, self.env, t) {
                    let mut val = b as i128;
                    if let ty::Int(it) = t.kind() {
                        let bits = it.bit_width().unwrap_or(64);
                        if bits < 128 && (b >> (bits - 1)) & 1 == 1 {
                            val = b as i128 - (1i128 << bits);
                        }
                    }
                    return J::Obj(vec![("int", s(val.to_string()))]);
                }
                // indirect scalar
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                            let st = offset.bytes_usize();
                            let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + l.size.bytes_usize());
                            let mut val: i128 = 0;
                            for (i, b) in bytes.iter().enumerate() {
                                val |= (*b as i128) << (8 * i);
                            }
                            if let ty::Int(it) = t.kind() {
                                let bits = it.bit_width().unwrap_or(64);
                                if bits < 128 && (val >> (bits - 1)) & 1 == 1 {
                                    val -= 1i128 << bits;
                                }
                            }
                            return J::Obj(vec![("int", s(val.to_string()))]);
                        }
                    }
                }
                J::Obj(vec![("opaque", s("scalar"))])
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or(args.skip_binder());
                J::Obj(vec![("fn", self.callee(*d, args))])
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Str) || matches!(inner.kind(), ty::Slice(_)) => {
                let is_u8 = match inner.kind() {
                    ty::Str => true,
                    ty::Slice(e) => *e == tcx.types.u8,
                    _ => false,
                };
                // find allocation and length
                let (aid, off, len) = match v {
                    ConstValue::Slice { alloc_id, meta } => (Some(alloc_id), 0usize, meta as usize),
                    ConstValue::Indirect { alloc_id, offset } => {
                        // a fat pointer stored in memory
                        if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let a = a.inner();
                            let st = offset.bytes_usize();
                            let prov = a.provenance().ptrs().iter().find(|(o, _)| o.bytes_usize() == st).map(|(_, p)| p.alloc_id());
                            let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + 16);
                            let rdu = |x: &[u8]| -> usize {
                                let mut r = 0usize;
                                for (i, b) in x.iter().enumerate() {
                                    r |= (*b as usize) << (8 * i);
                                }
                                r
                            };
                            (prov, rdu(&raw[0..8]), rdu(&raw[8..16]))
                        } else {
                            (None, 0, 0)
                        }
                    }
                    _ => (None, 0, 0),
                };
                let Some(aid) = aid else {
                    return J::Obj(vec![("opaque", s("sliceptr"))]);
                };
                if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(aid) {
                    if is_u8 {
                        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + len);
                        return J::Obj(vec![
                            ("bytes", J::Arr(b.iter().map(|x| n(*x)).collect())),
                        ]);
                    }
                    if let ty::Slice(e) = inner.kind() {
                        let arr = Ty::new_array(tcx, *e, len as u64);
                        let iv = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off as u64) };
                        let ai = self.ty(arr);
                        let j = self.cval(iv, arr, depth + 1);
                        return J::Obj(vec![("refslice", j), ("arr_ty", n(ai as i64))]);
                    }
                }
                J::Obj(vec![("opaque", s("slice"))])
            }
            ty::Ref(_, inner, _) => {
                let p = match v {
                    ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        Some((prov.alloc_id(), off))
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let a = a.inner();
                            let st = offset.bytes_usize();
                            let prov = a.provenance().ptrs().iter().find(|(o, _)| o.bytes_usize() == st).map(|(_, p)| p.alloc_id());
                            let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + 8);
                            let mut r = 0u64;
                            for (i, b) in raw.iter().enumerate() {
                                r |= (*b as u64) << (8 * i);
                            }
                            prov.map(|x| (x, rustc_abi::Size::from_bytes(r)))
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                if let Some((aid, off)) = p {
                    if let mir::interpret::GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                        let inner = self.norm(*inner);
                        let sized = inner.is_sized(tcx, self.env);
                        if sized {
                            let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                            let ti = self.ty(inner);
                            let j = self.cval(iv, inner, depth + 1);
                            return J::Obj(vec![("ref", j), ("to", n(ti as i64))]);
                        }
                    }
                }
                J::Obj(vec![("opaque", s("ref"))])
            }
            ty::Tuple(ts) if ts.is_empty() => J::Obj(vec![("agg", J::Arr(vec![])), ("variant", n(0))]),
            ty::Adt(def, _) if def.is_union() => J::Obj(vec![("opaque", s("union"))]),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() && def.variants().is_empty() {
                        return J::Obj(vec![("opaque", s("never"))]);
                    }
                }
                if let ty::Array(_, l) = t.kind() {
                    if l.try_to_target_usize(tcx).map(|x| x > 4096).unwrap_or(true) {
                        return J::Obj(vec![("opaque", s("bigarray"))]);
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let mut fs = vec![];
                        for (fv, ft) in dc.fields.iter() {
                            fs.push(self.cval(*fv, *ft, depth + 1));
                        }
                        J::Obj(vec![
                            ("agg", J::Arr(fs)),
                            ("variant", n(dc.variant.map(|x| x.as_usize()).unwrap_or(0) as i64)),
                        ])
                    }
                    None => J::Obj(vec![("opaque", s("agg"))]),
                }
            }
            _ => {
                if let ConstValue::ZeroSized = v {
                    return J::Obj(vec![("zst", J::Bool(true))]);
                }
                J::Obj(vec![("opaque", s("other"))])
            }
        }
    }

    fn stmt(&mut self, st: &Statement<'tcx>) -> Option<J> {
        match &st.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let pl = self.place(p);
                let rv = self.rvalue(r);
                Some(J::Obj(vec![("k", s("=")), ("pl", pl), ("rv", rv), ("sp", self.span(st.source_info.span))]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pl = self.place(place);
                Some(J::Obj(vec![("k", s("setd")), ("pl", pl), ("v", n(variant_index.as_usize() as i64))]))
            }
            StatementKind::StorageDead(l) => Some(J::Obj(vec![("k", s("dead")), ("l", n(l.as_usize() as i64))])),
            StatementKind::StorageLive(l) => Some(J::Obj(vec![("k", s("live")), ("l", n(l.as_usize() as i64))])),
            StatementKind::Intrinsic(i) => Some(J::Obj(vec![("k", s("intrinsic")), ("d", s(format!("{:?}", i)))])),
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::Obj(vec![("r", s("use")), ("o", self.operand(o))]),
            Rvalue::Repeat(o, c) => J::Obj(vec![
                ("r", s("repeat")),
                ("o", self.operand(o)),
                ("n", c.try_to_target_usize(self.tcx).map(|x| n(x)).unwrap_or(J::Null)),
            ]),
            Rvalue::Ref(_, bk, p) => J::Obj(vec![
                ("r", s("ref")),
                ("pl", self.place(p)),
                ("mut", J::Bool(matches!(bk, BorrowKind::Mut { .. }))),
            ]),
            Rvalue::RawPtr(_, p) => J::Obj(vec![("r", s("ref")), ("pl", self.place(p)), ("mut", J::Bool(true)), ("raw", J::Bool(true))]),
            Rvalue::Reborrow(_, _, p) => J::Obj(vec![("r", s("copyderef")), ("pl", self.place(p))]),
            Rvalue::Cast(k, o, t) => {
                let t = self.norm(*t);
                let o = self.operand(o);
                J::Obj(vec![("r", s("cast")), ("k", s(format!("{:?}", k))), ("o", o), ("ty", n(self.ty(t) as i64))])
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                let a = self.operand(x);
                let c = self.operand(y);
                J::Obj(vec![("r", s("bin")), ("op", s(format!("{:?}", op))), ("a", a), ("b", c)])
            }
            Rvalue::UnaryOp(op, o) => {
                J::Obj(vec![("r", s("un")), ("op", s(format!("{:?}", op))), ("a", self.operand(o))])
            }
            Rvalue::Discriminant(p) => J::Obj(vec![("r", s("discr")), ("pl", self.place(p))]),
            Rvalue::CopyForDeref(p) => J::Obj(vec![("r", s("copyderef")), ("pl", self.place(p))]),
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops.iter() {
                    v.push(self.operand(o));
                }
                let mut o = vec![("r", s("agg")), ("ops", J::Arr(v))];
                match &**k {
                    AggregateKind::Array(t) => {
                        o.push(("k", s("array")));
                        let t = self.norm(*t);
                        o.push(("ty", n(self.ty(t) as i64)));
                    }
                    AggregateKind::Tuple => o.push(("k", s("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        o.push(("k", s("adt")));
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.norm(t);
                        o.push(("ty", n(self.ty(t) as i64)));
                        o.push(("variant", n(vi.as_usize() as i64)));
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("k", s("closure")));
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.norm(t);
                        o.push(("ty", n(self.ty(t) as i64)));
                    }
                    AggregateKind::Coroutine(d, args) => {
                        o.push(("k", s("coroutine")));
                        let t = Ty::new_coroutine(self.tcx, *d, args);
                        let t = self.norm(t);
                        o.push(("ty", n(self.ty(t) as i64)));
                    }
                    AggregateKind::RawPtr(t, _) => {
                        o.push(("k", s("rawptr")));
                        let t = self.norm(*t);
                        o.push(("ty", n(self.ty(t) as i64)));
                    }
                    _ => o.push(("k", s("other"))),
                }
                J::Obj(o)
            }
            other => J::Obj(vec![("r", s("other")), ("d", s(format!("{:?}", other)))]),
        }
    }

    fn term(&mut self, body: &mir::Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let bb = |b: BasicBlock| n(b.as_usize() as i64);
        let mut o: Vec<(&'static str, J)> = vec![("sp", sp)];
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", bb(*target)));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                o.push(("k", s("switch")));
                o.push(("o", self.operand(discr)));
                let ty = discr.ty(&body.local_decls, self.tcx);
                let ty = self.norm(ty);
                o.push(("ty", n(self.ty(ty) as i64)));
                let mut v = vec![];
                for (val, b) in targets.iter() {
                    let mut val2 = val as i128;
                    if let ty::Int(it) = ty.kind() {
                        let bits = it.bit_width().unwrap_or(64);
                        if bits < 128 && (val >> (bits - 1)) & 1 == 1 {
                            val2 = val as i128 - (1i128 << bits);
                        }
                    }
                    v.push(J::Arr(vec![s(val2.to_string()), bb(b)]));
                }
                o.push(("targets", J::Arr(v)));
                o.push(("otherwise", bb(targets.otherwise())));
            }
            TerminatorKind::Return => o.push(("k", s("return"))),
            TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
            TerminatorKind::Drop { place, target, .. } => {
                o.push(("k", s("drop")));
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                let ty = self.norm(ty);
                o.push(("ty", n(self.ty(ty) as i64)));
                o.push(("pl", self.place(place)));
                o.push(("to", bb(*target)));
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                o.push(("k", s("call")));
                o.push(("f", self.operand(func)));
                let mut v = vec![];
                for a in args.iter() {
                    v.push(self.operand(&a.node));
                }
                o.push(("args", J::Arr(v)));
                let dt = destination.ty(&body.local_decls, self.tcx).ty;
                let dt = self.norm(dt);
                o.push(("rty", n(self.ty(dt) as i64)));
                o.push(("dst", self.place(destination)));
                o.push(("to", target.map(bb).unwrap_or(J::Null)));
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                o.push(("k", s("assert")));
                o.push(("o", self.operand(cond)));
                o.push(("expected", J::Bool(*expected)));
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                    AssertKind::OverflowNeg(..) => "overflow:Neg".to_string(),
                    AssertKind::DivisionByZero(..) => "div0".to_string(),
                    AssertKind::RemainderByZero(..) => "rem0".to_string(),
                    AssertKind::ResumedAfterReturn(..) | AssertKind::ResumedAfterPanic(..) | AssertKind::ResumedAfterDrop(..) => "resumed".to_string(),
                    _ => "other".to_string(),
                };
                o.push(("msg", s(m)));
                o.push(("to", bb(*target)));
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                o.push(("k", s("yield")));
                o.push(("o", self.operand(value)));
                o.push(("to", bb(*resume)));
                o.push(("dst", self.place(resume_arg)));
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", bb(*real_target)));
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                o.push(("k", s("goto")));
                o.push(("to", bb(*real_target)));
            }
            other => {
                o.push(("k", s("other")));
                o.push(("d", s(format!("{:?}", other))));
            }
        }
        J::Obj(o)
    }
}

fn kind_tag(k: &InstanceKind<'_>) -> &'static str {
    match k {
        InstanceKind::Item(_) => "item",
        InstanceKind::Intrinsic(_) => "intrinsic",
        InstanceKind::Virtual(..) => "virtual",
        _ => "shim",
    }
}

pub static STASH: std::sync::Mutex<std::collections::BTreeMap<usize, usize>> = std::sync::Mutex::new(std::collections::BTreeMap::new());

fn local_body<'tcx>(tcx: TyCtxt<'tcx>, ld: LocalDefId) -> mir::Body<'tcx> {
    if tcx.is_coroutine(ld.to_def_id()) {
        let p = STASH.lock().unwrap().get(&ld.local_def_index.as_usize()).copied();
        if let Some(p) = p {
            // the pointer was made by `stash` from a body of this same tcx
            return unsafe { (*(p as *const mir::Body<'tcx>)).clone() };
        }
    }
    let st = tcx.mir_drops_elaborated_and_const_checked(ld);
    if st.is_stolen() {
        return tcx.optimized_mir(ld.to_def_id()).clone();
    }
    st.borrow().clone()
}
