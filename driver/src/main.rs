//! mirdump: a rustc driver that writes the type-checked program of one crate
//! (resolved callees, monomorphised as far as the public API's own generics
//! allow) as JSON.  It never runs the analysed code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;

extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, TypeVisitableExt, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, VecDeque};

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            tys: HashMap::new(),
            ty_out: vec![],
            ty_queue: VecDeque::new(),
            fns: BTreeMap::new(),
            queue: VecDeque::new(),
            seen: HashMap::new(),
        };
        let v = d.run();
        std::fs::write(&self.out, v.to_string()).expect("write dump");
        Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: HashMap<(Ty<'tcx>, TypingEnv<'tcx>), usize>,
    ty_out: Vec<J>,
    ty_queue: VecDeque<(Ty<'tcx>, TypingEnv<'tcx>, usize)>,
    fns: BTreeMap<String, J>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, String)>,
    seen: HashMap<(Instance<'tcx>, TypingEnv<'tcx>), String>,
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: i128) -> J {
    J::N(x)
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn crate_of(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(format!("{t}")))
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let env = if t.has_param() || t.has_aliases() { self.env } else { TypingEnv::fully_monomorphized() };
        let key = (t, env);
        if let Some(i) = self.tys.get(&key) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(key, i);
        self.ty_out.push(J::Null);
        self.ty_queue.push_back((t, env, i));
        i
    }

    fn norm<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, t: T) -> T {
        self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
    }

    fn emit_ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(self.ty_str(t)))];
        let kind = match t.kind() {
            ty::Bool => "bool",
            ty::Char => "char",
            ty::Int(_) => "int",
            ty::Uint(_) => "uint",
            ty::Float(_) => "float",
            ty::Adt(..) => "adt",
            ty::Str => "str",
            ty::Array(..) => "array",
            ty::Slice(..) => "slice",
            ty::RawPtr(..) => "ptr",
            ty::Ref(..) => "ref",
            ty::FnDef(..) => "fndef",
            ty::FnPtr(..) => "fnptr",
            ty::Dynamic(..) => "dyn",
            ty::Closure(..) => "closure",
            ty::Never => "never",
            ty::Tuple(..) => "tuple",
            ty::Param(_) => "param",
            ty::Alias(..) => "alias",
            _ => "other",
        };
        o.push(("k", s(kind)));
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("path", s(self.path(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                o.push(("adt", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.normalize_erasing_regions(self.env, ft);
                        let id = self.ty(ft);
                        fs.push(J::O(vec![("n".into(), s(f.name.to_string())), ("t".into(), n(id as i128))]));
                    }
                    let discr = if def.is_enum() { n(def.discriminant_for_variant(tcx, vi).val as i128) } else { J::Null };
                    vs.push(J::O(vec![("n".into(), s(v.name.to_string())), ("d".into(), discr), ("f".into(), J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
                let targs: Vec<J> = args.types().map(|a| n(self.ty(a) as i128)).collect();
                o.push(("args", J::A(targs)));
                // user Drop impl
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    let drop_args = tcx.mk_args_from_iter(args.iter());
                    if let Some(k) = self.add_drop(d.did, drop_args) {
                        o.push(("drop", s(k)));
                    }
                }
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                o.push(("to", n(i as i128)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                o.push(("to", n(i as i128)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Array(e, len) => {
                let i = self.ty(*e);
                o.push(("to", n(i as i128)));
                let l = len.try_to_target_usize(tcx);
                o.push(("len", l.map(|x| n(x as i128)).unwrap_or(J::Null)));
            }
            ty::Slice(e) => {
                let i = self.ty(*e);
                o.push(("to", n(i as i128)));
            }
            ty::Tuple(ts) => {
                let a: Vec<J> = ts.iter().map(|x| n(self.ty(x) as i128)).collect();
                o.push(("f", J::A(a)));
            }
            ty::Closure(d, args) => {
                o.push(("path", s(self.path(*d))));
                o.push(("local", J::B(d.is_local())));
                if d.is_local() {
                    let inst = Instance::new_raw(*d, args);
                    let k = self.add(inst);
                    o.push(("call", s(k)));
                }
                let a: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x) as i128)).collect();
                o.push(("f", J::A(a)));
            }
            ty::FnDef(d, args) => {
                o.push(("path", s(self.path(*d))));
                let _ = args;
            }
            _ => {}
        }
        let nd = t.needs_drop(tcx, self.env);
        o.push(("needs_drop", J::B(nd)));
        if !matches!(t.kind(), ty::Dynamic(..) | ty::Str | ty::Slice(..) | ty::Never) {
            if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                if l.is_sized() {
                    o.push(("size", n(l.size.bytes() as i128)));
                    o.push(("align", n(l.align.abi.bytes() as i128)));
                    if let rustc_abi::FieldsShape::Arbitrary { offsets, .. } = &l.fields {
                        let offs: Vec<J> = offsets.iter().map(|x| n(x.bytes() as i128)).collect();
                        o.push(("offsets", J::A(offs)));
                    }
                }
            }
        }
        J::O(o.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }

    fn add_drop(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<String> {
        if !d.is_local() {
            return None;
        }
        let inst = Instance::new_raw(d, args);
        Some(self.add(inst))
    }

    fn add(&mut self, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let inst = tcx.erase_and_anonymize_regions(inst);
        let env = if inst.args.has_param() || inst.args.has_aliases() { self.env } else { TypingEnv::fully_monomorphized() };
        let key = (inst, env);
        if let Some(k) = self.seen.get(&key) {
            return k.clone();
        }
        let did = inst.def_id();
        let tag = match inst.def {
            InstanceKind::Item(_) => "".to_string(),
            other => format!("#{:?}", other).chars().take(60).collect(),
        };
        let mut name = rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(tcx.def_path_str_with_args(did, inst.args)));
        if tcx.is_closure_like(did) {
            // closure args are noisy: keep the path and the parent's args only
            let p = tcx.typeck_root_def_id(did);
            let pargs = inst.args.as_closure().parent_args();
            let pn = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(p, tcx.mk_args(pargs)));
            name = format!("{} in {}", self.path(did), pn);
        }
        let mut k = format!("{name}{tag}");
        let mut i = 2;
        while self.seen.values().any(|v| *v == k) {
            k = format!("{name}{tag}~{i}");
            i += 1;
        }
        self.seen.insert(key, k.clone());
        self.queue.push_back((inst, env, k.clone()));
        k
    }

    fn has_body(&self, inst: &Instance<'tcx>) -> bool {
        match inst.def {
            InstanceKind::Item(d) => {
                if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
                    return false;
                }
                self.tcx.is_mir_available(d)
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
            InstanceKind::Shim(ty::ShimKind::Clone(..)) => true,
            _ => false,
        }
    }

    fn want_external(&self, d: DefId) -> bool {
        let c = self.crate_of(d);
        if c != "core" {
            return false;
        }
        let p = self.path(d);
        !["fmt", "panicking", "::str::", "sync::atomic", "unicode", "::num::"].iter().any(|x| p.contains(x))
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let ev = tcx.effective_visibilities(());
        let mut roots = vec![];
        let mut all_local = vec![];
        for ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            self.env = TypingEnv::post_analysis(tcx, d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let inst = Instance::new_raw(d, args);
            let mut vis = if ev.is_exported(*ld) { "exported" } else { "private" };
            let mut tr = J::Null;
            if let Some(p) = tcx.opt_parent(d) {
                if let DefKind::Impl { of_trait: true } = tcx.def_kind(p) {
                    let t = tcx.impl_trait_ref(p).skip_binder().def_id;
                    tr = s(self.path(t));
                    vis = "traitimpl";
                }
                if let DefKind::Trait = tcx.def_kind(p) {
                    tr = s(self.path(p));
                    vis = "traitdefault";
                }
            }
            let k = if vis == "private" { self.path(d) } else { self.add(inst) };
            let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate_identity().skip_norm_wip());
            let ins: Vec<J> = sig.inputs().iter().map(|t| { let t = self.norm(*t); n(self.ty(t) as i128) }).collect();
            let outt = self.norm(sig.output());
            let outp = self.ty(outt);
            let e = J::O(vec![
                ("key".into(), s(k)),
                ("path".into(), s(self.path(d))),
                ("name".into(), s(tcx.item_name(d).to_string())),
                ("vis".into(), s(vis)),
                ("trait".into(), tr),
                ("unsafe".into(), J::B(!tcx.fn_sig(d).skip_binder().safety().is_safe())),
                ("inputs".into(), J::A(ins)),
                ("output".into(), n(outp as i128)),
                ("span".into(), self.span(tcx.def_span(d))),
            ]);
            if vis == "exported" {
                roots.push(e.clone());
            }
            all_local.push(e);
        }
        loop {
            if let Some((inst, env, key)) = self.queue.pop_front() {
                self.env = env;
                let j = self.emit_fn(inst);
                self.fns.insert(key, j);
                continue;
            }
            if let Some((t, env, i)) = self.ty_queue.pop_front() {
                self.env = env;
                let j = self.emit_ty(t);
                self.ty_out[i] = j;
                continue;
            }
            break;
        }
        // trait impl table and auto-trait facts
        let impls = self.impls();
        J::O(vec![
            ("crate".into(), s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("types".into(), J::A(std::mem::take(&mut self.ty_out))),
            ("fns".into(), J::O(std::mem::take(&mut self.fns).into_iter().collect())),
            ("roots".into(), J::A(roots)),
            ("local".into(), J::A(all_local)),
            ("impls".into(), impls),
        ])
    }

    fn impls(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for (tr, imps) in tcx.all_local_trait_impls(()).iter() {
            for i in imps {
                let r = tcx.impl_trait_ref(i.to_def_id()).skip_binder();
                let preds = tcx.clauses_of(i.to_def_id()).instantiate_identity(tcx);
                let ps: Vec<J> = preds.clauses.iter().map(|p| s(format!("{:?}", p))).collect();
                out.push(J::O(vec![
                    ("trait".into(), s(self.path(*tr))),
                    ("self".into(), s(self.ty_str(r.self_ty()))),
                    ("unsafe".into(), J::B(!tcx.impl_trait_header(i.to_def_id()).safety.is_safe())),
                    ("preds".into(), J::A(ps)),
                    ("span".into(), self.span(tcx.def_span(i.to_def_id()))),
                ]));
            }
        }
        J::A(out)
    }

    fn emit_fn(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let did = inst.def_id();
        let mut o: Vec<(String, J)> = vec![
            ("path".into(), s(self.path(did))),
            ("local".into(), J::B(did.is_local())),
            ("span".into(), self.span(tcx.def_span(did))),
        ];
        if let Some(p) = tcx.opt_parent(did) {
            if let DefKind::Impl { .. } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                o.push(("impl_self".into(), s(self.ty_str(st))));
            }
        }
        if !self.has_body(&inst) {
            o.push(("nobody".into(), J::B(true)));
            return J::O(o);
        }
        let body0 = tcx.instance_mir(inst.def).clone();
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body0));
        o.push(("argc".into(), n(body.arg_count as i128)));
        o.push(("spread".into(), body.spread_arg.map(|l| n(l.as_u32() as i128)).unwrap_or(J::Null)));
        let locals: Vec<J> = body.local_decls.iter().map(|l| n(self.ty(l.ty) as i128)).collect();
        o.push(("locals".into(), J::A(locals)));
        let mut names = vec![];
        for vdi in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = vdi.value {
                if let Some(l) = p.as_local() {
                    names.push((l.as_u32().to_string(), s(vdi.name.to_string())));
                }
            }
        }
        o.push(("names".into(), J::O(names)));
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stm in data.statements.iter() {
                if let Some(j) = self.stmt(stm, &body) {
                    st.push(j);
                }
            }
            let term = self.term(data.terminator(), &body);
            blocks.push(J::O(vec![("s".into(), J::A(st)), ("t".into(), term), ("c".into(), J::B(data.is_cleanup))]));
        }
        o.push(("blocks".into(), J::A(blocks)));
        J::O(o)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_u32() as i128), n(t as i128)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), n(offset as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("sub"), n(from as i128), n(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_u32() as i128)]),
                other => J::A(vec![s("other"), s(format!("{other:?}"))]),
            };
            pt = pt.projection_ty(self.tcx, e);
            pr.push(j);
        }
        let t = self.ty(pt.ty);
        J::A(vec![n(p.local.as_u32() as i128), J::A(pr), n(t as i128)])
    }

    /// a constant reference to an integer or a field-less enum: what it refers to
    fn pointee_value(&self, c: &ConstOperand<'tcx>) -> Option<(Ty<'tcx>, i128)> {
        let tcx = self.tcx;
        let ty::Ref(_, pt, _) = c.const_.ty().kind() else { return None };
        let plain = match pt.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool => true,
            ty::Adt(a, _) => a.is_enum() && a.variants().iter().all(|v| v.fields.is_empty()),
            _ => false,
        };
        if !plain {
            return None;
        }
        let val = c.const_.eval(tcx, self.env, c.span).ok()?;
        let mir::ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = val else { return None };
        let (prov, off) = p.into_raw_parts();
        let alloc = match tcx.try_get_global_alloc(prov.alloc_id())? {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => a,
            _ => return None,
        };
        let size = tcx.layout_of(self.env.as_query_input(*pt)).ok()?.size;
        let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..(off + size).bytes_usize());
        if b.len() > 8 || b.is_empty() {
            return None;
        }
        let mut v: i128 = 0;
        for (i, x) in b.iter().enumerate() {
            v |= (*x as i128) << (8 * i);
        }
        if pt.is_signed() && b[b.len() - 1] & 0x80 != 0 {
            v -= 1i128 << (8 * b.len());
        }
        Some((*pt, v))
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut o: Vec<(String, J)> = vec![("t".into(), n(tid as i128))];
        match t.kind() {
            ty::FnDef(d, args) => {
                let f = self.callee(*d, args.skip_binder());
                o.push(("fn".into(), f));
            }
            _ => {
                let ev = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.const_.try_eval_scalar_int(tcx, self.env))).ok().flatten();
                if let Some(i) = ev {
                    let sz = i.size();
                    let v: i128 = if t.is_signed() { i.to_int(sz) } else { i.to_bits(sz) as i128 };
                    o.push(("v".into(), n(v)));
                } else {
                    o.push(("x".into(), s(format!("{}", c.const_))));
                    if let Some((pt, v)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.pointee_value(c))).ok().flatten() {
                        let pt = self.ty(pt);
                        o.push(("ref".into(), J::A(vec![n(pt as i128), n(v)])));
                    }
                    if let mir::Const::Unevaluated(u, _) = c.const_ {
                        o.push(("uneval".into(), s(self.path(u.def))));
                    }
                    if let mir::Const::Ty(_, ct) = c.const_ {
                        o.push(("param".into(), s(format!("{ct:?}"))));
                    }
                }
            }
        }
        J::O(vec![("const".to_string(), J::O(o))])
    }

    fn op(&mut self, x: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        match x {
            Operand::Copy(p) => { let p = self.place(p, body); J::A(vec![s("copy"), p]) }
            Operand::Move(p) => { let p = self.place(p, body); J::A(vec![s("move"), p]) }
            Operand::Constant(c) => { let c = self.konst(c); J::A(vec![s("const"), c]) }
            other => J::A(vec![s("opaque"), s(format!("{other:?}"))]),
        }
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(String, J)> = vec![("path".into(), s(self.path(d))), ("crate".into(), s(self.crate_of(d)))];
        let targs: Vec<J> = args.types().map(|a| n(self.ty(a) as i128)).collect();
        o.push(("args".into(), J::A(targs)));
        let cargs: Vec<J> = args.consts().map(|a| a.try_to_target_usize(tcx).map(|x| n(x as i128)).unwrap_or(s(format!("{a:?}")))).collect();
        if !cargs.is_empty() {
            o.push(("cargs".into(), J::A(cargs)));
        }
        if tcx.trait_of_assoc(d).is_some() {
            o.push(("trait".into(), J::B(true)));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            o.push(("ctor".into(), s(self.path(parent))));
            return J::O(o);
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => {
                match i.def {
                    InstanceKind::Intrinsic(_) => o.push(("intrinsic".into(), s(tcx.item_name(d).to_string()))),
                    InstanceKind::Virtual(..) => o.push(("virtual".into(), J::B(true))),
                    _ => {
                        o.push(("rpath".into(), s(self.path(i.def_id()))));
                        o.push(("rcrate".into(), s(self.crate_of(i.def_id()))));
                        let ra: Vec<J> = i.args.types().map(|a| n(self.ty(a) as i128)).collect();
                        o.push(("rargs".into(), J::A(ra)));
                        if self.has_body(&i) && (i.def_id().is_local() || self.want_external(i.def_id()) || !matches!(i.def, InstanceKind::Item(_))) {
                            let k = self.add(i);
                            o.push(("key".into(), s(k)));
                        }
                    }
                }
            }
            _ => o.push(("unresolved".into(), J::B(true))),
        }
        J::O(o)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => { let o = self.op(o, body); J::A(vec![s("use"), o]) }
            Rvalue::Repeat(o, c) => {
                let o = self.op(o, body);
                let c = c.try_to_target_usize(tcx).map(|x| n(x as i128)).unwrap_or(J::Null);
                J::A(vec![s("repeat"), o, c])
            }
            Rvalue::Ref(_, bk, p) => {
                let p = self.place(p, body);
                J::A(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), p])
            }
            Rvalue::RawPtr(k, p) => {
                let p = self.place(p, body);
                J::A(vec![s("ref"), J::B(format!("{k:?}").contains("Mut")), p])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p, body);
                J::A(vec![s("ref"), J::B(m.is_mut()), p])
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.op(o, body);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), o, n(t as i128)])
            }
            Rvalue::BinaryOp(b, ops) => {
                let l = self.op(&ops.0, body);
                let r = self.op(&ops.1, body);
                J::A(vec![s("bin"), s(format!("{b:?}")), l, r])
            }
            Rvalue::UnaryOp(u, o) => {
                let o = self.op(o, body);
                J::A(vec![s("un"), s(format!("{u:?}")), o])
            }
            Rvalue::Discriminant(p) => { let p = self.place(p, body); J::A(vec![s("discr"), p]) }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|x| self.op(x, body)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, f) => J::A(vec![s("adt"), s(self.path(*d)), n(v.as_u32() as i128), f.map(|x| n(x.as_u32() as i128)).unwrap_or(J::Null)]),
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.path(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    other => J::A(vec![s("other"), s(format!("{other:?}"))]),
                };
                J::A(vec![s("agg"), kk, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => { let p = self.place(p, body); J::A(vec![s("use"), J::A(vec![s("copy"), p])]) }
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }

    fn stmt(&mut self, st: &Statement<'tcx>, body: &Body<'tcx>) -> Option<J> {
        let sp = self.span(st.source_info.span);
        match &st.kind {
            StatementKind::Assign(b) => {
                let p = self.place(&b.0, body);
                let r = self.rvalue(&b.1, body);
                Some(J::A(vec![s("="), p, r, sp]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(place, body);
                Some(J::A(vec![s("setd"), p, n(variant_index.as_u32() as i128), sp]))
            }
            StatementKind::StorageDead(l) => Some(J::A(vec![s("dead"), n(l.as_u32() as i128)])),
            StatementKind::Intrinsic(b) => match &**b {
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let a = self.op(&c.src, body);
                    let d = self.op(&c.dst, body);
                    let k = self.op(&c.count, body);
                    Some(J::A(vec![s("copy_nonoverlapping"), a, d, k, sp]))
                }
                _ => None,
            },
            _ => None,
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => n(b.as_u32() as i128),
            UnwindAction::Continue => s("continue"),
            UnwindAction::Unreachable => s("unreachable"),
            UnwindAction::Terminate(_) => s("terminate"),
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>) -> J {
        let sp = self.span(t.source_info.span);
        let bb = |b: BasicBlock| n(b.as_u32() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.op(discr, body);
                let ty = discr.ty(&body.local_decls, self.tcx);
                let tid = self.ty(ty);
                let mut a = vec![];
                for (v, b) in targets.iter() {
                    a.push(J::A(vec![n(v as i128), bb(b)]));
                }
                J::A(vec![s("switch"), d, J::A(a), bb(targets.otherwise()), n(tid as i128), sp])
            }
            TerminatorKind::Return => J::A(vec![s("return"), sp]),
            TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
            TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
            TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let p = self.place(place, body);
                J::A(vec![s("drop"), p, bb(*target), self.unwind(unwind), sp])
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = self.op(func, body);
                let a: Vec<J> = args.iter().map(|x| self.op(&x.node, body)).collect();
                let d = self.place(destination, body);
                J::A(vec![s("call"), f, J::A(a), d, target.map(bb).unwrap_or(J::Null), self.unwind(unwind), sp])
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let c = self.op(cond, body);
                let mut m: Vec<J> = vec![s(format!("{msg:?}").chars().take(60).collect::<String>())];
                if let AssertKind::BoundsCheck { len, index } = &**msg {
                    m = vec![s("bounds"), self.op(len, body), self.op(index, body)];
                }
                J::A(vec![s("assert"), c, J::B(*expected), J::A(m), bb(*target), self.unwind(unwind), sp])
            }
            TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bb(*real_target)]),
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let mut crate_name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            crate_name = w[1].clone();
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    rustc_driver::catch_with_exit_code(|| {
        if crate_name == want && !is_test && !out.is_empty() {
            let mut cb = Cb { out };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        } else {
            struct Nop;
            impl rustc_driver::Callbacks for Nop {}
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        }
    })
}
