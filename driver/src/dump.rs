use crate::json::{n, s, J};
use rustc_attr_ir::lang_items::LangItem;
use rustc_hir as hir;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArg, GenericArgsRef, GenericParamDefKind, Instance, InstanceKind,
    ShimKind, Ty, TyCtxt, TypingEnv,
};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum FnKey<'tcx> {
    /// monomorphic instance
    Inst(Instance<'tcx>),
    /// body of a promoted constant of an instance
    Promoted(Instance<'tcx>, u32),
    /// identity-generic body of a local item
    Poly(DefId),
    PolyPromoted(DefId, u32),
}

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<J>,
    fns: HashMap<FnKey<'tcx>, usize>,
    queue: VecDeque<(FnKey<'tcx>, usize)>,
    fn_out: BTreeMap<usize, J>,
    typing_env: TypingEnv<'tcx>,
    local_crate: String,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_resolve_crate_name!(with_no_trimmed_paths!(
        tcx.def_path_str(d)
    )))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp2 = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp2.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        J::A(vec![s(f), n(loc.line)])
    }

    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp2 = sp.source_callsite();
        n(sm.lookup_char_pos(sp2.lo()).line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let id = self.ty_id(t);
        n(id)
    }

    fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(self.ty(t));
            }
        }
        J::A(v)
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(J::Null);
        let tcx = self.tcx;
        let st = with_no_trimmed_paths!(format!("{t}"));
        let mut o: Vec<(&'static str, J)> = vec![("id", n(id)), ("str", s(st))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => {
                o.push(("k", s("int")));
                o.push(("signed", J::B(true)));
                o.push(("name", s(i.name_str())));
            }
            ty::Uint(i) => {
                o.push(("k", s("int")));
                o.push(("signed", J::B(false)));
                o.push(("name", s(i.name_str())));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(e);
                o.push(("elem", e));
            }
            ty::Array(e, c) => {
                o.push(("k", s("array")));
                let e = self.ty(e);
                o.push(("elem", e));
                if let Some(l) = c.try_to_target_usize(tcx) {
                    o.push(("len", n(l)));
                }
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let e = self.ty(e);
                o.push(("elem", e));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let e = self.ty(e);
                o.push(("elem", e));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("elems", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                if def.did().is_local() && !t.has_param_() {
                    // may values of this type be shared between / moved to other threads?
                    let (infcx, penv) =
                        tcx.infer_ctxt().build_with_typing_env(TypingEnv::fully_monomorphized());
                    let holds = |tr: Option<DefId>| {
                        tr.is_some_and(|d| {
                            infcx.type_implements_trait(d, [t], penv).must_apply_modulo_regions()
                        })
                    };
                    let sync = holds(tcx.lang_items().sync_trait());
                    let send = holds(tcx.get_diagnostic_item(rustc_span::sym::Send));
                    o.push(("sync", J::B(sync)));
                    o.push(("send", J::B(send)));
                    o.push(("freeze", J::B(t.is_freeze(tcx, TypingEnv::fully_monomorphized()))));
                }
                o.push((
                    "akind",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let ga = self.gargs(args);
                o.push(("args", ga));
                let p = path(tcx, def.did());
                let skip = p.starts_with("alloc::vec")
                    || p.starts_with("alloc::raw_vec")
                    || p.starts_with("alloc::string")
                    || p.starts_with("alloc::boxed")
                    || p.starts_with("std::collections")
                    || p.starts_with("hashbrown")
                    || p.starts_with("std::io")
                    || p.starts_with("core::ptr")
                    || p.starts_with("core::fmt");
                let mut vs = vec![];
                if !skip {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = tcx
                                .try_normalize_erasing_regions(self.typing_env, ft)
                                .unwrap_or(f.ty(tcx, args).skip_norm_wip());
                            let fty = self.ty(ft);
                            fs.push(J::O(vec![
                                ("name", s(f.name.as_str())),
                                ("ty", fty),
                                ("vis", s(format!("{:?}", f.vis))),
                            ]));
                        }
                        let discr = if def.is_enum() {
                            J::N(def.discriminant_for_variant(tcx, vi).val as i128)
                        } else {
                            n(0)
                        };
                        vs.push(J::O(vec![
                            ("name", s(v.name.as_str())),
                            ("discr", discr),
                            ("fields", J::A(fs)),
                        ]));
                    }
                }
                o.push(("variants", J::A(vs)));
                if !t.has_param_() {
                    let fr = t.is_freeze(tcx, self.typing_env);
                    o.push(("freeze", J::B(fr)));
                }
            }
            ty::Closure(did, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(path(tcx, did))));
                o.push(("ckind", s(format!("{:?}", args.as_closure().kind_ty().to_opt_closure_kind()))));
                let up = args.as_closure().upvar_tys();
                let v = up.iter().map(|x| self.ty(x)).collect();
                o.push(("upvars", J::A(v)));
                let has_param = t.has_param_();
                if !has_param {
                    let inst = Instance::new_raw(did, args);
                    let f = self.fn_id(FnKey::Inst(inst));
                    o.push(("body", n(f)));
                } else if did.is_local() {
                    let f = self.fn_id(FnKey::Poly(did));
                    o.push(("body", n(f)));
                }
            }
            ty::FnDef(did, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(path(tcx, did))));
                let args = args.skip_binder();
                let r = self.resolve(did, args, self.typing_env);
                o.push(("fn", r));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            _ => o.push(("k", s("other"))),
        }
        self.type_out[id] = J::O(o);
        id
    }

    fn fn_id(&mut self, k: FnKey<'tcx>) -> usize {
        if let Some(&i) = self.fns.get(&k) {
            return i;
        }
        let id = self.fns.len();
        self.fns.insert(k, id);
        self.queue.push_back((k, id));
        id
    }

    /// how is a call of (did, args) resolved?
    fn resolve(&mut self, did: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path(tcx, did)))];
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", s(path(tcx, tr))));
        }
        if let Some(nm) = tcx.opt_item_name(did) {
            o.push(("name", s(nm.as_str())));
        }
        let ga = self.gargs(args);
        o.push(("gargs", ga));
        o.push(("crate", s(tcx.crate_name(did.krate).as_str())));
        let ctor = matches!(tcx.def_kind(did), DefKind::Ctor(..));
        if ctor {
            o.push(("kind", s("ctor")));
            let (adt, vi) = self.ctor_info(did);
            o.push(("adt", s(adt)));
            o.push(("variant", n(vi)));
            return J::O(o);
        }
        match Instance::try_resolve(tcx, env, did, args) {
            Ok(Some(inst)) => match inst.def {
                InstanceKind::Item(rd) => {
                    o.push(("kind", s("item")));
                    o.push(("rpath", s(path(tcx, rd))));
                    o.push(("rcrate", s(tcx.crate_name(rd.krate).as_str())));
                    o.push(("rlocal", J::B(rd.is_local())));
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        o.push(("rself", s(with_no_trimmed_paths!(format!("{st}")))));
                    }
                    let mono = !inst.has_param_();
                    if mono {
                        if self.has_mir(rd) {
                            let f = self.fn_id(FnKey::Inst(inst));
                            o.push(("f", n(f)));
                        }
                    } else if rd.is_local() && self.has_mir(rd) {
                        let f = self.fn_id(FnKey::Poly(rd));
                        o.push(("f", n(f)));
                    }
                }
                InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => {
                    o.push(("kind", s("intrinsic")))
                }
                InstanceKind::Virtual(..) => o.push(("kind", s("virtual"))),
                InstanceKind::Shim(sh) => {
                    let k = match sh {
                        ShimKind::Clone(..) => "clone_shim",
                        ShimKind::ClosureOnce { .. } => "closure_once",
                        ShimKind::FnPtr(..) => "fnptr_shim",
                        ShimKind::DropGlue(..) => "drop",
                        _ => "shim",
                    };
                    o.push(("kind", s(k)));
                }
            },
            _ => o.push(("kind", s("unresolved"))),
        }
        J::O(o)
    }

    fn ctor_info(&self, did: DefId) -> (String, usize) {
        let tcx = self.tcx;
        let par = tcx.parent(did);
        match tcx.def_kind(par) {
            DefKind::Variant => {
                let adt = tcx.adt_def(tcx.parent(par));
                let vi = adt.variant_index_with_id(par);
                (path(tcx, adt.did()), vi.as_usize())
            }
            _ => (path(tcx, par), 0),
        }
    }

    fn has_mir(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        if tcx.intrinsic(d).is_some() {
            return false;
        }
        if !d.is_local() {
            // only generic/inlineable code of std's plain-data modules is worth dumping
            let p = path(tcx, d);
            let c = tcx.crate_name(d.krate);
            let c = c.as_str();
            if !(c == "core" || c == "alloc") {
                return false;
            }
            for bad in [
                "core::fmt", "alloc::fmt", "alloc::vec", "alloc::raw_vec", "core::slice::sort", "alloc::string",
                "alloc::alloc", "core::ptr", "core::panicking", "core::str::", "alloc::str", "alloc::boxed",
                "core::hash", "core::unicode", "core::num", "alloc::rc", "alloc::sync", "core::sync",
                "core::cell", "alloc::collections", "core::char", "core::intrinsics", "core::alloc", "core::mem",
                "core::slice::iter::macros",
            ] {
                if p.starts_with(bad) {
                    return false;
                }
            }
            return tcx.is_mir_available(d);
        }
        tcx.is_mir_available(d)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("idx"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("cidx"), n(offset), n(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("as"), n(v.as_usize())]),
                _ => J::A(vec![s("other")]),
            };
            pr.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        let t = self.ty(pt.ty);
        J::O(vec![("l", n(p.local.as_usize())), ("p", J::A(pr)), ("t", t)])
    }

    fn konst(&mut self, key: FnKey<'tcx>, env: TypingEnv<'tcx>, c: &Const<'tcx>, sp: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tj = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("o", s("const")), ("t", tj)];
        if let ty::FnDef(did, args) = *t.kind() {
            let args = args.skip_binder();
            let r = self.resolve(did, args, env);
            o.push(("fn", r));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let k = match key {
                    FnKey::Inst(i) if i.def_id() == u.def => Some(FnKey::Promoted(i, p.as_u32())),
                    FnKey::Poly(d) if d == u.def => Some(FnKey::PolyPromoted(d, p.as_u32())),
                    FnKey::Inst(_) => Some(FnKey::Promoted(Instance::new_raw(u.def, u.args), p.as_u32())),
                    _ => None,
                };
                if let Some(k) = k {
                    let f = self.fn_id(k);
                    o.push(("promoted", n(f)));
                }
                return J::O(o);
            } else {
                o.push(("cpath", s(path(tcx, u.def))));
                o.push(("clocal", J::B(u.def.is_local())));
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                    let d = inst.def_id();
                    o.push(("rcpath", s(path(tcx, d))));
                    if d.is_local() {
                        let f = if inst.has_param_() {
                            self.fn_id(FnKey::Poly(d))
                        } else {
                            self.fn_id(FnKey::Inst(inst))
                        };
                        o.push(("cbody", n(f)));
                    }
                }
            }
        }
        // try scalar / string
        if !c.has_param_() {
            if let Some(b) = c.try_eval_bits(tcx, env) {
                let v: i128 = match t.kind() {
                    ty::Int(it) => {
                        let bits = it.bit_width().unwrap_or(64) as u32;
                        let sh = 128 - bits;
                        ((b << sh) as i128) >> sh
                    }
                    _ => b as i128,
                };
                o.push(("v", J::N(v)));
                return J::O(o);
            }
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() {
                    if let Ok(cv) = c.eval(tcx, env, sp) {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                            return J::O(o);
                        }
                    }
                }
                // &[&str] constants (serde's VARIANTS / FIELDS tables)
            }
        }
        let dbg = with_no_trimmed_paths!(format!("{c}"));
        o.push(("dbg", s(dbg)));
        J::O(o)
    }

    fn operand(&mut self, key: FnKey<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(body, p);
                J::O(vec![("o", s("copy")), ("pl", p)])
            }
            Operand::Move(p) => {
                let p = self.place(body, p);
                J::O(vec![("o", s("move")), ("pl", p)])
            }
            Operand::Constant(c) => self.konst(key, env, &c.const_, c.span),
            _ => J::O(vec![("o", s("rtchecks"))]),
        }
    }

    fn rvalue(&mut self, key: FnKey<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> J {
        match rv {
            Rvalue::Use(op, ..) => {
                let a = self.operand(key, env, body, op);
                J::O(vec![("r", s("use")), ("a", a)])
            }
            Rvalue::Repeat(op, c) => {
                let a = self.operand(key, env, body, op);
                let l = c.try_to_target_usize(self.tcx).map(|x| n(x)).unwrap_or(J::Null);
                J::O(vec![("r", s("repeat")), ("a", a), ("n", l)])
            }
            Rvalue::Ref(_, k, p) => {
                let pl = self.place(body, p);
                let m = matches!(k, BorrowKind::Mut { .. });
                J::O(vec![("r", s("ref")), ("mut", J::B(m)), ("pl", pl)])
            }
            Rvalue::RawPtr(k, p) => {
                let pl = self.place(body, p);
                J::O(vec![("r", s("rawptr")), ("mut", s(format!("{k:?}"))), ("pl", pl)])
            }
            Rvalue::Reborrow(_, m, p) => {
                let pl = self.place(body, p);
                J::O(vec![("r", s("ref")), ("mut", J::B(m.is_mut())), ("pl", pl)])
            }
            Rvalue::Cast(k, op, t) => {
                let a = self.operand(key, env, body, op);
                let t = self.ty(*t);
                J::O(vec![("r", s("cast")), ("kind", s(format!("{k:?}"))), ("a", a), ("t", t)])
            }
            Rvalue::BinaryOp(b, ab) => {
                let x = self.operand(key, env, body, &ab.0);
                let y = self.operand(key, env, body, &ab.1);
                J::O(vec![("r", s("bin")), ("op", s(format!("{b:?}"))), ("a", x), ("b", y)])
            }
            Rvalue::UnaryOp(u, op) => {
                let a = self.operand(key, env, body, op);
                J::O(vec![("r", s("un")), ("op", s(format!("{u:?}"))), ("a", a)])
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(body, p);
                J::O(vec![("r", s("discr")), ("pl", pl)])
            }
            Rvalue::CopyForDeref(p) => {
                let pl = self.place(body, p);
                J::O(vec![("r", s("use")), ("a", J::O(vec![("o", s("copy")), ("pl", pl)]))])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|x| self.operand(key, env, body, x)).collect();
                let mut o: Vec<(&'static str, J)> = vec![("r", s("agg")), ("ops", J::A(v))];
                match **k {
                    AggregateKind::Array(t) => {
                        o.push(("ak", s("array")));
                        let t = self.ty(t);
                        o.push(("t", t));
                    }
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        o.push(("ak", s("adt")));
                        o.push(("adt", s(path(self.tcx, d))));
                        o.push(("v", n(v.as_usize())));
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args);
                        if let Ok(t) = self.tcx.try_normalize_erasing_regions(env, t) {
                            let t = self.ty(t);
                            o.push(("t", t));
                        }
                    }
                    AggregateKind::Closure(d, args) => {
                        o.push(("ak", s("closure")));
                        let t = Ty::new_closure(self.tcx, d, args);
                        let t = self.ty(t);
                        o.push(("t", t));
                    }
                    _ => o.push(("ak", s("other"))),
                }
                J::O(o)
            }
            other => J::O(vec![("r", s("other")), ("dbg", s(format!("{other:?}")))]),
        }
    }

    fn body(&mut self, key: FnKey<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![n(p.local.as_usize()), s(v.name.as_str())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            if !bb.is_cleanup {
                for x in &bb.statements {
                    match &x.kind {
                        StatementKind::Assign(b) => {
                            let pl = self.place(body, &b.0);
                            let rv = self.rvalue(key, env, body, &b.1);
                            let ln = self.line(x.source_info.span);
                            st.push(J::A(vec![s("="), pl, rv, ln]));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let pl = self.place(body, place);
                            st.push(J::A(vec![s("setdiscr"), pl, n(variant_index.as_usize())]));
                        }
                        _ => {}
                    }
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![];
            if bb.is_cleanup {
                o.push(("k", s("cleanup")));
            } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => {
                        o.push(("k", s("goto")));
                        o.push(("to", n(target.as_usize())));
                    }
                    TerminatorKind::SwitchInt { discr, targets } => {
                        o.push(("k", s("switch")));
                        let d = self.operand(key, env, body, discr);
                        o.push(("d", d));
                        let v = targets
                            .iter()
                            .map(|(v, t)| J::A(vec![J::N(v as i128), n(t.as_usize())]))
                            .collect();
                        o.push(("targets", J::A(v)));
                        o.push(("else", n(targets.otherwise().as_usize())));
                    }
                    TerminatorKind::Return => o.push(("k", s("return"))),
                    TerminatorKind::Drop { place, target, .. } => {
                        o.push(("k", s("drop")));
                        let p = self.place(body, place);
                        o.push(("pl", p));
                        o.push(("to", n(target.as_usize())));
                    }
                    TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                        o.push(("k", s("call")));
                        let f = self.operand(key, env, body, func);
                        o.push(("f", f));
                        let a = args.iter().map(|x| self.operand(key, env, body, &x.node)).collect();
                        o.push(("args", J::A(a)));
                        let d = self.place(body, destination);
                        o.push(("dest", d));
                        o.push(("to", target.map(|t| n(t.as_usize())).unwrap_or(J::Null)));
                        let l = self.line(*fn_span);
                        o.push(("cline", l));
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        o.push(("k", s("assert")));
                        let c = self.operand(key, env, body, cond);
                        o.push(("c", c));
                        o.push(("exp", J::B(*expected)));
                        o.push(("to", n(target.as_usize())));
                        let (mk, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                            AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                            AssertKind::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![a, b]),
                            AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                            AssertKind::DivisionByZero(a) => ("div0".into(), vec![a]),
                            AssertKind::RemainderByZero(a) => ("rem0".into(), vec![a]),
                            _ => ("other".into(), vec![]),
                        };
                        o.push(("msg", s(mk)));
                        let v = ops.iter().map(|x| self.operand(key, env, body, x)).collect();
                        o.push(("mops", J::A(v)));
                    }
                    TerminatorKind::FalseEdge { real_target, .. } => {
                        o.push(("k", s("goto")));
                        o.push(("to", n(real_target.as_usize())));
                    }
                    TerminatorKind::FalseUnwind { real_target, .. } => {
                        o.push(("k", s("goto")));
                        o.push(("to", n(real_target.as_usize())));
                    }
                    TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                    other => {
                        o.push(("k", s("other")));
                        o.push(("dbg", s(format!("{other:?}"))));
                    }
                }
            }
            o.push(("ln", ln));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(o))]));
        }
        vec![
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map(|x| n(x.as_usize())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }

    fn fn_header(&mut self, d: DefId, args: Option<GenericArgsRef<'tcx>>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(path(tcx, d))));
        o.push(("crate", s(tcx.crate_name(d.krate).as_str())));
        o.push(("local", J::B(d.is_local())));
        o.push(("dk", s(format!("{:?}", tcx.def_kind(d)))));
        if let Some(nm) = tcx.opt_item_name(d) {
            o.push(("name", s(nm.as_str())));
        }
        let sp = tcx.def_span(d);
        let spj = self.span(sp);
        o.push(("span", spj));
        o.push(("expn", J::B(sp.from_expansion())));
        let mut owner = d;
        while tcx.is_closure_like(owner) {
            owner = tcx.parent(owner);
        }
        o.push(("owner", s(path(tcx, owner))));
        if let Some(im) = tcx.impl_of_assoc(owner) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("self_ty", s(with_no_trimmed_paths!(format!("{st}")))));
            if tcx.impl_opt_trait_ref_(im).is_some() {
                let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                o.push(("trait", s(path(tcx, tr.def_id))));
                let ta = self.gargs(tr.args);
                o.push(("trait_args", ta));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(owner) {
            o.push(("in_trait", s(path(tcx, tr))));
        }
        if let Some(l) = d.as_local() {
            let ev = tcx.effective_visibilities(());
            o.push(("exported", J::B(ev.is_reachable(l))));
        }
        if let Some(a) = args {
            let g = self.gargs(a);
            o.push(("gargs", g));
        }
        o
    }

    fn process(&mut self, key: FnKey<'tcx>, id: usize) {
        let tcx = self.tcx;
        let mono = TypingEnv::fully_monomorphized();
        match key {
            FnKey::Inst(inst) => {
                let d = inst.def_id();
                let b = tcx.instance_mir(inst.def);
                let body = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    mono,
                    EarlyBinder::bind(tcx, b.clone()),
                );
                self.typing_env = mono;
                let mut o = vec![("id", n(id)), ("mode", s("mono"))];
                o.extend(self.fn_header(d, Some(inst.args)));
                o.extend(self.body(key, mono, &body));
                self.fn_out.insert(id, J::O(o));
            }
            FnKey::Promoted(inst, p) => {
                let d = inst.def_id();
                let pm = tcx.promoted_mir(d);
                let b = &pm[rustc_middle::mir::Promoted::from_u32(p)];
                let body = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    mono,
                    EarlyBinder::bind(tcx, b.clone()),
                );
                self.typing_env = mono;
                let mut o = vec![("id", n(id)), ("mode", s("promoted"))];
                o.extend(self.fn_header(d, Some(inst.args)));
                o.extend(self.body(key, mono, &body));
                self.fn_out.insert(id, J::O(o));
            }
            FnKey::Poly(d) | FnKey::PolyPromoted(d, _) => {
                let env = TypingEnv::new(tcx.param_env(d), ty::TypingMode::PostAnalysis);
                let body: Body<'tcx> = match key {
                    FnKey::PolyPromoted(_, p) => {
                        tcx.promoted_mir(d)[rustc_middle::mir::Promoted::from_u32(p)].clone()
                    }
                    _ => tcx.instance_mir(InstanceKind::Item(d)).clone(),
                };
                self.typing_env = env;
                let mut o = vec![("id", n(id)), ("mode", s("poly"))];
                o.extend(self.fn_header(d, None));
                o.extend(self.body(key, env, &body));
                self.typing_env = mono;
                self.fn_out.insert(id, J::O(o));
            }
        }
    }

    fn drain(&mut self) {
        while let Some((k, id)) = self.queue.pop_front() {
            self.process(k, id);
        }
    }

    /// pick concrete types for the generic parameters of a local item
    fn choose_args(&mut self, d: DefId, range_choice: usize) -> Option<(GenericArgsRef<'tcx>, bool)> {
        let tcx = self.tcx;
        let generics = tcx.generics_of(d);
        if generics.count() == 0 {
            return Some((ty::GenericArgs::empty(), false));
        }
        let lc = self.local_crate.clone();
        let find_adt = |suffix: &str| -> Option<Ty<'tcx>> {
            for id in tcx.hir_crate_items(()).definitions() {
                let dk = tcx.def_kind(id.to_def_id());
                if matches!(dk, DefKind::Struct | DefKind::Enum) {
                    let p = path(tcx, id.to_def_id());
                    if p == format!("{lc}::{suffix}") {
                        let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                        return Some(t);
                    }
                }
            }
            None
        };
        // which concrete type implements local trait T?
        let impl_self = |trait_path: &str| -> Option<Ty<'tcx>> {
            for id in tcx.hir_crate_items(()).definitions() {
                if let DefKind::Impl { of_trait: true } = tcx.def_kind(id.to_def_id()) {
                    let tr = tcx.impl_trait_ref(id.to_def_id()).instantiate_identity().skip_norm_wip();
                    if path(tcx, tr.def_id) == trait_path {
                        let t = tr.self_ty();
                        if !t.has_param_() {
                            return Some(t);
                        }
                    }
                }
            }
            None
        };
        let mut chosen: HashMap<u32, Ty<'tcx>> = HashMap::new();
        let mut used_range = false;
        // all predicates incl. parents
        let preds = tcx.clauses_of(d).instantiate_identity(tcx);
        let mut bounds: HashMap<u32, Vec<ty::TraitRef<'tcx>>> = HashMap::new();
        for p in preds.clauses.iter() {
            if let ty::ClauseKind::Trait(tp) = tcx.instantiate_bound_regions_with_erased(p.skip_norm_wip().kind()) {
                if let ty::Param(pp) = tp.trait_ref.self_ty().kind() {
                    bounds.entry(pp.index).or_default().push(tp.trait_ref);
                }
            }
        }
        let mut params: Vec<(u32, GenericParamDefKind)> = vec![];
        let mut g = Some(generics);
        while let Some(gg) = g {
            for p in gg.own_params.iter() {
                params.push((p.index, p.kind.clone()));
            }
            g = gg.parent.map(|x| tcx.generics_of(x));
        }
        params.sort_by_key(|x| x.0);
        // a provided method of a local trait: Self (and the trait's own parameters) come from the
        // trait's first concrete implementation
        if let Some(par) = generics.parent {
            if tcx.def_kind(par) == DefKind::Trait {
                for id in tcx.hir_crate_items(()).definitions() {
                    if let DefKind::Impl { of_trait: true } = tcx.def_kind(id.to_def_id()) {
                        let tr = tcx.impl_trait_ref(id.to_def_id()).instantiate_identity().skip_norm_wip();
                        if tr.def_id == par && !tr.has_param_() {
                            for (i, a) in tr.args.iter().enumerate() {
                                if let Some(t) = a.as_type() {
                                    chosen.insert(i as u32, t);
                                }
                            }
                            break;
                        }
                    }
                }
            }
        }
        for pass in 0..3 {
            for (idx, k) in &params {
                if !matches!(k, GenericParamDefKind::Type { .. }) || chosen.contains_key(idx) {
                    continue;
                }
                let bs = bounds.get(idx).cloned().unwrap_or_default();
                let mut pick: Option<Ty<'tcx>> = None;
                for b in &bs {
                    let tp = path(tcx, b.def_id);
                    if b.def_id.is_local() {
                        if let Some(t) = impl_self(&tp) {
                            pick = Some(t);
                            break;
                        }
                    }
                    if tp.ends_with("::RangeBounds") {
                        used_range = true;
                        if range_choice == 5 {
                            // a pair of bounds: the only range with an excluded start
                            let sb = tcx
                                .associated_items(b.def_id)
                                .in_definition_order()
                                .find(|i| i.is_fn() && i.name().as_str() == "start_bound");
                            let bound = sb.and_then(|i| {
                                let sig = tcx.fn_sig(i.def_id).instantiate_identity().skip_norm_wip();
                                match sig.skip_binder().output().kind() {
                                    ty::Adt(a, _) => Some(*a),
                                    _ => None,
                                }
                            });
                            if let Some(a) = bound {
                                let x = Ty::new_adt(tcx, a, tcx.mk_args(&[GenericArg::from(tcx.types.usize)]));
                                pick = Some(Ty::new_tup(tcx, &[x, x]));
                                break;
                            }
                            return None;
                        }
                        let li = ["Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive"][range_choice];
                        let item = match li {
                            "Range" => LangItem::Range,
                            "RangeFrom" => LangItem::RangeFrom,
                            "RangeTo" => LangItem::RangeTo,
                            "RangeFull" => LangItem::RangeFull,
                            _ => LangItem::RangeInclusiveStruct,
                        };
                        let did = tcx.require_lang_item(item, rustc_span::DUMMY_SP);
                        let t = if li == "RangeFull" {
                            Ty::new_adt(tcx, tcx.adt_def(did), ty::GenericArgs::empty())
                        } else {
                            Ty::new_adt(
                                tcx,
                                tcx.adt_def(did),
                                tcx.mk_args(&[GenericArg::from(tcx.types.usize)]),
                            )
                        };
                        pick = Some(t);
                        break;
                    }
                    if tp.ends_with("::Into") && pass >= 1 {
                        // Into<X>: choose X itself (after substitution of the already chosen)
                        let x = b.args.type_at(1);
                        let partial = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                            GenericParamDefKind::Type { .. } => match chosen.get(&p.index) {
                                Some(t) => GenericArg::from(*t),
                                None => tcx.mk_param_from_def(p),
                            },
                            GenericParamDefKind::Lifetime => GenericArg::from(tcx.lifetimes.re_erased),
                            _ => tcx.mk_param_from_def(p),
                        });
                        let x = EarlyBinder::bind(tcx, x).instantiate(tcx, partial);
                        if let Ok(x) = tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), x) {
                            if !x.has_param_() {
                                pick = Some(x);
                                break;
                            }
                        }
                    }
                    if tp == "serde_core::ser::Serializer" || tp == "serde::ser::Serializer" {
                        return None;
                    }
                    if tp.ends_with("Deserializer") || tp.ends_with("::Hasher") || tp.contains("::de::") {
                        return None;
                    }
                    if tp.ends_with("::Fn") || tp.ends_with("::FnOnce") || tp.ends_with("::FnMut") {
                        // a callback: an opaque function pointer of the same signature
                        if pass == 0 {
                            continue;
                        }
                        let partial = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                            GenericParamDefKind::Type { .. } => match chosen.get(&p.index) {
                                Some(t) => GenericArg::from(*t),
                                None => tcx.mk_param_from_def(p),
                            },
                            GenericParamDefKind::Lifetime => GenericArg::from(tcx.lifetimes.re_erased),
                            _ => tcx.mk_param_from_def(p),
                        });
                        let mut ins = b.args.type_at(1);
                        let mut out = None;
                        for p in preds.clauses.iter() {
                            if let ty::ClauseKind::Projection(pp) =
                                tcx.instantiate_bound_regions_with_erased(p.skip_norm_wip().kind())
                            {
                                if pp.projection_term.self_ty() == b.self_ty() {
                                    out = pp.term.as_type();
                                }
                            }
                        }
                        let mut out = out?;
                        let fix = |t: Ty<'tcx>| {
                            let t = EarlyBinder::bind(tcx, t).instantiate(tcx, partial);
                            tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), t).ok()
                        };
                        ins = fix(ins)?;
                        out = fix(out)?;
                        let ty::Tuple(ts) = ins.kind() else { return None };
                        pick = Some(Ty::new_fn_ptr(
                            tcx,
                            ty::Binder::dummy(tcx.mk_fn_sig_safe_rust_abi(ts.iter(), out)),
                        ));
                        break;
                    }
                }
                if pick.is_none() && pass == 2 {
                    pick = find_adt("markdown::attrs::LinkAttrs");
                }
                if let Some(t) = pick {
                    chosen.insert(*idx, t);
                }
            }
        }
        let mut ok = true;
        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            GenericParamDefKind::Type { .. } => match chosen.get(&p.index) {
                Some(t) => GenericArg::from(*t),
                None => {
                    ok = false;
                    tcx.mk_param_from_def(p)
                }
            },
            GenericParamDefKind::Lifetime => GenericArg::from(tcx.lifetimes.re_erased),
            _ => {
                ok = false;
                tcx.mk_param_from_def(p)
            }
        });
        if ok {
            Some((args, used_range))
        } else {
            None
        }
    }
}

trait HasParam {
    fn has_param_(&self) -> bool;
}
impl<'tcx, T: rustc_middle::ty::TypeVisitableExt<TyCtxt<'tcx>>> HasParam for T {
    fn has_param_(&self) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        TypeVisitableExt::has_param(self)
    }
}
trait OptTr {
    fn impl_opt_trait_ref_(&self, d: DefId) -> Option<()>;
}
impl<'tcx> OptTr for TyCtxt<'tcx> {
    fn impl_opt_trait_ref_(&self, d: DefId) -> Option<()> {
        if let DefKind::Impl { of_trait: true } = self.def_kind(d) {
            Some(())
        } else {
            None
        }
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(Span, String)>,
}
impl<'tcx> hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            if matches!(src, hir::UnsafeSource::UserProvided) {
                self.out.push((b.span, "unsafe block".into()));
            }
        }
        hir::intravisit::walk_block(self, b);
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> J {
    let local_crate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str().to_string();
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_out: vec![],
        fns: HashMap::new(),
        queue: VecDeque::new(),
        fn_out: BTreeMap::new(),
        typing_env: TypingEnv::fully_monomorphized(),
        local_crate,
    };
    let mono = TypingEnv::fully_monomorphized();
    let mut items = vec![];
    let mut adts = vec![];
    let mut statics = vec![];
    let mut impls = vec![];
    let all: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
    let mut all = all;
    all.sort_by_key(|d| d.local_def_index);
    for ld in &all {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        match dk {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let def = tcx.adt_def(d);
                let mut fs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(J::A(vec![
                            n(vi.as_usize()),
                            s(f.name.as_str()),
                            s(with_no_trimmed_paths!(format!("{ft}"))),
                            J::B(f.vis.is_public() || def.is_enum()),
                        ]));
                    }
                }
                let env = TypingEnv::new(tcx.param_env(d), ty::TypingMode::PostAnalysis);
                // `Freeze` of every field type that does not depend on parameters; a parameter is the
                // schema's business
                let sp = cx.span(tcx.def_span(d));
                let mut nofreeze = vec![];
                for v in def.variants().iter() {
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let has_cell = type_mentions_cell(tcx, ft);
                        let fz = ft.has_param_() || ft.is_freeze(tcx, env);
                        if has_cell || !fz {
                            nofreeze.push(s(f.name.as_str()));
                        }
                    }
                }
                let ev = tcx.effective_visibilities(());
                adts.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    ("ty", s(with_no_trimmed_paths!(format!("{t}")))),
                    ("fields", J::A(fs)),
                    ("nofreeze", J::A(nofreeze)),
                    ("span", sp),
                    ("exported", J::B(ev.is_reachable(*ld))),
                ]));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = TypingEnv::new(tcx.param_env(d), ty::TypingMode::PostAnalysis);
                let sp = cx.span(tcx.def_span(d));
                statics.push(J::O(vec![
                    ("path", s(path(tcx, d))),
                    ("mut", J::B(mutability.is_mut())),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                    ("ty", s(with_no_trimmed_paths!(format!("{t}")))),
                    ("span", sp),
                    ("thread_local", J::B(tcx.is_thread_local_static(d))),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o: Vec<(&'static str, J)> =
                    vec![("self", s(with_no_trimmed_paths!(format!("{t}"))))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(path(tcx, tr.def_id))));
                    o.push(("full", s(with_no_trimmed_paths!(format!("{tr}")))));
                }
                let sp = tcx.def_span(d);
                o.push(("expn", J::B(sp.from_expansion())));
                let spj = cx.span(sp);
                o.push(("span", spj));
                impls.push(J::O(o));
            }
            DefKind::Fn | DefKind::AssocFn => {
                if !tcx.is_mir_available(d) {
                    // required trait methods
                    continue;
                }
                let poly = cx.fn_id(FnKey::Poly(d));
                let mut insts = vec![];
                for rc in 0..6 {
                    if let Some((args, used_range)) = cx.choose_args(d, rc) {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, mono, d, args) {
                            if let InstanceKind::Item(_) = inst.def {
                                let f = cx.fn_id(FnKey::Inst(inst));
                                insts.push(J::A(vec![n(rc), n(f)]));
                            }
                        }
                        if !used_range {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                let mut o: Vec<(&'static str, J)> = vec![("poly", n(poly)), ("insts", J::A(insts))];
                o.extend(cx.fn_header(d, None));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                o.push(("sig", s(with_no_trimmed_paths!(format!("{sig}")))));
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
                items.push(J::O(o));
            }
            _ => {}
        }
    }
    cx.drain();
    let mut uf = UnsafeFinder { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut uf);
    let mut uns = vec![];
    for (sp, w) in uf.out {
        let spj = cx.span(sp);
        uns.push(J::O(vec![("span", spj), ("what", s(w)), ("expn", J::B(sp.from_expansion()))]));
    }
    let fns: Vec<J> = std::mem::take(&mut cx.fn_out).into_values().collect();
    J::O(vec![
        ("crate", s(cx.local_crate.clone())),
        ("items", J::A(items)),
        ("adts", J::A(adts)),
        ("statics", J::A(statics)),
        ("impls", J::A(impls)),
        ("unsafe", J::A(uns)),
        ("fns", J::A(fns)),
        ("types", J::A(std::mem::take(&mut cx.type_out))),
    ])
}

fn type_mentions_cell<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    for a in t.walk() {
        if let Some(x) = a.as_type() {
            if let ty::Adt(def, _) = x.kind() {
                let p = path(tcx, def.did());
                if p.starts_with("core::cell")
                    || p.starts_with("core::sync")
                    || p.starts_with("std::sync")
                    || p.starts_with("alloc::sync")
                    || p.starts_with("alloc::rc")
                    || p.starts_with("std::thread")
                {
                    return true;
                }
            }
            if matches!(x.kind(), ty::RawPtr(..)) {
                return true;
            }
        }
    }
    false
}
