//! `mirdump`: a rustc driver that behaves as plain rustc for every crate except `async_io`, for
//! which it writes the drop-elaborated, type-checked MIR (with resolved callees), together with the
//! bodies of the small `core` helpers the analysis inlines, as JSON to $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

/// Print definition paths (never re-export paths, which depend on what else is imported).
macro_rules! npath {
    ($e:expr) => {
        with_no_visible_paths!(with_no_trimmed_paths!($e))
    };
}

struct Dump {
    out: String,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Value>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
}

/// Library functions whose MIR is exported so that the analysis can look through them.
fn opaque_def(t: Ty<'_>) -> Option<DefId> {
    match t.kind() {
        ty::Alias(_, a) => match a.kind {
            ty::AliasTyKind::Opaque { def_id } => Some(def_id),
            _ => None,
        },
        _ => None,
    }
}

fn inline_external(path: &str) -> bool {
    const P: &[&str] = &[
        "core::option::Option::",
        "core::result::Result::",
        "core::ops::control_flow::ControlFlow::",
        "core::task::poll::Poll::",
        "core::bool::<impl bool>::",
        "<core::option::Option",
        "<core::result::Result",
        "<core::task::poll::Poll",
        "<core::ops::control_flow::ControlFlow",
    ];
    P.iter().any(|p| path.starts_with(p))
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        npath!(self.tcx.def_path_str(d))
    }

    /// A unique key for a body.
    fn key(&self, d: DefId) -> String {
        let p = self.path(d);
        if self.tcx.is_closure_like(d) {
            // closures: append the def path's disambiguators
            return self.tcx.def_path(d).to_string_no_crate_verbose();
        }
        p
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(Value::Null);
        self.type_ids.insert(t, i);
        let tcx = self.tcx;
        let s = npath!(t.to_string());
        let mut m = Map::new();
        m.insert("s".into(), json!(s));
        match t.kind() {
            ty::Adt(def, args) => {
                let path = self.path(def.did());
                m.insert("k".into(), json!("adt"));
                m.insert("path".into(), json!(path));
                let a: Vec<usize> = args.types().map(|x| self.ty(x)).collect();
                m.insert("args".into(), json!(a));
                if path == "std::thread::local::LocalKey" {
                    let x = args.type_at(0);
                    m.insert("keynd".into(), json!(x.needs_drop(tcx, ty::TypingEnv::fully_monomorphized())));
                }
                let expand = def.did().is_local()
                    || matches!(
                        path.as_str(),
                        "core::option::Option"
                            | "core::result::Result"
                            | "core::task::poll::Poll"
                            | "core::ops::control_flow::ControlFlow"
                            | "polling::Event"
                            | "core::pin::Pin"
                    );
                if expand {
                    let mut vs = vec![];
                    for v in def.variants().iter() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = f.ty(tcx, args).skip_norm_wip();
                            fs.push(json!([f.name.to_string(), self.ty(fty)]));
                        }
                        vs.push(json!({"name": v.name.to_string(), "fields": fs,
                            "vis": v.fields.iter().map(|f| f.vis.is_public()).collect::<Vec<_>>()}));
                    }
                    m.insert("variants".into(), json!(vs));
                }
                m.insert("local".into(), json!(def.did().is_local()));
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    if d.did.is_local() {
                        self.enqueue(d.did);
                        m.insert("drop".into(), json!(self.key(d.did)));
                    } else {
                        m.insert("xdrop".into(), json!(self.path(d.did)));
                    }
                }
                m.insert(
                    "kind".into(),
                    json!(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }),
                );
            }
            ty::Ref(_, inner, mutbl) => {
                m.insert("k".into(), json!("ref"));
                m.insert("mut".into(), json!(mutbl.is_mut()));
                let x = self.ty(*inner);
                m.insert("args".into(), json!([x]));
            }
            ty::RawPtr(inner, _) => {
                m.insert("k".into(), json!("ptr"));
                let x = self.ty(*inner);
                m.insert("args".into(), json!([x]));
            }
            ty::Tuple(ts) => {
                m.insert("k".into(), json!("tuple"));
                let a: Vec<usize> = ts.iter().map(|x| self.ty(x)).collect();
                m.insert("args".into(), json!(a));
            }
            ty::Array(e, n) => {
                m.insert("k".into(), json!("array"));
                let x = self.ty(*e);
                m.insert("args".into(), json!([x]));
                m.insert("len".into(), json!(n.try_to_target_usize(tcx)));
            }
            ty::Slice(e) => {
                m.insert("k".into(), json!("slice"));
                let x = self.ty(*e);
                m.insert("args".into(), json!([x]));
            }
            ty::Closure(d, args) => {
                m.insert("k".into(), json!("closure"));
                m.insert("key".into(), json!(self.key(*d)));
                self.enqueue(*d);
                let a: Vec<usize> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                m.insert("args".into(), json!(a));
                m.insert("ckind".into(), json!(format!("{:?}", args.as_closure().kind())));
            }
            ty::Coroutine(d, args) => {
                m.insert("k".into(), json!("coroutine"));
                m.insert("key".into(), json!(self.key(*d)));
                self.enqueue(*d);
                let a: Vec<usize> = args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x)).collect();
                m.insert("args".into(), json!(a));
            }
            ty::FnDef(d, _) => {
                m.insert("k".into(), json!("fndef"));
                m.insert("path".into(), json!(self.path(*d)));
                m.insert("key".into(), json!(self.key(*d)));
                self.enqueue(*d);
            }
            ty::Param(p) => {
                m.insert("k".into(), json!("param"));
                m.insert("name".into(), json!(p.name.to_string()));
            }
            ty::Dynamic(..) => {
                m.insert("k".into(), json!("dyn"));
            }
            ty::Alias(..) => {
                m.insert("k".into(), json!("alias"));
                if let Some(d) = opaque_def(t) {
                    m.insert("k".into(), json!("opaque"));
                    let cs: Vec<ty::Clause<'tcx>> =
                        tcx.item_bounds(d).instantiate_identity().skip_norm_wip().iter().collect();
                    let b = self.clauses(cs);
                    m.insert("bounds".into(), json!(b));
                }
            }
            ty::FnPtr(..) => {
                m.insert("k".into(), json!("fnptr"));
            }
            _ => {
                m.insert("k".into(), json!("prim"));
            }
        }
        self.types[i] = Value::Object(m);
        i
    }

    fn clauses(&mut self, cs: Vec<ty::Clause<'tcx>>) -> Vec<Value> {
        let tcx = self.tcx;
        let mut out = vec![];
        for c in cs {
            match c.kind().skip_binder() {
                ty::ClauseKind::Trait(p) => {
                    let a: Vec<usize> = p.trait_ref.args.types().map(|x| self.ty(x)).collect();
                    out.push(json!({"trait": self.path(p.trait_ref.def_id), "args": a}));
                }
                ty::ClauseKind::Projection(p) => {
                    let pt = p.projection_term;
                    let a: Vec<usize> = pt.args.types().map(|x| self.ty(x)).collect();
                    let term = p.term.as_type().map(|x| self.ty(x));
                    let tr = pt.trait_def_id(tcx);
                    out.push(json!({"trait": self.path(tr), "proj": true, "args": a, "term": term}));
                }
                _ => {}
            }
        }
        out
    }

    fn preds(&mut self, d: DefId) -> Vec<Value> {
        let cs: Vec<ty::Clause<'tcx>> = self
            .tcx
            .clauses_of(d)
            .instantiate_identity(self.tcx)
            .clauses
            .into_iter()
            .map(|x| x.skip_norm_wip())
            .collect();
        self.clauses(cs)
    }

    fn enqueue(&mut self, d: DefId) {
        if self.seen.contains(&d) {
            return;
        }
        let tcx = self.tcx;
        if !matches!(
            tcx.def_kind(d),
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure
        ) {
            return;
        }
        if d.is_local() {
            if !tcx.is_mir_available(d) {
                return;
            }
        } else {
            if !inline_external(&self.path(d)) || !tcx.is_mir_available(d) {
                return;
            }
        }
        self.seen.insert(d);
        self.queue.push_back(d);
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        let f = f.rsplit("/repo/").next().unwrap_or("").to_string();
        format!("{}:{}", f, loc.line)
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>) -> Value {
        let tcx = self.tcx;
        match s {
            Scalar::Int(i) => {
                if t.is_bool() {
                    return json!({"bool": i.try_to_bool().unwrap_or(false)});
                }
                if t.is_integral() || t.is_char() {
                    let bits = i.to_bits(i.size());
                    if t.is_signed() {
                        let v = i.size().sign_extend(bits);
                        return json!({"int": v.to_string()});
                    }
                    return json!({"int": bits.to_string()});
                }
                json!({"opaque": format!("{:?}", i)})
            }
            Scalar::Ptr(p, _) => {
                let id = p.provenance.alloc_id();
                match tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Static(d)) => json!({"static": self.path(d)}),
                    Some(GlobalAlloc::Function { instance }) => {
                        json!({"fnptr": self.path(instance.def_id())})
                    }
                    Some(GlobalAlloc::Memory(_)) => {
                        // reference to constant data: describe the pointee if we can
                        if let Some(inner) = t.builtin_deref(true) {
                            if let ty::Array(..) | ty::Adt(..) | ty::Tuple(..) | ty::Uint(..) | ty::Int(..) | ty::Bool =
                                inner.kind()
                            {
                                let cv = ConstValue::Indirect {
                                    alloc_id: id,
                                    offset: p.prov_and_relative_offset().1,
                                };
                                let v = self.const_value(cv, inner);
                                return json!({"refto": v});
                            }
                        }
                        json!({"opaque": "mem"})
                    }
                    _ => json!({"opaque": "ptr"}),
                }
            }
        }
    }

    fn const_value(&mut self, cv: ConstValue, t: Ty<'tcx>) -> Value {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(def, _) if !def.is_union() => {
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    let mut fs = vec![];
                    for (v, fty) in dc.fields.iter() {
                        let x = self.const_value(*v, *fty);
                        fs.push(x);
                    }
                    let path = self.path(def.did());
                    let tyid = self.ty(t);
                    return json!({"agg": path, "ty": tyid, "variant": dc.variant.map(|v| v.as_usize()).unwrap_or(0), "fields": fs});
                }
                json!({"opaque": "adt"})
            }
            ty::Tuple(ts) if ts.is_empty() => json!({"unit": true}),
            ty::Tuple(..) | ty::Array(..) => {
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    let mut fs = vec![];
                    for (v, fty) in dc.fields.iter() {
                        let x = self.const_value(*v, *fty);
                        fs.push(x);
                    }
                    return json!({"agg": if t.is_array() {"array"} else {"tuple"}, "variant": 0, "fields": fs});
                }
                json!({"opaque": "tuple"})
            }
            ty::Pat(..) => json!({"opaque": "pat"}),
            _ => match cv {
                ConstValue::Scalar(s) => self.scalar(s, t),
                ConstValue::ZeroSized => json!({"zst": npath!(t.to_string())}),
                ConstValue::Slice { .. } => {
                    if t.peel_refs().is_str() {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            return json!({"str": String::from_utf8_lossy(b)});
                        }
                    }
                    json!({"opaque": "slice"})
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let Some(s) = cv.try_to_scalar() {
                        return self.scalar(s, t);
                    }
                    // integers and thin references in memory
                    let thin = match t.kind() {
                        ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => Some((t.primitive_size(tcx), false)),
                        ty::Ref(_, x, _) if matches!(x.kind(), ty::Array(..) | ty::Adt(..) | ty::Tuple(..) | ty::Uint(..) | ty::Int(..) | ty::Bool) && x.is_sized(tcx, TypingEnv::fully_monomorphized()) => {
                            Some((tcx.data_layout.pointer_size(), true))
                        }
                        _ => None,
                    };
                    if let (Some((size, prov)), Some(GlobalAlloc::Memory(m))) = (thin, tcx.try_get_global_alloc(alloc_id)) {
                        let range = rustc_middle::mir::interpret::AllocRange { start: offset, size };
                        if let Ok(s) = m.inner().read_scalar(&tcx, range, prov) {
                            return self.scalar(s, t);
                        }
                    }
                    // integers inside an aggregate
                    if t.is_integral() || t.is_bool() {
                        if let Some(si) = cv.try_to_scalar_int() {
                            return self.scalar(Scalar::Int(si), t);
                        }
                    }
                    json!({"opaque": "indirect"})
                }
            },
        }
    }

    fn fn_info(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, te: TypingEnv<'tcx>) -> Value {
        let tcx = self.tcx;
        let mut m = Map::new();
        m.insert("path".into(), json!(self.path(d)));
        m.insert("key".into(), json!(self.key(d)));
        let a: Vec<usize> = args.types().map(|x| self.ty(x)).collect();
        m.insert("args".into(), json!(a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            m.insert("trait".into(), json!(self.path(tr)));
            m.insert("name".into(), json!(tcx.item_name(d).to_string()));
        } else if let Some(n) = tcx.opt_item_name(d) {
            m.insert("name".into(), json!(n.to_string()));
        }
        self.enqueue(d);
        let args_e = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, args_e) {
            let rd = inst.def_id();
            m.insert("res".into(), json!(self.key(rd)));
            m.insert("respath".into(), json!(self.path(rd)));
            m.insert("reslocal".into(), json!(rd.is_local()));
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                _ => "shim",
            };
            m.insert("reskind".into(), json!(kind));
            self.enqueue(rd);
        }
        m.insert("local".into(), json!(d.is_local()));
        json!(m)
    }

    fn constant(&mut self, c: &Const<'tcx>, te: TypingEnv<'tcx>) -> Value {
        let tcx = self.tcx;
        let t = c.ty();
        let mut m = Map::new();
        let tid = self.ty(t);
        m.insert("ty".into(), json!(tid));
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fn_info(*d, args.skip_binder(), te);
            m.insert("fn".into(), f);
            return json!(m);
        }
        if let Const::Unevaluated(u, _) = c {
            m.insert("def".into(), json!(self.path(u.def)));
            if let Some(p) = u.promoted {
                m.insert("promoted".into(), json!(p.as_usize()));
                m.insert("owner".into(), json!(self.key(u.def)));
            }
        }
        let has_param = {
            use rustc_middle::ty::TypeVisitableExt;
            c.has_param()
        };
        if !has_param {
            if let Ok(cv) = c.eval(tcx, te, rustc_span::DUMMY_SP) {
                let v = self.const_value(cv, t);
                m.insert("v".into(), v);
            }
        } else if let (Const::Val(ConstValue::Scalar(Scalar::Int(i)), _), ty::Adt(d, a)) = (c, t.kind()) {
            // None of an Option of a pointer to a generic type
            if i.is_null() && self.path(d.did()) == "core::option::Option" && a.types().all(|x| x.is_ref()) {
                m.insert("v".into(), json!({"agg": "core::option::Option", "variant": 0, "fields": []}));
            }
        }
        json!(m)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> Value {
        let tcx = self.tcx;
        let mut pr = vec![];
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(&body.local_decls, tcx);
            let v = match elem {
                ProjectionElem::Deref => {
                    if bt.ty.is_box() {
                        json!(["box"])
                    } else {
                        json!(["*"])
                    }
                }
                ProjectionElem::Field(f, fty) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let bid = self.ty(bt.ty);
                    let fid = self.ty(fty);
                    json!(["f", f.as_usize(), name, bid, fid])
                }
                ProjectionElem::Index(l) => json!(["i", l.as_usize()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    json!(["ci", offset, from_end, min_length])
                }
                ProjectionElem::Subslice { from, to, from_end } => json!(["sub", from, to, from_end]),
                ProjectionElem::Downcast(_, v) => json!(["v", v.as_usize()]),
                ProjectionElem::OpaqueCast(_) => json!(["cast"]),
                _ => json!(["cast"]),
            };
            if v == json!(["cast"]) {
                continue;
            }
            pr.push(v);
        }
        json!([p.local.as_usize(), pr])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, te: TypingEnv<'tcx>) -> Value {
        match o {
            Operand::Copy(p) => json!(["copy", self.place(body, p)]),
            Operand::Move(p) => json!(["move", self.place(body, p)]),
            Operand::Constant(c) => json!(["const", self.constant(&c.const_, te)]),
            #[allow(unreachable_patterns)]
            _ => json!(["const", {"v": {"bool": false}, "rt": true}]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, te: TypingEnv<'tcx>) -> Value {
        match r {
            Rvalue::Use(o, ..) => json!(["use", self.operand(body, o, te)]),
            Rvalue::Repeat(o, n) => {
                json!(["repeat", self.operand(body, o, te), n.try_to_target_usize(self.tcx)])
            }
            Rvalue::Ref(_, k, p) => {
                let mb = matches!(k, BorrowKind::Mut { .. });
                json!(["ref", mb, self.place(body, p)])
            }
            Rvalue::RawPtr(k, p) => json!(["ref", k.to_mutbl_lossy().is_mut(), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => {
                let tid = self.ty(*t);
                json!(["cast", format!("{:?}", k), self.operand(body, o, te), tid])
            }
            Rvalue::BinaryOp(op, ab) => json!([
                "bin",
                format!("{:?}", op),
                self.operand(body, &ab.0, te),
                self.operand(body, &ab.1, te)
            ]),
            Rvalue::UnaryOp(op, a) => json!(["un", format!("{:?}", op), self.operand(body, a, te)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let tid = self.ty(t);
                json!(["discr", self.place(body, p), tid])
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<Value> = ops.iter().map(|x| self.operand(body, x, te)).collect();
                match &**k {
                    AggregateKind::Array(_) => json!(["agg", "array", 0, o]),
                    AggregateKind::Tuple => json!(["agg", "tuple", 0, o]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let t = r.ty(&body.local_decls, self.tcx);
                        let tid = self.ty(t);
                        json!(["agg", self.path(*d), v.as_usize(), o, tid])
                    }
                    AggregateKind::Closure(d, _) => {
                        self.enqueue(*d);
                        json!(["agg", format!("closure:{}", self.key(*d)), 0, o])
                    }
                    AggregateKind::Coroutine(d, _) => {
                        self.enqueue(*d);
                        json!(["agg", format!("coroutine:{}", self.key(*d)), 0, o])
                    }
                    _ => json!(["agg", "other", 0, o]),
                }
            }
            Rvalue::CopyForDeref(p) => json!(["use", ["copy", self.place(body, p)]]),
            Rvalue::ThreadLocalRef(d) => json!(["tls", self.path(*d)]),
            #[allow(unreachable_patterns)]
            _ => json!(["opaque", format!("{:?}", r)]),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, key: String, d: DefId, te: TypingEnv<'tcx>) -> Value {
        let tcx = self.tcx;
        let mut locals = vec![];
        for (_, ld) in body.local_decls.iter_enumerated() {
            locals.push(json!(self.ty(ld.ty)));
        }
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pv = self.place(body, p);
                        let rv = self.rvalue(body, r, te);
                        st.push(json!(["=", pv, rv, ln]));
                    }
                    StatementKind::StorageDead(l) => st.push(json!(["dead", l.as_usize()])),
                    StatementKind::StorageLive(l) => st.push(json!(["live", l.as_usize()])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pv = self.place(body, place);
                        st.push(json!(["setdiscr", pv, variant_index.as_usize(), ln]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let ln = self.line(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => json!({"k": "goto", "t": target.as_usize()}),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    json!({"k": "goto", "t": real_target.as_usize()})
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    json!({"k": "goto", "t": real_target.as_usize()})
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(body, discr, te);
                    let dty = discr.ty(&body.local_decls, tcx);
                    let size = dty.is_signed();
                    let ts: Vec<Value> = targets
                        .iter()
                        .map(|(v, b)| {
                            let _ = size;
                            json!([v.to_string(), b.as_usize()])
                        })
                        .collect();
                    json!({"k": "switch", "op": o, "ts": ts, "else": targets.otherwise().as_usize(), "bool": dty.is_bool()})
                }
                TerminatorKind::Return => json!({"k": "return"}),
                TerminatorKind::Unreachable => json!({"k": "unreachable"}),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    json!({"k": "resume"})
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let tid = self.ty(t);
                    let nd = t.needs_drop(tcx, te);
                    json!({"k": "drop", "p": self.place(body, place), "t": target.as_usize(), "ty": tid, "nd": nd})
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(body, func, te);
                    let a: Vec<Value> = args.iter().map(|x| self.operand(body, &x.node, te)).collect();
                    let aty: Vec<usize> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, tcx);
                            self.ty(t)
                        })
                        .collect();
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dtid = self.ty(dt);
                    let uw = match unwind {
                        UnwindAction::Cleanup(b) => json!(b.as_usize()),
                        UnwindAction::Continue => json!("continue"),
                        _ => json!("none"),
                    };
                    json!({"k": "call", "f": f, "a": a, "aty": aty, "d": self.place(body, destination), "dty": dtid,
                           "t": target.map(|t| t.as_usize()), "uw": uw})
                }
                TerminatorKind::Assert { cond, expected, target, .. } => {
                    let o = self.operand(body, cond, te);
                    json!({"k": "assert", "op": o, "exp": expected, "t": target.as_usize()})
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let o = self.operand(body, value, te);
                    json!({"k": "yield", "op": o, "t": resume.as_usize(), "d": self.place(body, resume_arg)})
                }
                TerminatorKind::CoroutineDrop => json!({"k": "cdrop"}),
                _ => json!({"k": "other"}),
            };
            let mut t = t;
            t["ln"] = json!(ln);
            blocks.push(json!({"s": st, "t": t, "c": bb.is_cleanup}));
        }
        let mut m = Map::new();
        m.insert("key".into(), json!(key));
        m.insert("path".into(), json!(self.path(d)));
        m.insert("local".into(), json!(d.is_local()));
        m.insert("span".into(), json!(self.line(body.span)));
        m.insert("argc".into(), json!(body.arg_count));
        m.insert("spread".into(), json!(body.spread_arg.map(|l| l.as_usize())));
        m.insert("locals".into(), json!(locals));
        m.insert("names".into(), json!(names));
        m.insert("blocks".into(), json!(blocks));
        m.insert("coroutine".into(), json!(tcx.is_coroutine(d)));
        m.insert("closure".into(), json!(tcx.is_closure_like(d)));
        if d.is_local() {
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let sid = self.ty(st);
                m.insert("self_ty".into(), json!(sid));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    m.insert("trait".into(), json!(self.path(tr.skip_binder().def_id)));
                    m.insert("derived".into(), json!(tcx.is_automatically_derived(im)));
                }
            }
            if let Some(n) = tcx.opt_item_name(d) {
                m.insert("name".into(), json!(n.to_string()));
            }
            if tcx.def_kind(d).is_fn_like() && !tcx.is_closure_like(d) {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                m.insert("unsafe".into(), json!(!sig.safety().is_safe()));
                let ins: Vec<usize> = sig.inputs().iter().map(|x| self.ty(*x)).collect();
                let o = self.ty(sig.output());
                m.insert("inputs".into(), json!(ins));
                m.insert("output".into(), json!(o));
                let pr = self.preds(d);
                m.insert("preds".into(), json!(pr));
                m.insert(
                    "pub".into(),
                    json!(d.as_local().map(|l| tcx.effective_visibilities(()).is_exported(l)).unwrap_or(false)),
                );
            }
            let parent = tcx.opt_parent(d);
            if tcx.is_closure_like(d) {
                m.insert("parent".into(), json!(parent.map(|p| self.key(p))));
            }
        }
        json!(m)
    }

    fn run(&mut self) -> Value {
        let tcx = self.tcx;
        let mut bodies = Map::new();
        let mut promoted = Map::new();
        // Clone everything local before anything else is evaluated (evaluation steals the MIR).
        let mut pre = HashMap::new();
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let (_, pm) = tcx.mir_promoted(ld);
            let pm = if pm.is_stolen() { tcx.promoted_mir(d).clone() } else { pm.borrow().clone() };
            let b = tcx.mir_drops_elaborated_and_const_checked(ld);
            let b = if b.is_stolen() {
                if tcx.is_const_fn(d) || !tcx.def_kind(d).is_fn_like() {
                    tcx.mir_for_ctfe(d).clone()
                } else {
                    tcx.optimized_mir(d).clone()
                }
            } else {
                b.borrow().clone()
            };
            pre.insert(d, (b, pm));
            self.enqueue(d);
        }
        let mut dup: Vec<String> = vec![];
        while let Some(d) = self.queue.pop_front() {
            let te = TypingEnv::post_analysis(tcx, d);
            let key = self.key(d);
            if d.is_local() {
                let (b, pm) = match pre.remove(&d) {
                    Some(x) => x,
                    None => continue,
                };
                let v = self.body(&b, key.clone(), d, te);
                if bodies.insert(key.clone(), v).is_some() {
                    dup.push(key.clone());
                }
                for (i, pb) in pm.iter_enumerated() {
                    let k = format!("{}::promoted[{}]", key, i.as_usize());
                    let v = self.body(pb, k.clone(), d, te);
                    promoted.insert(k, v);
                }
            } else {
                let b = tcx.optimized_mir(d);
                let v = self.body(b, key.clone(), d, te);
                bodies.insert(key.clone(), v);
                for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                    let k = format!("{}::promoted[{}]", key, i.as_usize());
                    let v = self.body(pb, k.clone(), d, te);
                    promoted.insert(k, v);
                }
            }
        }
        // Items: impls and statics, for the surface rules.
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
                let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let s = npath!(st.to_string());
                let tr = if of_trait {
                    tcx.impl_opt_trait_ref(id.to_def_id())
                        .map(|t| npath!(t.skip_binder().print_only_trait_path().to_string()))
                } else {
                    None
                };
                let sid = self.ty(st);
                let pr = self.preds(id.to_def_id());
                let tp = if of_trait {
                    tcx.impl_opt_trait_ref(id.to_def_id()).map(|t| self.path(t.skip_binder().def_id))
                } else {
                    None
                };
                impls.push(json!({"ty": s, "trait": tr, "tpath": tp, "self": sid, "preds": pr, "ln": self.line(tcx.def_span(id))}));
            }
        }
        // Initial values of statics (among them those that hold constant-initialised thread-locals).
        let mut statics = Map::new();
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Static { .. } = tcx.def_kind(id) {
                if self.path(id.to_def_id()).contains("__CALLSITE") {
                    continue;
                }
                if let Ok(a) = tcx.eval_static_initializer(id.to_def_id()) {
                    let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                    let cv = ConstValue::Indirect { alloc_id: tcx.reserve_and_set_memory_alloc(a), offset: rustc_abi::Size::ZERO };
                    let v = self.const_value(cv, t);
                    statics.insert(self.path(id.to_def_id()), v);
                }
            }
        }
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Trait) {
                let supers: Vec<String> = tcx
                    .explicit_super_clauses_of(id.to_def_id())
                    .skip_binder()
                    .iter()
                    .filter_map(|(p, _)| p.as_trait_clause().map(|t| self.path(t.skip_binder().trait_ref.def_id)))
                    .collect();
                traits.push(json!({
                    "path": self.path(id.to_def_id()),
                    "unsafe": tcx.trait_def(id).safety.is_unsafe(),
                    "exported": tcx.effective_visibilities(()).is_exported(id),
                    "supers": supers,
                }));
            }
        }
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                adts.push(json!(self.ty(t)));
            }
        }
        json!({
            "bodies": bodies, "promoted": promoted, "types": self.types, "impls": impls,
            "adts": adts, "dup": dup, "traits": traits, "statics": statics,
        })
    }
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if !tcx.crate_name(LOCAL_CRATE).as_str().is_empty() {
            let mut cx = Cx {
                tcx,
                types: vec![],
                type_ids: HashMap::new(),
                queue: VecDeque::new(),
                seen: HashSet::new(),
            };
            let v = cx.run();
            std::fs::write(&self.out, serde_json::to_string(&v).unwrap()).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WRAPPER we are called as `mirdump rustc args...`.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].starts_with('-') {
        args.remove(0);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let krate = std::env::var("MIRDUMP_CRATE").unwrap_or("async_io".into());
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate);
    if is_target && !out.is_empty() {
        let code = rustc_driver::catch_with_exit_code(move || {
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out })
        });
        std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    }
    // Every other crate: the real compiler.
    use std::os::unix::process::CommandExt;
    let err = std::process::Command::new(&args[0]).args(&args[1..]).exec();
    panic!("cannot run {}: {err}", args[0]);
}
