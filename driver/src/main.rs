//! mirfacts: a rustc driver that dumps the resolved program (MIR before the
//! coroutine transform, resolved callees, ADT tables) as JSON lines.
//!
//! Injected with RUSTC_WORKSPACE_WRAPPER; acts only on the crate named in
//! MIRFACTS_CRATE and writes to the file named in MIRFACTS_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

struct Cb {
    out: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T, F: FnMut(T) -> String>(it: impl IntoIterator<Item = T>, mut f: F) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for x in it {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, DefId>,
    ext_queue: VecDeque<DefId>,
    ext_seen: BTreeSet<String>,
}

impl<'tcx> D<'tcx> {
    fn id(&self, d: DefId) -> String {
        let tcx = self.tcx;
        format!(
            "{}{}",
            tcx.crate_name(d.krate),
            tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let name = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            _ => String::new(),
        };
        format!("{}:{}", name, lo.line)
    }
    fn note_adt(&mut self, t: Ty<'tcx>) {
        if let ty::Adt(def, _) = t.kind() {
            let p = self.path(def.did());
            self.adts.entry(p).or_insert(def.did());
        }
    }
    /// ADT path of a type after peeling references, or "" if none
    fn adt_of(&self, t: Ty<'tcx>) -> String {
        match t.peel_refs().kind() {
            ty::Adt(def, _) => self.path(def.did()),
            _ => String::new(),
        }
    }

    fn from_method(&self) -> Option<DefId> {
        let fd = self.tcx.get_diagnostic_item(rustc_span::sym::From)?;
        self.tcx.associated_items(fd).in_definition_order().next().map(|i| i.def_id)
    }

    fn container(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(p).skip_binder();
                    let _ = write!(o, ",\"self\":{}", esc(&self.ty(st)));
                    let _ = write!(o, ",\"self_adt\":{}", esc(&self.adt_of(st)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                        let tr = tr.skip_binder();
                        let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr.def_id)));
                        let _ = write!(
                            o,
                            ",\"trait_args\":{}",
                            list(tr.args.types().skip(1), |t| esc(&self.ty(t)))
                        );
                    }
                }
                DefKind::Trait => {
                    let _ = write!(o, ",\"trait\":{}", esc(&self.path(p)));
                }
                _ => {}
            }
        }
        o
    }

    fn is_ext_interesting(&self, d: DefId) -> bool {
        let p = self.path(d);
        let ok = p.starts_with("std::option::Option")
            || p.starts_with("core::option::Option")
            || p.starts_with("std::result::Result")
            || p.starts_with("core::result::Result")
            || p.starts_with("core::bool::")
            || p.starts_with("std::bool::")
            || p.contains("<impl bool>")
            || p.starts_with("std::task::Poll")
            || p.starts_with("<std::option::Option")
            || p.starts_with("<std::result::Result");
        ok
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let _ = write!(
            o,
            "{{\"fn\":{},\"id\":{},\"name\":{},\"args\":{}",
            esc(&self.path(did)),
            esc(&self.id(did)),
            esc(&name),
            list(args.types(), |t| esc(&self.ty(t)))
        );
        o.push_str(&self.container(did));
        if let Some(t) = args.types().next() {
            let a = self.adt_of(t);
            if !a.is_empty() {
                let _ = write!(o, ",\"arg0_adt\":{}", esc(&a));
            }
        }
        let dk = tcx.def_kind(did);
        if let DefKind::Ctor(..) = dk {
            // constructor used as a function
            let adt_ty = tcx.fn_sig(did).skip_binder().output().skip_binder();
            if let ty::Adt(def, _) = adt_ty.kind() {
                let v = def.variant_with_ctor_id(did);
                let _ = write!(
                    o,
                    ",\"ctor\":[{},{}]",
                    esc(&self.path(def.did())),
                    esc(&v.name.to_string())
                );
                self.note_adt(adt_ty);
            }
        }
        let mut target = did;
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, did, args) {
                match inst.def {
                    InstanceKind::Item(rd) => {
                        target = rd;
                        if rd != did {
                            let _ = write!(o, ",\"r\":{}", esc(&self.id(rd)));
                            let _ = write!(o, ",\"rp\":{}", esc(&self.path(rd)));
                        }
                    }
                    InstanceKind::Virtual(..) => {
                        o.push_str(",\"virtual\":1");
                    }
                    _ => {}
                }
            } else {
                o.push_str(",\"unresolved\":1");
            }
            // the From conversion behind `Into::into`
            if name == "into" {
                let ts: Vec<Ty<'tcx>> = args.types().collect();
                if ts.len() == 2 && self.path(did) == "std::convert::Into::into" {
                    let _ = write!(o, ",\"from\":[{},{}]", esc(&self.ty(ts[0])), esc(&self.ty(ts[1])));
                    if ts[0] != ts[1] {
                        if let Some(m) = self.from_method() {
                            let ga = tcx.mk_args(&[ts[1].into(), ts[0].into()]);
                            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, m, ga) {
                                let _ = write!(o, ",\"from_id\":{}", esc(&self.id(inst.def_id())));
                            }
                        }
                    }
                }
            }
            // the From conversion hidden inside `?`
            if name == "from_residual" {
                let ts: Vec<Ty<'tcx>> = args.types().collect();
                if ts.len() == 2 {
                    if let (ty::Adt(a, aa), ty::Adt(b, ba)) = (ts[0].kind(), ts[1].kind()) {
                        let pa = self.path(a.did());
                        let pb = self.path(b.did());
                        if pa == "std::result::Result" && pb == "std::result::Result" {
                            let f = aa.type_at(1);
                            let e = ba.type_at(1);
                            let _ = write!(o, ",\"from\":[{},{}]", esc(&self.ty(e)), esc(&self.ty(f)));
                            if e != f {
                                if let Some(m) = self.from_method() {
                                    let ga = tcx.mk_args(&[f.into(), e.into()]);
                                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, m, ga) {
                                        let _ = write!(
                                            o,
                                            ",\"from_id\":{}",
                                            esc(&self.id(inst.def_id()))
                                        );
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        if !target.is_local() && matches!(dk, DefKind::Fn | DefKind::AssocFn) && self.is_ext_interesting(target) {
            let id = self.id(target);
            if self.ext_seen.insert(id) {
                self.ext_queue.push_back(target);
            }
        }
        o.push('}');
        o
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(did, args) = t.kind() {
            return format!("{{\"k\":\"fn\",\"f\":{}}}", self.callee(env, *did, args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(tcx, *did))));
        }
        let mut o = format!("{{\"k\":\"c\",\"ty\":{}", esc(&self.ty(t)));
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":[{},{}]", esc(&self.id(u.def)), p.as_usize());
                o.push('}');
                return o;
            }
            let _ = write!(o, ",\"const\":{}", esc(&self.path(u.def)));
            let _ = write!(o, ",\"const_id\":{}", esc(&self.id(u.def)));
        }
        if let Const::Ty(_, ct) = c.const_ {
            let _ = write!(o, ",\"tyconst\":{}", esc(&with_no_trimmed_paths!(format!("{}", ct))));
        }
        let has_params = {
            use rustc_middle::ty::TypeVisitableExt;
            c.const_.has_param()
        };
        if let ty::Adt(def, args) = t.kind() {
            if def.is_enum() {
                if let Const::Val(v, _) = c.const_ {
                    if !has_params {
                        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                            if let (Some(i), true) = (d.variant, d.fields.is_empty()) {
                                self.note_adt(t);
                                let _ = write!(o, ",\"variant\":{},\"adt\":{}", esc(def.variant(i).name.as_str()), esc(&self.path(def.did())));
                            }
                        }
                    } else if let (ConstValue::Scalar(s), true) = (v, tcx.is_diagnostic_item(rustc_span::sym::Option, def.did())) {
                        // a null reference is the only reference-sized constant a generic option can be
                        if let (Some(a), Ok(n)) = (args.types().next(), s.try_to_scalar_int()) {
                            if a.is_ref() && n.is_null() {
                                let _ = write!(o, ",\"variant\":\"None\",\"adt\":{}", esc(&self.path(def.did())));
                            }
                        }
                    }
                }
            }
        }
        if !has_params {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                match v {
                    ConstValue::Scalar(s) => {
                        if let Ok(i) = s.try_to_scalar_int() {
                            let bits = i.to_bits(i.size());
                            match t.kind() {
                                ty::Int(_) => {
                                    let sz = i.size();
                                    let _ = write!(o, ",\"v\":{}", sz.sign_extend(bits));
                                }
                                ty::Bool => {
                                    let _ = write!(o, ",\"v\":{}", if bits != 0 { "true" } else { "false" });
                                }
                                _ => {
                                    let _ = write!(o, ",\"v\":{}", bits);
                                }
                            }
                        }
                    }
                    ConstValue::ZeroSized => {
                        o.push_str(",\"zst\":1");
                        if let ty::Adt(..) = t.kind() {
                            self.note_adt(t);
                        }
                    }
                    ConstValue::Slice { .. } => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            if let ty::Ref(_, inner, _) = t.kind() {
                                if inner.is_str() {
                                    let _ = write!(o, ",\"s\":{}", esc(&String::from_utf8_lossy(b)));
                                } else {
                                    let _ = write!(o, ",\"bytes\":{}", list(b.iter().take(256), |x| x.to_string()));
                                }
                            }
                        }
                    }
                    ConstValue::Indirect { .. } => {
                        let _ = write!(o, ",\"repr\":{}", esc(&with_no_trimmed_paths!(format!("{}", c.const_))));
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{},[", p.local.as_usize());
        let mut first = true;
        for (base, elem) in p.iter_projections() {
            if !first {
                o.push(',');
            }
            first = false;
            let bty = base.ty(body, tcx);
            match elem {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let nm = match bty.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(bty.ty);
                            let vi = bty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() && bty.variant_index.is_none() {
                                f.as_usize().to_string()
                            } else {
                                def.variant(vi).fields[f].name.to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, "{}", esc(&format!(".{}", nm)));
                }
                ProjectionElem::Downcast(name, vi) => {
                    self.note_adt(bty.ty);
                    let nm = name
                        .map(|n| n.to_string())
                        .unwrap_or_else(|| match bty.ty.kind() {
                            ty::Adt(def, _) => def.variant(vi).name.to_string(),
                            _ => vi.as_usize().to_string(),
                        });
                    let _ = write!(o, "{}", esc(&format!("@{}", nm)));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"idx\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "{}", esc(&format!("#{}{}", if from_end { "-" } else { "" }, offset)));
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "{}", esc(&format!("#{}..{}{}", from, if from_end { "-" } else { "" }, to)));
                }
                _ => o.push_str("\"~\""),
            }
        }
        o.push_str("]]");
        o
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"k\":\"cp\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"k\":\"mv\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.constant(env, c),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":\"c\",\"ty\":\"?\"}".to_string(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(env, body, op)),
            Rvalue::Repeat(op, n) => format!(
                "{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}",
                self.operand(env, body, op),
                esc(&format!("{}", n))
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"m\":{},\"p\":{}}}",
                match bk {
                    BorrowKind::Shared => 0,
                    BorrowKind::Fake(_) => 2,
                    BorrowKind::Mut { .. } => 1,
                },
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"ref\",\"m\":1,\"raw\":1,\"p\":{}}}", self.place(body, p)),
            Rvalue::Cast(k, op, t) => format!(
                "{{\"r\":\"cast\",\"ck\":{},\"o\":{},\"ty\":{}}}",
                esc(&format!("{:?}", k)),
                self.operand(env, body, op),
                esc(&self.ty(*t))
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"ty\":{}}}",
                esc(&format!("{:?}", b)),
                self.operand(env, body, &ops.0),
                self.operand(env, body, &ops.1),
                esc(&self.ty(ops.0.ty(body, tcx)))
            ),
            Rvalue::UnaryOp(u, op) => format!(
                "{{\"r\":\"un\",\"op\":{},\"a\":{}}}",
                esc(&format!("{:?}", u)),
                self.operand(env, body, op)
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, tcx).ty;
                self.note_adt(t);
                format!(
                    "{{\"r\":\"discr\",\"p\":{},\"adt\":{}}}",
                    self.place(body, p),
                    esc(&self.adt_of(t))
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = String::from("{\"r\":\"agg\",");
                let mut names: Vec<String> = Vec::new();
                match &**k {
                    AggregateKind::Array(_) => o.push_str("\"kind\":\"array\""),
                    AggregateKind::Tuple => o.push_str("\"kind\":\"tuple\""),
                    AggregateKind::Adt(did, vi, _, _, active) => {
                        let def = tcx.adt_def(*did);
                        let p = self.path(*did);
                        self.adts.entry(p.clone()).or_insert(*did);
                        let v = def.variant(*vi);
                        let _ = write!(
                            o,
                            "\"kind\":\"adt\",\"adt\":{},\"variant\":{},\"enum\":{}",
                            esc(&p),
                            esc(&v.name.to_string()),
                            if def.is_enum() { 1 } else { 0 }
                        );
                        if let Some(a) = active {
                            names.push(v.fields[*a].name.to_string());
                        } else {
                            for f in v.fields.iter() {
                                names.push(f.name.to_string());
                            }
                        }
                    }
                    AggregateKind::Closure(did, _) => {
                        let _ = write!(o, "\"kind\":\"closure\",\"id\":{}", esc(&self.id(*did)));
                    }
                    AggregateKind::Coroutine(did, _) => {
                        let _ = write!(o, "\"kind\":\"coroutine\",\"id\":{}", esc(&self.id(*did)));
                    }
                    AggregateKind::CoroutineClosure(did, _) => {
                        let _ = write!(o, "\"kind\":\"coroutine_closure\",\"id\":{}", esc(&self.id(*did)));
                    }
                    _ => o.push_str("\"kind\":\"other\""),
                }
                if !names.is_empty() {
                    let _ = write!(o, ",\"names\":{}", list(names.iter(), |n| esc(n)));
                }
                let _ = write!(o, ",\"ops\":{}}}", list(ops.iter(), |x| self.operand(env, body, x)));
                o
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"k\":\"cp\",\"p\":{}}}}}", self.place(body, p)),
            Rvalue::Reborrow(_, m, p) => format!(
                "{{\"r\":\"ref\",\"m\":{},\"p\":{}}}",
                if m.is_mut() { 1 } else { 0 },
                self.place(body, p)
            ),
            _ => "{\"r\":\"other\"}".to_string(),
        }
    }

    fn body(&mut self, id: &str, did: DefId, body: &Body<'tcx>, extra: &str, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let kind = match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => "fn",
            DefKind::Closure => {
                if tcx.is_coroutine(did) {
                    "coroutine"
                } else {
                    "closure"
                }
            }
            _ => "const",
        };
        let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let parent = tcx.opt_parent(did).map(|p| self.id(p)).unwrap_or_default();
        let _ = write!(
            o,
            "{{\"id\":{},\"path\":{},\"name\":{},\"kind\":\"{}\",\"parent\":{},\"span\":{},\"argc\":{}",
            esc(id),
            esc(&self.path(did)),
            esc(&name),
            kind,
            esc(&parent),
            esc(&self.span(tcx.def_span(did))),
            body.arg_count
        );
        if kind == "fn" {
            o.push_str(&self.container(did));
            if tcx.asyncness(did).is_async() {
                o.push_str(",\"async\":1");
            }
            if did.is_local() {
                let v = tcx.visibility(did);
                let _ = write!(o, ",\"pub\":{}", if v.is_public() { 1 } else { 0 });
            }
        }
        // the type parameters in scope, in the order in which a caller's type arguments name them
        if kind == "fn" && did.is_local() {
            let gs: Vec<Ty<'tcx>> = ty::GenericArgs::identity_for_item(tcx, did).types().collect();
            if !gs.is_empty() {
                let names: Vec<String> = gs.iter().map(|t| esc(&self.ty(*t))).collect();
                let _ = write!(o, ",\"generics\":[{}]", names.join(","));
            }
        }
        // derived code carries `automatically_derived` on its impl
        let root = tcx.typeck_root_def_id(did);
        if let Some(p) = tcx.opt_parent(root) {
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) && did.is_local() && tcx.is_automatically_derived(p) {
                o.push_str(",\"derived\":1");
            }
        }
        o.push_str(extra);
        // locals
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upnames: Vec<String> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    upnames.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(body, &p)));
                }
            }
        }
        let _ = write!(o, ",\"locals\":[");
        for (i, l) in body.local_decls.iter_enumerated() {
            if i.as_usize() > 0 {
                o.push(',');
            }
            self.note_adt(l.ty);
            let nm = names.get(&i.as_usize()).cloned().unwrap_or_default();
            let _ = write!(o, "[{},{},{}]", esc(&self.ty(l.ty)), esc(&nm), esc(&self.adt_of(l.ty)));
        }
        o.push(']');
        let _ = write!(o, ",\"upvars\":[{}]", upnames.join(","));
        let _ = write!(o, ",\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"c\":{},\"s\":[", if bb.is_cleanup { 1 } else { 0 });
            let mut first = true;
            for st in bb.statements.iter() {
                let s = match &st.kind {
                    StatementKind::Assign(b) => format!(
                        "[\"=\",{},{},{}]",
                        self.place(body, &b.0),
                        self.rvalue(env, body, &b.1),
                        esc(&self.span(st.source_info.span))
                    ),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(body, tcx).ty;
                        let vn = match t.kind() {
                            ty::Adt(def, _) => def.variant(*variant_index).name.to_string(),
                            _ => variant_index.as_usize().to_string(),
                        };
                        format!("[\"sd\",{},{}]", self.place(body, place), esc(&vn))
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let sp = esc(&self.span(term.source_info.span));
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(body, tcx);
                    let vals = list(targets.iter(), |(v, b)| {
                        let vs = match dty.kind() {
                            ty::Int(it) => {
                                let sz = it.bit_width().unwrap_or(64);
                                let x = if sz >= 128 { v as i128 } else { ((v << (128 - sz)) as i128) >> (128 - sz) };
                                x.to_string()
                            }
                            _ => v.to_string(),
                        };
                        format!("[{},{}]", vs, b.as_usize())
                    });
                    format!(
                        "{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"v\":{},\"else\":{},\"sp\":{}}}",
                        self.operand(env, body, discr),
                        esc(&self.ty(dty)),
                        vals,
                        targets.otherwise().as_usize(),
                        sp
                    )
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(body, tcx).ty;
                    format!(
                        "{{\"t\":\"drop\",\"p\":{},\"to\":{},\"ty\":{}}}",
                        self.place(body, place),
                        target.as_usize(),
                        esc(&self.ty(t))
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let uw = match unwind {
                        UnwindAction::Cleanup(b) => b.as_usize() as i64,
                        _ => -1,
                    };
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"to\":{},\"uw\":{},\"sp\":{}}}",
                        self.operand(env, body, func),
                        list(args.iter(), |x| self.operand(env, body, &x.node)),
                        self.place(body, destination),
                        target.map(|b| b.as_usize() as i64).unwrap_or(-1),
                        uw,
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops) = match &**msg {
                        AssertKind::Overflow(b, x, y) => (
                            format!("overflow:{:?}", b),
                            list([x, y], |x| self.operand(env, body, x)),
                        ),
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".to_string(),
                            list([len, index], |x| self.operand(env, body, x)),
                        ),
                        AssertKind::OverflowNeg(x) => ("overflow_neg".into(), list([x], |x| self.operand(env, body, x))),
                        AssertKind::DivisionByZero(x) => ("div0".into(), list([x], |x| self.operand(env, body, x))),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), list([x], |x| self.operand(env, body, x))),
                        _ => ("other".into(), "[]".into()),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"mo\":{},\"to\":{},\"sp\":{}}}",
                        self.operand(env, body, cond),
                        expected,
                        esc(&mk),
                        ops,
                        target.as_usize(),
                        sp
                    )
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => format!(
                    "{{\"t\":\"yield\",\"to\":{},\"d\":{},\"sp\":{}}}",
                    resume.as_usize(),
                    self.place(body, resume_arg),
                    sp
                ),
                _ => "{\"t\":\"other\"}".into(),
            };
            o.push_str(&t);
            o.push('}');
        }
        o.push_str("]}");
        o
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = Vec::new();
    for k in keys {
        match tcx.def_kind(k) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. }
            | DefKind::Static { .. } | DefKind::AnonConst => {}
            _ => continue,
        }
        let (b, p) = tcx.mir_promoted(k);
        let b = b.borrow().clone();
        let p: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
        bodies.push((k, b, p));
    }
    let mut d = D { tcx, adts: BTreeMap::new(), ext_queue: VecDeque::new(), ext_seen: BTreeSet::new() };
    let tmp = format!("{}.tmp.{}", out, std::process::id());
    let mut f = std::io::BufWriter::new(std::fs::File::create(&tmp).expect("create facts file"));
    let mut n = 0usize;
    for (k, b, proms) in bodies.iter() {
        let did = k.to_def_id();
        let env = TypingEnv::post_analysis(tcx, did);
        let id = d.id(did);
        let line = d.body(&id, did, b, "", env);
        writeln!(f, "B\t{}\t{}", id, line).unwrap();
        for (i, p) in proms.iter().enumerate() {
            let pid = format!("{}#promoted{}", id, i);
            let line = d.body(&pid, did, p, ",\"promoted\":1", env);
            writeln!(f, "P\t{}\t{}", pid, line).unwrap();
        }
        n += 1;
    }
    let mut next = 0;
    while let Some(e) = d.ext_queue.pop_front() {
        if !tcx.is_mir_available(e) {
            continue;
        }
        next += 1;
        if next > 400 {
            break;
        }
        let b = tcx.optimized_mir(e);
        let env = TypingEnv::post_analysis(tcx, e);
        let id = d.id(e);
        let line = d.body(&id, e, b, ",\"ext\":1", env);
        writeln!(f, "X\t{}\t{}", id, line).unwrap();
    }
    let adts = d.adts.clone();
    for (p, did) in adts.iter() {
        let def = tcx.adt_def(*did);
        let mut o = format!(
            "{{\"path\":{},\"enum\":{},\"local\":{},\"variants\":[",
            esc(p),
            if def.is_enum() { 1 } else { 0 },
            if did.is_local() { 1 } else { 0 }
        );
        let mut first = true;
        for (vi, v) in def.variants().iter_enumerated() {
            if !first {
                o.push(',');
            }
            first = false;
            let discr: i128 = if def.is_enum() {
                let di = def.discriminant_for_variant(tcx, vi);
                match di.ty.kind() {
                    ty::Int(it) => {
                        let sz = it.bit_width().unwrap_or(64);
                        if sz >= 128 { di.val as i128 } else { ((di.val << (128 - sz)) as i128) >> (128 - sz) }
                    }
                    _ => di.val as i128,
                }
            } else {
                0
            };
            let fields = list(v.fields.iter(), |fd| {
                format!(
                    "[{},{},{}]",
                    esc(&fd.name.to_string()),
                    esc(&d.ty(tcx.type_of(fd.did).skip_binder())),
                    if fd.vis.is_public() { 1 } else { 0 }
                )
            });
            let _ = write!(o, "{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(&v.name.to_string()), discr, fields);
        }
        o.push_str("]}");
        writeln!(f, "A\t{}\t{}", p, o).unwrap();
    }
    // trait impls in the local crate
    for id in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Impl { .. } = tcx.def_kind(id) {
            let did = id.to_def_id();
            let st = tcx.type_of(did).skip_binder();
            let tr = tcx.impl_opt_trait_ref(did).map(|t| d.path(t.skip_binder().def_id)).unwrap_or_default();
            writeln!(
                f,
                "I\t{}\t{{\"self\":{},\"self_adt\":{},\"trait\":{},\"items\":{}}}",
                d.id(did),
                esc(&d.ty(st)),
                esc(&d.adt_of(st)),
                esc(&tr),
                list(tcx.associated_items(did).in_definition_order(), |i| esc(&d.id(i.def_id)))
            )
            .unwrap();
        }
    }
    writeln!(f, "E\tend\t{{\"bodies\":{}}}", n).unwrap();
    f.flush().unwrap();
    drop(f);
    std::fs::rename(&tmp, out).expect("rename facts file");
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if !self.out.is_empty() {
            dump(tcx, &self.out);
        }
        Compilation::Continue
    }
}

fn main() {
    // invoked as: mirfacts <path to rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let mut crate_name = String::new();
    let mut is_lib = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            crate_name = w[1].clone();
        }
        if w[0] == "--crate-type" && (w[1] == "lib" || w[1] == "rlib") {
            is_lib = true;
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    let active = !want.is_empty() && crate_name == want && is_lib && !is_test;
    let mut cb = Cb { out: if active { out } else { String::new() } };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
