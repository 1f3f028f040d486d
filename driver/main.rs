// Compiler driver: dumps the type-checked program (MIR after promotion, before the
// coroutine transform), resolved callees, the ADT and impl tables and auto-trait facts as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypingEnv, Instance, InstanceKind};
use std::collections::HashMap;
use rustc_ast::attr::AttributeExt;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, ()>,
    adt_queue: Vec<DefId>,
    externs: HashMap<DefId, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // unique: crate name + def path with disambiguators
        self.tcx.def_path(d).to_string_no_crate_verbose().trim_start_matches("::").to_string()
    }
    fn id(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate).to_string();
        esc(&format!("{}::{}", krate, self.path(d)))
    }
    fn ids(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate).to_string();
        format!("{}::{}", krate, self.path(d))
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        esc(&format!("{}:{}", f, loc.line))
    }
    fn need_adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_none() { self.adt_queue.push(d); }
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args.iter().filter_map(|a| match a.kind() {
            GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
            GenericArgKind::Const(c) => Some(esc(&format!("{:?}", c))),
            GenericArgKind::Lifetime(_) => None,
            #[allow(unreachable_patterns)]
            _ => None,
        }).collect();
        format!("[{}]", v.join(","))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tmap.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(String::new());
        self.tmap.insert(t, i);
        let s = esc(&format!("{}", t));
        let r = match t.kind() {
            ty::Adt(def, args) => {
                self.need_adt(def.did());
                let a = self.gargs(args);
                format!("{{\"k\":\"adt\",\"d\":{},\"a\":{},\"s\":{}}}", self.id(def.did()), a, s)
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{},\"s\":{}}}", esc(p.name.as_str()), s),
            ty::Ref(_, t2, m) => { let x = self.ty(*t2); format!("{{\"k\":\"ref\",\"t\":{},\"m\":{},\"s\":{}}}", x, m.is_mut(), s) }
            ty::RawPtr(t2, m) => { let x = self.ty(*t2); format!("{{\"k\":\"ptr\",\"t\":{},\"m\":{},\"s\":{}}}", x, m.is_mut(), s) }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect(); format!("{{\"k\":\"tuple\",\"a\":[{}],\"s\":{}}}", v.join(","), s) }
            ty::Slice(x) => { let x = self.ty(*x); format!("{{\"k\":\"slice\",\"t\":{},\"s\":{}}}", x, s) }
            ty::Array(x, n) => { let x = self.ty(*x); format!("{{\"k\":\"array\",\"t\":{},\"n\":{},\"s\":{}}}", x, esc(&format!("{}", n)), s) }
            ty::Closure(d, args) => { let a = self.gargs(args); format!("{{\"k\":\"closure\",\"d\":{},\"a\":{},\"s\":{}}}", self.id(*d), a, s) }
            ty::Coroutine(d, args) => { let a = self.gargs(args); format!("{{\"k\":\"coroutine\",\"d\":{},\"a\":{},\"s\":{}}}", self.id(*d), a, s) }
            ty::FnDef(d, args) => { let a = self.gargs(args.skip_binder()); format!("{{\"k\":\"fndef\",\"d\":{},\"a\":{},\"s\":{}}}", self.id(*d), a, s) }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", s),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.id(d)).unwrap_or("null".into());
                let a = match preds.principal() { Some(p) => { let p = p.skip_binder(); self.gargs(p.args) } None => "[]".into() };
                format!("{{\"k\":\"dyn\",\"d\":{},\"a\":{},\"s\":{}}}", p, a, s)
            }
            ty::Alias(_, al) => {
                let (kind, d) = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => ("projection", DefId::from(def_id)),
                    ty::AliasTyKind::Inherent { def_id } => ("inherent", DefId::from(def_id)),
                    ty::AliasTyKind::Opaque { def_id } => ("opaque", DefId::from(def_id)),
                    ty::AliasTyKind::Free { def_id } => ("free", DefId::from(def_id)),
                };
                let a = self.gargs(al.args);
                format!("{{\"k\":\"alias\",\"ak\":\"{}\",\"d\":{},\"a\":{},\"s\":{}}}", kind, self.id(d), a, s)
            }
            ty::Bool => format!("{{\"k\":\"bool\",\"s\":{}}}", s),
            ty::Int(_) | ty::Uint(_) => format!("{{\"k\":\"int\",\"s\":{}}}", s),
            ty::Never => format!("{{\"k\":\"never\",\"s\":{}}}", s),
            ty::Str => format!("{{\"k\":\"str\",\"s\":{}}}", s),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", s),
        };
        self.types[i] = r;
        i
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\"f\",{},{}]", f.index(), t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, v) => format!("[\"d\",{},{}]", v.index(), n.map(|n| esc(n.as_str())).unwrap_or("null".into())),
                other => format!("[\"?\",{}]", esc(&format!("{:?}", other))),
            };
            v.push(s);
        }
        format!("[{},[{}]]", p.local.index(), v.join(","))
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        match t.kind() {
            ty::FnDef(d, a) => return self.fnref(env, *d, a.skip_binder(), ti),
            _ => {}
        }
        let mut extra = String::new();
        match c.const_ {
            Const::Unevaluated(u, _) => {
                let a = self.gargs(u.args);
                let _ = write!(extra, ",\"u\":{},\"ua\":{}", self.id(u.def), a);
                if let Some(p) = u.promoted { let _ = write!(extra, ",\"prom\":{}", p.index()); }
            }
            Const::Ty(_, ct) => { let _ = write!(extra, ",\"ct\":{}", esc(&format!("{}", ct))); }
            _ => {}
        }
        if let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)), _) = c.const_ {
            let (prov, _) = ptr.prov_and_relative_offset();
            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                let _ = write!(extra, ",\"static\":{}", self.id(d));
            }
        }
        let is_prom = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
        if !is_prom && (t.is_integral() || t.is_bool() || t.is_char()) {
            if let Some(b) = c.const_.try_eval_bits(self.tcx, env) { let _ = write!(extra, ",\"v\":\"{}\"", b); }
        }
        format!("{{\"c\":{},\"s\":{}{}}}", ti, esc(&format!("{}", c.const_)), extra)
    }
    fn fnref(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>, ti: usize) -> String {
        let tcx = self.tcx;
        let a = self.gargs(args);
        let mut o = format!("{{\"c\":{},\"fn\":{},\"fa\":{}", ti, self.id(d), a);
        if !d.is_local() { self.externs.insert(d, ()); }
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", self.id(t));
        }
        if let Some(imp) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(o, ",\"inh\":{}", st);
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() { o.push_str(",\"us\":true"); }
        let _ = write!(o, ",\"name\":{}", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, d, args)));
        if let Ok(Ok(Some(inst))) = r {
            let kind = match inst.def {
                InstanceKind::Item(_) => "item".to_string(),
                InstanceKind::Virtual(..) => "virtual".to_string(),
                InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
                other => format!("{:?}", other).split('(').next().unwrap_or("").to_string(),
            };
            let rd = inst.def_id();
            let ra = self.gargs(inst.args);
            let _ = write!(o, ",\"r\":{},\"ra\":{},\"rk\":{}", self.id(rd), ra, esc(&kind));
        }
        o.push('}');
        o
    }
    fn operand(&mut self, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.konst(env, c)),
            other => format!("[\"rt\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn rvalue(&mut self, env: TypingEnv<'tcx>, rv: &Rvalue<'tcx>) -> String {
        match rv {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(env, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(env, o), esc(&format!("{}", n))),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", esc(&format!("{:?}", k)), self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", self.id(*d)),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(env, o), t) }
            Rvalue::BinaryOp(b, ops) => { let x = self.operand(env, &ops.0); let y = self.operand(env, &ops.1); format!("[\"bin\",\"{:?}\",{},{}]", b, x, y) }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(env, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(env, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"array\",{}]", t) }
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, args, _, fi) => {
                        self.need_adt(*d);
                        let a = self.gargs(args);
                        format!("[\"adt\",{},{},{},{}]", self.id(*d), vi.index(), a, fi.map(|f| f.index().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(d, args) => { let a = self.gargs(args); format!("[\"closure\",{},{}]", self.id(*d), a) }
                    AggregateKind::Coroutine(d, args) => { let a = self.gargs(args); format!("[\"coroutine\",{},{}]", self.id(*d), a) }
                    other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
                };
                format!("[\"agg\",{},[{}]]", k, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String {
        match u { UnwindAction::Cleanup(b) => b.index().to_string(), _ => "null".into() }
    }
    fn body(&mut self, def: DefId, b: &Body<'tcx>) -> String {
        let env = TypingEnv::non_body_analysis(self.tcx, self.tcx.typeck_root_def_id(def));
        let mut o = String::new();
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let _ = write!(o, "{{\"argc\":{},\"locals\":[{}],\"names\":[{}],\"span\":{},\"blocks\":[", b.arg_count, locals.join(","), names.join(","), self.span(b.span));
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.index() > 0 { o.push(','); }
            let mut st = Vec::new();
            for s in &bb.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(env, &a.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"setd\",{},{},{}]", p, variant_index.index(), sp));
                    }
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intr\",{},{}]", esc(&format!("{:?}", i)), sp)),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.index())).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    format!("[\"switch\",{},[{}],{},{},{}]", self.operand(env, discr), v.join(","), targets.otherwise().index(), dt, sp)
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => format!("[\"drop\",{},{},{},{}]", self.place(place), target.index(), self.unwind(unwind), sp),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(env, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(env, &x.node)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},[{}],{},{},{},{}]", f, a.join(","), d, target.map(|t| t.index().to_string()).unwrap_or("null".into()), self.unwind(unwind), sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let m = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        AssertKind::BoundsCheck { .. } => "bounds".into(),
                        other => format!("{:?}", other),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", self.operand(env, cond), expected, esc(&m), target.index(), self.unwind(unwind), sp)
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => format!("[\"yield\",{},{},{}]", self.operand(env, value), resume.index(), self.place(resume_arg)),
                TerminatorKind::CoroutineDrop => "[\"cdrop\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                other => format!("[\"other\",{},{}]", esc(&format!("{:?}", other)), sp),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{},\"cu\":{}}}", st.join(","), tj, bb.is_cleanup);
        }
        o.push_str("]}");
        o
    }
    fn generics(&self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = Vec::new();
        let mut cur = Some(g);
        let mut chain = Vec::new();
        while let Some(g) = cur { chain.push(g); cur = g.parent.map(|p| self.tcx.generics_of(p)); }
        for g in chain.iter().rev() {
            for p in &g.own_params {
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => {}
                    _ => v.push(esc(p.name.as_str())),
                }
            }
        }
        format!("[{}]", v.join(","))
    }
    fn preds(&mut self, d: DefId) -> String {
        let p = self.tcx.clauses_of(d).instantiate_identity(self.tcx);
        let mut v = Vec::new();
        for c in p.clauses.iter() {
            let c = c.skip_norm_wip();
            if let ty::ClauseKind::Trait(tp) = c.kind().skip_binder() {
                let t = self.ty(tp.trait_ref.self_ty());
                let a = self.gargs(tp.trait_ref.args);
                v.push(format!("[{},{},{}]", t, self.id(tp.trait_ref.def_id), a));
            }
        }
        format!("[{}]", v.join(","))
    }
}

impl<'tcx> Cx<'tcx> {
    // what the bounds say a projection is, e.g. what a callback answers
    fn projs(&mut self, d: DefId) -> String {
        let p = self.tcx.clauses_of(d).instantiate_identity(self.tcx);
        let mut v = Vec::new();
        for c in p.clauses.iter() {
            let c = c.skip_norm_wip();
            if let ty::ClauseKind::Projection(pp) = c.kind().skip_binder() {
                if let Some(t) = pp.term.as_type() {
                    let a = self.gargs(pp.projection_term.args);
                    let t = self.ty(t);
                    v.push(format!("[{},{}]", a, t));
                }
            }
        }
        format!("[{}]", v.join(","))
    }
    // which type parameters are Send and Sync under the item's own bounds
    fn pauto(&mut self, did: DefId) -> String {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let tcx = self.tcx;
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        let penv = tcx.param_env(did);
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::new(penv, rustc_middle::ty::TypingMode::non_body_analysis()));
        let mut v = Vec::new();
        for a in ty::GenericArgs::identity_for_item(tcx, did).iter() {
            if let Some(t) = a.as_type() {
                let mut q = |tr: Option<DefId>| -> bool { tr.map(|tr| infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()).unwrap_or(false) };
                v.push(format!("[{},{},{}]", esc(&format!("{}", t)), q(send), q(sync)));
            }
        }
        format!("[{}]", v.join(","))
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: HashMap::new(), adt_queue: vec![], externs: HashMap::new() };
    // 1. clone all bodies first (later queries may steal them)
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = Vec::new();
    let mut skipped = Vec::new();
    for d in owners {
        let k = tcx.def_kind(d);
        match k {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {}
            _ => { skipped.push(format!("{}", esc(&format!("{:?} {}", k, cx.ids(d.to_def_id()))))); continue; }
        }
        let (b, p) = tcx.mir_promoted(d);
        let b2 = b.borrow().clone();
        let p2: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
        bodies.push((d, b2, p2));
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"crate\":{},\"skipped\":[{}],\"bodies\":[", esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), skipped.join(","));
    let effvis = tcx.effective_visibilities(());
    let mut first = true;
    for (d, b, p) in &bodies {
        if !first { o.push_str(",\n"); }
        first = false;
        let did = d.to_def_id();
        let k = tcx.def_kind(*d);
        let mut meta = String::new();
        let _ = write!(meta, "\"id\":{},\"kind\":{},\"file\":{}", cx.id(did), esc(&format!("{:?}", k)), cx.span(tcx.def_span(did)));
        let _ = write!(meta, ",\"parent\":{}", cx.id(tcx.parent(did)));
        let _ = write!(meta, ",\"generics\":{}", cx.generics(did));
        if matches!(k, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
            let outp = cx.ty(sig.output());
            let _ = write!(meta, ",\"name\":{},\"inputs\":[{}],\"output\":{},\"unsafe\":{},\"async\":{}", esc(tcx.item_name(did).as_str()), ins.join(","), outp, sig.safety().is_unsafe(), tcx.asyncness(did).is_async());
            let _ = write!(meta, ",\"pub\":{},\"reach\":{}", tcx.visibility(did).is_public(), effvis.is_reachable(*d));
            let _ = write!(meta, ",\"preds\":{},\"projs\":{}", cx.preds(did), cx.projs(did));
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let st = cx.ty(st);
                let _ = write!(meta, ",\"impl\":{},\"self\":{}", cx.id(imp), st);
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let a = cx.gargs(tr.args);
                    let _ = write!(meta, ",\"trait\":{},\"trait_args\":{}", cx.id(tr.def_id), a);
                }
            } else if let Some(t) = tcx.trait_of_assoc(did) { let _ = write!(meta, ",\"in_trait\":{}", cx.id(t)); }
        }
        let bj = cx.body(did, b);
        let pj: Vec<String> = p.iter().map(|x| cx.body(did, x)).collect();
        let _ = write!(o, "{{{},\"body\":{},\"promoted\":[{}]}}", meta, bj, pj.join(","));
    }
    o.push_str("],\n\"impls\":[");
    let mut first = true;
    for id in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
            if !first { o.push_str(",\n"); }
            first = false;
            let did = id.to_def_id();
            let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let st = cx.ty(st);
            let mut m = format!("{{\"id\":{},\"self\":{},\"generics\":{},\"preds\":{},\"pauto\":{},\"span\":{}", cx.id(did), st, cx.generics(did), cx.preds(did), cx.pauto(did), cx.span(tcx.def_span(did)));
            if of_trait {
                let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                let a = cx.gargs(tr.args);
                let hd = tcx.impl_trait_header(did);
                let _ = write!(m, ",\"trait\":{},\"trait_args\":{},\"unsafe\":{},\"neg\":{}", cx.id(tr.def_id), a, hd.safety.is_unsafe(), matches!(hd.polarity, ty::ImplPolarity::Negative));
            }
            let its: Vec<String> = tcx.associated_items(did).in_definition_order().map(|i| {
                let of = i.trait_item_def_id().map(|d| cx.id(d)).unwrap_or("null".into());
                format!("[{},{},{}]", esc(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()), cx.id(i.def_id), of)
            }).collect();
            let _ = write!(m, ",\"items\":[{}]}}", its.join(","));
            o.push_str(&m);
        }
    }
    // reachable public items and types (API surface)
    o.push_str("],\n\"api\":[");
    let mut first = true;
    for id in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Trait | DefKind::Union | DefKind::Static { .. } | DefKind::Mod | DefKind::ExternCrate) {
            if !first { o.push(','); }
            first = false;
            let _ = write!(o, "[{},{},{},{}]", cx.id(id.to_def_id()), esc(&format!("{:?}", tcx.def_kind(id))), effvis.is_reachable(id), cx.span(tcx.def_span(id)));
        }
    }
    // auto trait facts on local structs/enums under their own generics' bounds
    o.push_str("],\n\"auto\":[");
    {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let mut first = true;
        let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
        let sync = tcx.lang_items().sync_trait();
        let freeze = tcx.lang_items().freeze_trait();
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                let did = id.to_def_id();
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let penv = tcx.param_env(did);
                let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::new(penv, rustc_middle::ty::TypingMode::non_body_analysis()));
                let mut q = |tr: Option<DefId>| -> bool { tr.map(|tr| infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()).unwrap_or(false) };
                let (a, b, c) = (q(send), q(sync), q(freeze));
                if !first { o.push(','); }
                first = false;
                let ti = cx.ty(t);
                let _ = write!(o, "[{},{},{},{},{}]", cx.id(did), ti, a, b, c);
            }
        }
    }
    o.push_str("],\n\"adts\":{");
    let mut first = true;
    while let Some(d) = cx.adt_queue.pop() {
        let def = tcx.adt_def(d);
        let mut vs = Vec::new();
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let t = cx.ty(t);
                fs.push(format!("[{},{},{}]", esc(f.name.as_str()), t, f.vis.is_public()));
            }
            vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}", esc(v.name.as_str()), discr, fs.join(",")));
        }
        if !first { o.push_str(",\n"); }
        first = false;
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let _ = write!(o, "{}:{{\"kind\":\"{}\",\"g\":{},\"v\":[{}],\"local\":{},\"span\":{}}}", cx.id(d), kind, cx.generics(d), vs.join(","), d.is_local(), cx.span(tcx.def_span(d)));
    }
    o.push_str("},\n\"externs\":[");
    let ex: Vec<String> = cx.externs.keys().map(|d| cx.id(*d)).collect();
    o.push_str(&ex.join(","));
    let attrs_nostd = {
        let mut b = true;
        for c in tcx.crates(()) { if tcx.crate_name(*c).as_str() == "std" && tcx.extern_crate(*c).map(|e| e.is_direct()).unwrap_or(false) { b = false; } }
        b
    };
    let crates: Vec<String> = tcx.crates(()).iter().map(|c| { let ext = tcx.extern_crate(*c).map(|e| format!("{}", e.is_direct())).unwrap_or("null".into()); format!("[{},{}]", esc(tcx.crate_name(*c).as_str()), ext) }).collect();
    let _ = write!(o, "],\n\"crates\":{},\"no_std\":{},\"types\":[\n{}\n]}}", arr(crates), attrs_nostd, cx.types.join(",\n"));
    std::fs::write(out, o).expect("write dump");
}

struct CB { out: Option<String> }
impl Callbacks for CB {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out { dump(tcx, out); }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && !args[1].starts_with('-') && args[1].contains("rustc") { args.remove(1); }
    let target = std::env::var("HT_CRATE").unwrap_or("hash_trie".into());
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    let out = if is { std::env::var("HT_OUT").ok() } else { None };
    let mut cb = CB { out };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
