// Dumps the resolved program (MIR bodies with resolved callees, types, constants, item facts) of
// the crate being compiled to JSON.  Injected through RUSTC_WORKSPACE_WRAPPER by vlib/front.py.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use std::collections::HashMap;
use std::fmt::Write as _;

enum J { S(String), U(u128), B(bool), A(Vec<J>), O(Vec<(&'static str, J)>), Null }
fn s<T: ToString>(x: T) -> J { J::S(x.to_string()) }
fn esc(o: &mut String, t: &str) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(t) => esc(o, t),
            J::U(n) => { let _ = write!(o, "{}", n); }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(o, k); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx>, types: Vec<J>, tmap: HashMap<Ty<'tcx>, usize> }

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn generic(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() { v.push(J::U(self.ty(t) as u128)); }
            else if let Some(c) = a.as_const() { v.push(s(format!("{}", c))); }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tmap.get(&t) { return i; }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tmap.insert(t, i);
        let txt = ty::print::with_no_trimmed_paths!(format!("{}", t));
        let mut o = vec![("s", s(&txt))];
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name))); }
            ty::Adt(d, a) => {
                o.push(("k", s("adt"))); o.push(("path", s(self.path(d.did()))));
                o.push(("local", J::B(d.did().is_local())));
                o.push(("enum", J::B(d.is_enum())));
                if d.did().is_local() || d.is_enum() {
                    let mut vs = vec![];
                    for v in d.variants().iter() {
                        vs.push(J::O(vec![("name", s(v.name)),
                            ("fields", J::A(v.fields.iter().map(|f| s(f.name)).collect()))]));
                    }
                    o.push(("variants", J::A(vs)));
                    if d.is_enum() {
                        o.push(("discr", J::A(d.discriminants(self.tcx).map(|(_, x)| J::U(x.val)).collect())));
                    }
                }
                let g = self.generic(a); o.push(("args", g));
            }
            ty::Ref(_, t, m) => { o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(*t); o.push(("t", J::U(x as u128))); }
            ty::RawPtr(t, m) => { o.push(("k", s("rawptr"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(*t); o.push(("t", J::U(x as u128))); }
            ty::Slice(t) => { o.push(("k", s("slice"))); let x = self.ty(*t); o.push(("t", J::U(x as u128))); }
            ty::Array(t, n) => { o.push(("k", s("array"))); let x = self.ty(*t); o.push(("t", J::U(x as u128)));
                o.push(("len", match n.try_to_target_usize(self.tcx) { Some(n) => J::U(n as u128), None => s(format!("{}", n)) })); }
            ty::Tuple(ts) => { o.push(("k", s("tuple"))); let v: Vec<J> = ts.iter().map(|t| J::U(self.ty(t) as u128)).collect(); o.push(("ts", J::A(v))); }
            ty::FnDef(d, a) => { o.push(("k", s("fndef"))); o.push(("path", s(self.path(*d)))); let a = a.skip_binder(); let g = self.generic(a); o.push(("args", g)); }
            ty::FnPtr(..) => { o.push(("k", s("fnptr"))); }
            ty::Closure(d, a) => { o.push(("k", s("closure"))); o.push(("path", s(self.path(*d))));
                o.push(("ckind", s(format!("{:?}", a.as_closure().kind()))));
                let v: Vec<J> = a.as_closure().upvar_tys().iter().map(|t| J::U(self.ty(t) as u128)).collect(); o.push(("upvars", J::A(v))); }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[i] = J::O(o);
        i
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::U(p.local.as_u32() as u128)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => { let x = self.ty(t); J::A(vec![s("field"), J::U(f.as_u32() as u128), J::U(x as u128)]) }
                ProjectionElem::Index(l) => J::A(vec![s("index"), J::U(l.as_u32() as u128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::A(vec![s("cindex"), J::U(offset as u128), J::U(min_length as u128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec![s("subslice"), J::U(from as u128), J::U(to as u128), J::B(from_end)]),
                ProjectionElem::Downcast(n, v) => J::A(vec![s("downcast"), J::U(v.as_u32() as u128), match n { Some(n) => s(n), None => J::Null }]),
                _ => J::A(vec![s("otherproj")]),
            });
        }
        J::A(v)
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(d))), ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("local", J::B(d.is_local())), ("crate", s(tcx.crate_name(d.krate)))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            if let Some(t) = args.types().next() { let x = self.ty(t); o.push(("self", J::U(x as u128))); }
        }
        let g = self.generic(args); o.push(("args", g));
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            let rd = inst.def_id();
            o.push(("res", s(self.path(rd))));
            o.push(("reslocal", J::B(rd.is_local())));
            let g = self.generic(inst.args); o.push(("resargs", g));
        }
        J::O(o)
    }
    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>, span: rustc_span::Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let mut o = vec![("ty", J::U(ti as u128))];
        match t.kind() {
            ty::FnDef(d, a) => { let a = a.skip_binder(); let cal = self.callee(*d, a, env); o.push(("fn", cal)); return J::O(o); }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("uneval", s(self.path(u.def))));
            let g = self.generic(u.args); o.push(("uargs", g));
            if let Some(p) = u.promoted { o.push(("promoted", J::U(p.as_u32() as u128))); }
            // resolve a trait's associated constant to the implementation, if known
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                o.push(("ures", s(self.path(inst.def_id()))));
            }
        }
        let generic = rustc_middle::ty::TypeVisitableExt::has_param(c);
        if !generic {
            if let Ok(v) = c.eval(tcx, env, span) { self.cval(v, t, &mut o); }
        } else if let Const::Val(v, _) = c { self.cval(*v, t, &mut o); }
        else if let Const::Ty(_, cc) = c { o.push(("cparam", s(format!("{}", cc)))); }
        J::O(o)
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(sc) => {
                if let Ok(i) = sc.try_to_scalar_int() { o.push(("bits", J::U(i.to_bits_unchecked()))); }
                else { o.push(("ptr", J::B(true)));
                    // reference to a constant byte string / str array
                }
            }
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.push(("str", s(String::from_utf8_lossy(b))));
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                o.push(("indirect", J::B(true)));
                // scalar-like aggregates (single-field wrappers)
                let alloc = tcx.global_alloc(alloc_id).unwrap_memory();
                let inner = alloc.inner();
                let n = inner.len() - offset.bytes_usize();
                if n <= 16 && inner.provenance().ptrs().is_empty() {
                    let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..inner.len());
                    let mut x: u128 = 0;
                    for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); }
                    o.push(("bytes", J::U(x)));
                    o.push(("nbytes", J::U(n as u128)));
                } else {
                    let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..inner.len());
                    o.push(("blob", J::A(b.iter().map(|x| J::U(*x as u128)).collect())));
                }
            }
        }
        let _ = t;
    }
    fn op(&mut self, x: &Operand<'tcx>, env: TypingEnv<'tcx>, span: rustc_span::Span) -> J {
        match x {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("const"), self.konst(&c.const_, env, span)]),
            Operand::RuntimeChecks(r) => J::A(vec![s("rtcheck"), s(format!("{:?}", r))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, span: rustc_span::Span) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, env, span)]),
            Rvalue::Repeat(o, n) => { let n = match n.try_to_target_usize(self.tcx) { Some(n) => J::U(n as u128), None => s(format!("{}", n)) };
                J::A(vec![s("repeat"), self.op(o, env, span), n]) }
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("rawptr"), s(format!("{:?}", k)), self.place(p)]),
            Rvalue::Cast(k, o, t) => { let ti = self.ty(*t); let from = J::Null; let _ = from; J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(o, env, span), J::U(ti as u128)]) }
            Rvalue::BinaryOp(b, ab) => J::A(vec![s("bin"), s(format!("{:?}", b)), self.op(&ab.0, env, span), self.op(&ab.1, env, span)]),
            Rvalue::UnaryOp(u, a) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(a, env, span)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(t) => { let x = self.ty(*t); J::A(vec![s("array"), J::U(x as u128)]) }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => { let g = self.generic(a);
                        let vn = self.tcx.adt_def(*d).variant(*v).name;
                        J::A(vec![s("adt"), s(self.path(*d)), J::U(v.as_u32() as u128), g, s(vn), J::B(f.is_some())]) }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.path(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("otheragg")]),
                };
                let v: Vec<J> = ops.iter().map(|o| self.op(o, env, span)).collect();
                J::A(vec![s("agg"), kind, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p)]),
            _ => J::A(vec![s("otherrv"), s(format!("{:?}", r))]),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        J::U(l.line as u128)
    }
    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut locals = vec![];
        for l in body.local_decls.iter() { let t = self.ty(l.ty); locals.push(J::U(t as u128)); }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(&p);
                names.push(J::A(vec![s(v.name), pl]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = x.source_info.span;
                match &x.kind {
                    StatementKind::Assign(pr) => { let l = self.line(sp); let p = self.place(&pr.0); let r = self.rvalue(&pr.1, env, sp);
                        st.push(J::A(vec![s("assign"), p, r, l])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(J::A(vec![s("setdiscr"), p, J::U(variant_index.as_u32() as u128)])); }
                    StatementKind::Intrinsic(i) => st.push(J::A(vec![s("intrinsic"), s(format!("{:?}", i))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = t.source_info.span;
            let l = self.line(sp);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![s("goto"), J::U(target.as_u32() as u128)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr, env, sp);
                    let dt = discr.ty(&body.local_decls, self.tcx); let dti = self.ty(dt);
                    let tv: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![J::U(v), J::U(b.as_u32() as u128)])).collect();
                    vec![s("switch"), d, J::A(tv), J::U(targets.otherwise().as_u32() as u128), J::U(dti as u128)]
                }
                TerminatorKind::Return => vec![s("return")],
                TerminatorKind::Unreachable => vec![s("unreachable")],
                TerminatorKind::UnwindResume => vec![s("resume")],
                TerminatorKind::UnwindTerminate(_) => vec![s("terminate")],
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); vec![s("drop"), p, J::U(target.as_u32() as u128)] }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, env, sp);
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node, env, sp)).collect();
                    let d = self.place(destination);
                    vec![s("call"), f, J::A(a), d, match target { Some(t) => J::U(t.as_u32() as u128), None => J::Null }]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, env, sp);
                    let (mk, extra) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![self.op(len, env, sp), self.op(index, env, sp)]),
                        AssertKind::Overflow(b, x, y) => ("overflow", vec![s(format!("{:?}", b)), self.op(x, env, sp), self.op(y, env, sp)]),
                        AssertKind::OverflowNeg(x) => ("overflowneg", vec![self.op(x, env, sp)]),
                        AssertKind::DivisionByZero(x) => ("divzero", vec![self.op(x, env, sp)]),
                        AssertKind::RemainderByZero(x) => ("remzero", vec![self.op(x, env, sp)]),
                        _ => ("other", vec![]),
                    };
                    vec![s("assert"), c, J::B(*expected), s(mk), J::A(extra), J::U(target.as_u32() as u128)]
                }
                TerminatorKind::FalseEdge { real_target, .. } => vec![s("goto"), J::U(real_target.as_u32() as u128)],
                TerminatorKind::FalseUnwind { real_target, .. } => vec![s("goto"), J::U(real_target.as_u32() as u128)],
                _ => vec![s("otherterm")],
            };
            blocks.push(J::O(vec![("st", J::A(st)), ("term", J::A(term)), ("line", l), ("cleanup", J::B(bb.is_cleanup))]));
        }
        J::O(vec![("argc", J::U(body.arg_count as u128)), ("locals", J::A(locals)), ("names", J::A(names)),
            ("spread", match body.spread_arg { Some(l) => J::U(l.as_u32() as u128), None => J::Null }), ("blocks", J::A(blocks))])
    }
    fn def(&mut self, d: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let isconst = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst);
        let sm = tcx.sess.source_map();
        let sp = tcx.def_span(did);
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        let mut o = vec![("path", s(self.path(did))), ("kind", s(format!("{:?}", kind))),
            ("file", s(format!("{}", lo.file.name.prefer_local_unconditionally()))), ("line", J::U(lo.line as u128))];
        let env = TypingEnv::post_analysis(tcx, did);
        let vis = tcx.effective_visibilities(());
        o.push(("exported", J::B(vis.is_exported(d))));
        if let Some(p) = tcx.opt_parent(did) {
            if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let x = self.ty(st); o.push(("selfty", J::U(x as u128)));
                o.push(("impl", s(self.path(p))));
                if matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }) {
                    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(self.path(tr.def_id))));
                    o.push(("traitref", s(ty::print::with_no_trimmed_paths!(format!("{}", tr)))));
                    let g = self.generic(tr.args); o.push(("traitargs", g));
                }
            }
            if matches!(tcx.def_kind(p), DefKind::Trait) { o.push(("intrait", s(self.path(p)))); }
        }
        if let Some(n) = tcx.opt_item_name(did) { o.push(("name", s(n))); }
        if isfn {
            if !matches!(kind, DefKind::Closure) {
                let g = tcx.generics_of(did);
                let mut v = vec![];
                let mut gg = Some(g);
                while let Some(x) = gg { for p in x.own_params.iter() { v.push(s(p.name)); } gg = x.parent.map(|p| tcx.generics_of(p)); }
                o.push(("generics", J::A(v)));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                let preds: Vec<J> = tcx.param_env(did).caller_bounds()
                    .map(|p| s(ty::print::with_no_trimmed_paths!(format!("{}", p)))).collect();
                o.push(("preds", J::A(preds)));
            }
            if !tcx.is_mir_available(did) { return Some(J::O(o)); }
            let body = tcx.optimized_mir(did);
            let b = self.body(body, env); o.push(("body", b));
            let pr = tcx.promoted_mir(did);
            let mut pv = vec![];
            for p in pr.iter() { pv.push(self.body(p, env)); }
            o.push(("promoted", J::A(pv)));
        } else if isconst {
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let x = self.ty(t); o.push(("ty", J::U(x as u128)));
            if matches!(kind, DefKind::Static { .. }) { o.push(("static", J::B(true))); }
            if !matches!(kind, DefKind::Static { .. }) {
                let body = tcx.mir_for_ctfe(did);
                let b = self.body(body, env); o.push(("body", b));
            }
        } else { return None; }
        Some(J::O(o))
    }
}

/// adds the written-out library functions to the crate root
struct Loader { root: std::path::PathBuf, prelude: String }
impl rustc_span::source_map::FileLoader for Loader {
    fn file_exists(&self, p: &std::path::Path) -> bool { rustc_span::source_map::RealFileLoader.file_exists(p) }
    fn read_file(&self, p: &std::path::Path) -> std::io::Result<String> {
        let mut t = rustc_span::source_map::RealFileLoader.read_file(p)?;
        if p == self.root { t.push_str(&self.prelude); }
        Ok(t)
    }
    fn read_binary_file(&self, p: &std::path::Path) -> std::io::Result<std::sync::Arc<[u8]>> { rustc_span::source_map::RealFileLoader.read_binary_file(p) }
    fn current_directory(&self) -> std::io::Result<std::path::PathBuf> { rustc_span::source_map::RealFileLoader.current_directory() }
}

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        if let (Ok(pre), rustc_session::config::Input::File(root)) = (std::env::var("MIRDUMP_PRELUDE"), &config.input) {
            let prelude = std::fs::read_to_string(pre).expect("cannot read the prelude");
            config.file_loader = Some(Box::new(Loader { root: root.clone(), prelude }));
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new() };
        let mut defs = vec![];
        for d in tcx.hir_body_owners() {
            if let Some(j) = cx.def(d) { defs.push(j); }
        }
        // every item, for the structural rules
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            let k = tcx.def_kind(did);
            let interesting = matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Trait | DefKind::Impl { .. } | DefKind::Static { .. } | DefKind::Mod | DefKind::ForeignMod | DefKind::ExternCrate | DefKind::GlobalAsm);
            if !interesting { continue; }
            let sm = tcx.sess.source_map();
            let lo = sm.lookup_char_pos(tcx.def_span(did).source_callsite().lo());
            let mut o = vec![("path", s(cx.path(did))), ("kind", s(format!("{:?}", k))), ("file", s(format!("{}", lo.file.name.prefer_local_unconditionally()))), ("line", J::U(lo.line as u128))];
            if let DefKind::Impl { of_trait } = k {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let x = cx.ty(t); o.push(("selfty", J::U(x as u128)));
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    o.push(("traitref", s(ty::print::with_no_trimmed_paths!(format!("{}", tr)))));
                    o.push(("trait", s(cx.path(tr.def_id))));
                    o.push(("unsafe", J::B(tcx.trait_def(tr.def_id).safety.is_unsafe())));
                    o.push(("derived", J::B(tcx.is_builtin_derived(did))));
                }
            }
            if matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let adt = tcx.adt_def(did);
                let mut fs = vec![];
                for f in adt.all_fields() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let x = cx.ty(t);
                    let v = format!("{:?}", tcx.visibility(f.did));
                    fs.push(J::O(vec![("name", s(f.name)), ("ty", J::U(x as u128)), ("vis", s(v))]));
                }
                o.push(("fields", J::A(fs)));
            }
            items.push(J::O(o));
        }
        let mut unsafes = vec![];
        {
            use rustc_hir::intravisit::{self, Visitor};
            struct V<'t> { tcx: TyCtxt<'t>, cur: String, out: Vec<(String, usize)> }
            impl<'t> Visitor<'t> for V<'t> {
                fn visit_block(&mut self, b: &'t rustc_hir::Block<'t>) {
                    let foreign = { let e = b.span.ctxt().outer_expn_data(); e.macro_def_id.map_or(false, |m| !m.is_local()) };
                    if let (rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided), false) = (b.rules, foreign) {
                        let l = self.tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().lo());
                        self.out.push((self.cur.clone(), l.line));
                    }
                    intravisit::walk_block(self, b);
                }
            }
            for d in tcx.hir_body_owners() {
                let cur = cx.path(d.to_def_id());
                let mut v = V { tcx, cur, out: vec![] };
                let body = tcx.hir_body_owned_by(d);
                v.visit_body(body);
                for (p, l) in v.out { unsafes.push(J::A(vec![s(p), J::U(l as u128)])); }
            }
        }
        let types = std::mem::take(&mut cx.types);
        let root = J::O(vec![("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE))), ("types", J::A(types)), ("defs", J::A(defs)), ("items", J::A(items)), ("unsafe_blocks", J::A(unsafes))]);
        let mut o = String::new();
        root.w(&mut o);
        std::fs::write(&self.out, o).expect("cannot write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(run)
}

fn run() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "babs".into()));
    if is_target && !out.is_empty() && !args.iter().any(|a| a == "--test") {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        struct Nop; impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
