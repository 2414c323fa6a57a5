//! MIR extractor: a rustc driver which dumps the resolved, monomorphised-where-possible MIR of a
//! crate (and of the small "transparent" std combinators it calls) as JSON.
//! It never runs any of the analysed code.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

enum J {
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    B(bool),
    Null,
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: impl TryInto<i128>) -> J { J::N(x.try_into().ok().unwrap()) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N(i) => { write!(o, "{}", i).unwrap(); }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => { write!(o, "\\u{:04x}", c as u32).unwrap(); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    write!(o, "\"{}\":", k).unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

/// Foreign modules whose (generic, inlinable) bodies are dumped as well, so that the analyser can
/// look through the combinators instead of having a hand written model for each.
const TRANSPARENT: &[&str] = &[
    "core::option", "core::result", "core::ops::control_flow", "core::ops::try_trait", "core::cmp",
    "core::convert", "core::bool", "core::tuple", "core::ops::range", "either",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    seen: HashSet<String>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>, Option<mir::Promoted>)>,
    bodies: Vec<J>,
}

struct B<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    key: String,
    inst: Instance<'tcx>,
    env: TypingEnv<'tcx>,
    body: &'a mir::Body<'tcx>,
}

fn def_module(tcx: TyCtxt<'_>, d: DefId) -> String {
    let mut p = tcx.crate_name(d.krate).to_string();
    for e in &tcx.def_path(d).data {
        if let rustc_hir::definitions::DefPathData::TypeNs(x) = e.data { p.push_str("::"); p.push_str(x.as_str()); }
        else { break; }
    }
    p
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str(d)))
}

impl<'tcx> Cx<'tcx> {
    fn inst_key(&self, i: Instance<'tcx>) -> String {
        let base = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(
            self.tcx.def_path_str_with_args(i.def_id(), i.args)));
        match i.def { InstanceKind::Item(_) => base, _ => format!("{} [{:?}]", base, std::mem::discriminant(&i.def)) }
    }
    fn enqueue(&mut self, i: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let k = self.inst_key(i);
        if self.seen.insert(k.clone()) { self.queue.push_back((k.clone(), i, env, None)); }
        k
    }
    fn ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> usize {
        if let Some(i) = self.ty_ids.get(&t) { return *i; }
        let id = self.tys.len();
        self.tys.push(J::Null);
        self.ty_ids.insert(t, id);
        let tcx = self.tcx;
        let str = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(t.to_string()));
        let mut o = vec![("str", s(str))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(i) => { o.push(("k", s("int"))); o.push(("name", s(i.name_str()))); o.push(("signed", J::B(true))); o.push(("bits", n(i.bit_width().unwrap_or(64)))); }
            ty::Uint(i) => { o.push(("k", s("int"))); o.push(("name", s(i.name_str()))); o.push(("signed", J::B(false))); o.push(("bits", n(i.bit_width().unwrap_or(64)))); }
            ty::Str => o.push(("k", s("str"))),
            ty::Slice(e) => { o.push(("k", s("slice"))); let e = self.ty(e, env); o.push(("elem", n(e as i64))); }
            ty::Array(e, l) => {
                o.push(("k", s("array"))); let e = self.ty(e, env); o.push(("elem", n(e as i64)));
                if let Some(l) = l.try_to_target_usize(tcx) { o.push(("len", n(l))); }
            }
            ty::Ref(_, e, m) => { o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut()))); let e = self.ty(e, env); o.push(("to", n(e as i64))); }
            ty::RawPtr(e, m) => { o.push(("k", s("ptr"))); o.push(("mut", J::B(m.is_mut()))); let e = self.ty(e, env); o.push(("to", n(e as i64))); }
            ty::Tuple(l) => { o.push(("k", s("tuple"))); let v = l.iter().map(|t| n(self.ty(t, env) as i64)).collect(); o.push(("fields", J::A(v))); }
            ty::Closure(d, a) => {
                o.push(("k", s("closure"))); o.push(("def", s(path(tcx, d))));
                let v = a.as_closure().upvar_tys().iter().map(|t| n(self.ty(t, env) as i64)).collect();
                o.push(("fields", J::A(v)));
                let i = Instance::new_raw(d, a);
                let k = self.enqueue(i, env);
                o.push(("body", s(k)));
            }
            ty::FnDef(d, a) => { o.push(("k", s("fndef"))); let c = self.callee(d, a.skip_binder(), env); o.push(("callee", c)); }
            ty::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("adt", s(path(tcx, d.did()))));
                o.push(("local", J::B(d.did().is_local())));
                o.push(("enum", J::B(d.is_enum())));
                o.push(("box", J::B(d.is_box())));
                let args = a.types().map(|t| n(self.ty(t, env) as i64)).collect();
                o.push(("args", J::A(args)));
                if !d.is_union() {
                    let mut vs = vec![];
                    let expand = d.did().is_local() || d.is_enum() || {
                        let m = def_module(tcx, d.did());
                        m.starts_with("core::ops::range") || d.all_fields().all(|f| f.vis.is_public())
                    };
                    if expand {
                        for (vi, v) in d.variants().iter_enumerated() {
                            let discr = if d.is_enum() { d.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                            let mut fs = vec![];
                            for f in v.fields.iter() {
                                let ft = tcx.normalize_erasing_regions(env, f.ty(tcx, a));
                                let fi = self.ty(ft, env);
                                fs.push(J::A(vec![s(f.name.as_str()), n(fi as i64)]));
                            }
                            vs.push(J::O(vec![("name", s(v.name.as_str())), ("discr", n(discr)), ("fields", J::A(fs))]));
                        }
                        o.push(("variants", J::A(vs)));
                    }
                }
            }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.as_str()))); }
            ty::Never => o.push(("k", s("never"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.tys[id] = J::O(o);
        id
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![];
        o.push(("decl", s(path(tcx, d))));
        o.push(("name", s(tcx.item_name(d).as_str())));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
        }
        let args = a.types().map(|t| n(self.ty(t, env) as i64)).collect();
        o.push(("args", J::A(args)));
        let resolved = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) => {
                let a = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(a));
                Instance::try_resolve(tcx, env, d, a).ok().flatten()
            }
            _ => None,
        };
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push(("ctor", J::B(true)));
        }
        if let Some(i) = resolved {
            let kind = match i.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closureonce",
                InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
                InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptrshim",
                _ => "shim",
            };
            o.push(("kind", s(kind)));
            let rd = i.def_id();
            o.push(("path", s(path(tcx, rd))));
            o.push(("crate", s(tcx.crate_name(rd.krate).as_str())));
            o.push(("local", J::B(rd.is_local())));
            if let DefKind::AssocFn = tcx.def_kind(rd) {
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let ids = self.ty(st, TypingEnv::post_analysis(tcx, im));
                    o.push(("impl_self", n(ids as i64)));
                }
            }
            if let InstanceKind::Item(_) = i.def {
                if self.want(rd) {
                    let k = self.enqueue(i, env);
                    o.push(("body", s(k)));
                }
            }
        } else {
            o.push(("kind", s("unresolved")));
            o.push(("crate", s(tcx.crate_name(d.krate).as_str())));
            o.push(("path", s(path(tcx, d))));
        }
        J::O(o)
    }
    fn want(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        if tcx.is_foreign_item(d) { return false; }
        if d.is_local() { return tcx.is_mir_available(d); }
        let m = def_module(tcx, d);
        if !TRANSPARENT.iter().any(|t| m == *t || m.starts_with(&format!("{}::", t))) { return false; }
        tcx.is_mir_available(d)
    }
}

impl<'a, 'tcx> B<'a, 'tcx> {
    fn mono<T: ty::TypeFoldable<TyCtxt<'tcx>>>(&self, t: T) -> T {
        // the body is instantiated already: a second substitution would capture the caller's parameters
        self.cx.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J { let t = self.mono(t); n(self.cx.ty(t, self.env) as i64) }
    fn line(&self, sp: Span) -> J {
        let sm = self.cx.tcx.sess.source_map();
        let sp = sp.source_callsite();
        n(sm.lookup_char_pos(sp.lo()).line as i64)
    }
    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_u32())];
        for (_, e) in p.iter_projections() {
            use mir::ProjectionElem::*;
            v.push(match e {
                Deref => J::A(vec![s("deref")]),
                Field(i, t) => { let t = self.ty(t); J::A(vec![s("field"), n(i.as_u32()), t]) }
                Index(l) => J::A(vec![s("index"), n(l.as_u32())]),
                ConstantIndex { offset, from_end, min_length } => J::A(vec![s("cindex"), n(offset), J::B(from_end), n(min_length)]),
                Subslice { from, to, from_end } => J::A(vec![s("subslice"), n(from), n(to), J::B(from_end)]),
                Downcast(_, v) => J::A(vec![s("downcast"), n(v.as_u32())]),
                _ => J::A(vec![s("opaque")]),
            });
        }
        J::A(v)
    }
    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.cx.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let (x, y) = (off as usize, (off + len) as usize);
                if y > a.len() { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(x..y).to_vec())
            }
            _ => None,
        }
    }
    fn hex(b: &[u8]) -> J { let mut o = String::new(); for x in b { write!(o, "{:02x}", x).unwrap(); } s(o) }
    fn constant(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.cx.tcx;
        let k = self.mono(c.const_);
        let t = k.ty();
        let tid = self.ty(t);
        let mut o = vec![("ty", tid)];
        if let ty::FnDef(d, a) = *t.kind() {
            let cal = self.cx.callee(d, a.skip_binder(), self.env);
            o.push(("fn", cal));
            return J::O(o);
        }
        if let mir::Const::Unevaluated(uv, _) = k {
            if let Some(p) = uv.promoted {
                let i = Instance::new_raw(uv.def, uv.args);
                let key = format!("{}::promoted[{}]", self.cx.inst_key(i), p.as_u32());
                if self.cx.seen.insert(key.clone()) { self.cx.queue.push_back((key.clone(), i, self.env, Some(p))); }
                o.push(("promoted", s(key)));
                return J::O(o);
            }
            o.push(("named", s(path(tcx, uv.def))));
        }
        match k.eval(tcx, self.env, c.span) {
            Ok(v) => { let j = self.cval(v, t); o.extend(j); }
            Err(_) => o.push(("opaque", s(format!("{:?}", k)))),
        }
        J::O(o)
    }
    fn cval(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.cx.tcx;
        match v {
            mir::ConstValue::ZeroSized => vec![("zst", J::B(true))],
            mir::ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let val = if t.is_signed() { i.to_int(sz) } else { i.to_uint(sz) as i128 };
                vec![("int", s(val.to_string()))]
            }
            mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                if let ty::Ref(_, inner, _) = *t.kind() {
                    if let ty::Array(e, l) = *inner.kind() {
                        if e == tcx.types.u8 {
                            if let Some(l) = l.try_to_target_usize(tcx) {
                                if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes(), l) { return vec![("bytes", Self::hex(&b))]; }
                            }
                        }
                    }
                }
                vec![("opaque", s(format!("{:?}:{}", v, t)))]
            }
            mir::ConstValue::Slice { alloc_id, meta } => {
                let e = match *t.kind() { ty::Ref(_, i, _) => match *i.kind() { ty::Str => Some(1), ty::Slice(e) if e == tcx.types.u8 => Some(1), _ => None }, _ => None };
                if e.is_some() {
                    if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) { return vec![("bytes", Self::hex(&b))]; }
                }
                if meta == 0 { return vec![("emptyslice", J::B(true))]; }
                vec![("opaque", s(format!("{:?}:{}", v, t)))]
            }
            mir::ConstValue::Indirect { .. } => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        let ti = n(self.cx.ty(*ft, self.env) as i64);
                        let mut o = vec![("ty", ti)];
                        o.extend(self.cval(*fv, *ft));
                        fs.push(J::O(o));
                    }
                    return vec![("agg", J::A(fs)), ("variant", n(d.variant.map(|v| v.as_u32()).unwrap_or(0)))];
                }
                vec![("opaque", s(format!("{:?}:{}", v, t)))]
            }
        }
    }
    fn op(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![s("copy"), self.place(p)]),
            mir::Operand::Move(p) => J::A(vec![s("move"), self.place(p)]),
            mir::Operand::Constant(c) => { let c = self.constant(c); J::A(vec![s("const"), c]) }
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("rtcheck"), s(format!("{:?}", o))]),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, ..) => J::A(vec![s("use"), self.op(o)]),
            Repeat(o, c) => { let c = self.mono(*c); let o = self.op(o); J::A(vec![s("repeat"), o, c.try_to_target_usize(self.cx.tcx).map(|x| n(x)).unwrap_or(J::Null)]) }
            Ref(_, k, p) => J::A(vec![s("ref"), s(match k { mir::BorrowKind::Mut { .. } => "mut", mir::BorrowKind::Shared => "shared", _ => "fake" }), self.place(p)]),
            RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(p)]),
            Cast(k, o, t) => { let o2 = self.op(o); let st = o.ty(self.body, self.cx.tcx); let st = self.ty(st); let t = self.ty(*t); J::A(vec![s("cast"), s(format!("{:?}", k)), o2, t, st]) }
            BinaryOp(b, x) => { let l = self.op(&x.0); let r = self.op(&x.1); let t = x.0.ty(self.body, self.cx.tcx); let t = self.ty(t); J::A(vec![s("bin"), s(format!("{:?}", b)), l, r, t]) }
            UnaryOp(u, o) => { let t = o.ty(self.body, self.cx.tcx); let t = self.ty(t); J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o), t]) }
            Discriminant(p) => { let t = p.ty(self.body, self.cx.tcx).ty; let t = self.ty(t); J::A(vec![s("discr"), self.place(p), t]) }
            CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("copy"), self.place(p)])]),
            Aggregate(k, ops) => {
                let t = r.ty(self.body, self.cx.tcx);
                let t = self.ty(t);
                let ops: Vec<J> = ops.iter().map(|o| self.op(o)).collect();
                use mir::AggregateKind as K;
                let (kind, v) = match &**k {
                    K::Array(_) => ("array", 0),
                    K::Tuple => ("tuple", 0),
                    K::Adt(_, v, _, _, _) => ("adt", v.as_u32()),
                    K::Closure(..) => ("closure", 0),
                    _ => ("other", 0),
                };
                J::A(vec![s("agg"), s(kind), t, n(v), J::A(ops)])
            }
            _ => J::A(vec![s("opaque"), s(format!("{:?}", r))]),
        }
    }
    fn run(&mut self, promoted: bool) -> J {
        let tcx = self.cx.tcx;
        let body = self.body;
        let d = self.inst.def_id();
        let sm = tcx.sess.source_map();
        let span = body.span;
        let lo = sm.lookup_char_pos(span.lo());
        let file = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.path(rustc_span::RemapPathScopeComponents::DIAGNOSTICS).display().to_string(),
            o => format!("{:?}", o),
        };
        let mut o = vec![
            ("key", s(self.key.clone())), ("path", s(path(tcx, d))), ("local", J::B(d.is_local())),
            ("crate", s(tcx.crate_name(d.krate).as_str())), ("file", s(file)), ("line", n(lo.line as i64)),
            ("argc", n(body.arg_count as i64)), ("promoted", J::B(promoted)),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
        ];
        if let Some(l) = d.as_local() {
            let pubk = match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => tcx.effective_visibilities(()).is_reachable(l),
                _ => false,
            };
            o.push(("pub", J::B(pubk)));
            let root = tcx.typeck_root_def_id(d);
            o.push(("root", s(path(tcx, root))));
        }
        if let DefKind::AssocFn = tcx.def_kind(d) {
            o.push(("name", s(tcx.item_name(d).as_str())));
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let e2 = TypingEnv::post_analysis(tcx, im);
                let ids = self.cx.ty(st, e2);
                o.push(("impl_self", n(ids as i64)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", s(ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tr.to_string())))));
                    o.push(("trait", s(path(tcx, tr.def_id))));
                    if tcx.is_automatically_derived(im) { o.push(("derived", J::B(true))); }
                }
            }
        }
        let locals: Vec<J> = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        o.push(("locals", J::A(locals)));
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                dbg.push(J::A(vec![s(v.name.as_str()), p]));
            }
        }
        o.push(("dbg", J::A(dbg)));
        if let Some(a) = body.spread_arg { o.push(("spread", n(a.as_u32()))); }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                use mir::StatementKind::*;
                match &x.kind {
                    Assign(a) => { let p = self.place(&a.0); let r = self.rvalue(&a.1); let l = self.line(x.source_info.span); st.push(J::A(vec![s("="), p, r, l])); }
                    SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(J::A(vec![s("setd"), p, n(variant_index.as_u32())])); }
                    Intrinsic(i) => st.push(J::A(vec![s("intr"), s(format!("{:?}", i))])),
                    StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_u32())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            use mir::TerminatorKind::*;
            let tj = match &t.kind {
                Goto { target, .. } => J::A(vec![s("goto"), n(target.as_u32())]),
                SwitchInt { discr, targets } => {
                    let dt = discr.ty(self.body, tcx); let dt = self.ty(dt);
                    let d = self.op(discr);
                    let ts = targets.iter().map(|(v, b)| J::A(vec![s(v.to_string()), n(b.as_u32())])).collect();
                    J::A(vec![s("switch"), d, J::A(ts), n(targets.otherwise().as_u32()), dt])
                }
                Return => J::A(vec![s("return")]),
                Unreachable => J::A(vec![s("unreachable")]),
                Drop { place, target, .. } => { let ty = place.ty(self.body, tcx).ty; let ty = self.ty(ty); J::A(vec![s("drop"), self.place(place), n(target.as_u32()), ty]) }
                Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a = args.iter().map(|x| self.op(&x.node)).collect();
                    let at = args.iter().map(|x| { let t = x.node.ty(self.body, tcx); self.ty(t) }).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(self.body, tcx).ty; let dt = self.ty(dt);
                    J::A(vec![s("call"), f, J::A(a), d, target.map(|t| n(t.as_u32())).unwrap_or(J::Null), dt, J::A(at)])
                }
                Assert { cond, expected, target, msg, .. } => {
                    use mir::AssertKind as AK;
                    let c = self.op(cond);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AK::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(len), self.op(index)]),
                        AK::Overflow(b, l, r) => (format!("overflow_{:?}", b), vec![self.op(l), self.op(r)]),
                        AK::OverflowNeg(x) => ("overflow_neg".into(), vec![self.op(x)]),
                        AK::DivisionByZero(x) => ("div_zero".into(), vec![self.op(x)]),
                        AK::RemainderByZero(x) => ("rem_zero".into(), vec![self.op(x)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), n(target.as_u32()), s(k), J::A(ops)])
                }
                UnwindResume | UnwindTerminate(_) => J::A(vec![s("resume")]),
                FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_u32())]),
                FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_u32())]),
                k => J::A(vec![s("other"), s(format!("{:?}", k))]),
            };
            let l = self.line(t.source_info.span);
            let mut bo = vec![("s", J::A(st)), ("t", tj), ("l", l)];
            if bb.is_cleanup { bo.push(("c", J::B(true))); }
            let sp = t.source_info.span;
            if sp.from_expansion() {
                if let Some(m) = sp.macro_backtrace().last() {
                    if let rustc_span::hygiene::ExpnKind::Macro(_, name) = m.kind { bo.push(("m", s(name.as_str()))); }
                }
            }
            blocks.push(J::O(bo));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
}

struct Blocks<'tcx> { tcx: TyCtxt<'tcx>, n: usize }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Blocks<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.in_external_macro(self.tcx.sess.source_map()) { self.n += 1; }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, tys: vec![], ty_ids: HashMap::new(), seen: HashSet::new(), queue: VecDeque::new(), bodies: vec![] };
        let mut unsafe_uses = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
        let mut statics = vec![];
        for k in keys {
            let d = k.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let env = TypingEnv::post_analysis(tcx, d);
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let args = tcx.erase_and_anonymize_regions(args);
                    let i = Instance::new_raw(d, args);
                    cx.enqueue(i, env);
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    statics.push(J::O(vec![("path", s(path(tcx, d))), ("mut", J::B(mutability.is_mut())), ("ty", s(t.to_string())),
                        ("freeze", J::B(t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d))))]));
                }
                _ => {}
            }
        }
        // code that the compiler does not vouch for
        for k in tcx.hir_body_owners() {
            let d = k.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                unsafe_uses.push(s(format!("unsafe fn {}", path(tcx, d))));
            }
            if let Some(b) = tcx.hir_maybe_body_owned_by(k) {
                let mut v = Blocks { tcx, n: 0 };
                rustc_hir::intravisit::Visitor::visit_expr(&mut v, b.value);
                if v.n > 0 { unsafe_uses.push(s(format!("unsafe block in {}", path(tcx, d)))); }
            }
        }
        // every field and fn item of the crate for the type / unsafety inventory
        let mut items = vec![];
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            let k = tcx.def_kind(d);
            items.push(J::O(vec![("path", s(path(tcx, d))), ("kind", s(format!("{:?}", k)))]));
            if matches!(k, DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                cx.ty(t, TypingEnv::post_analysis(tcx, d));
            }
            if let DefKind::Impl { of_trait: true } = k {
                if tcx.impl_trait_header(d).safety.is_unsafe() && !tcx.def_span(d).in_derive_expansion() { unsafe_uses.push(s(format!("unsafe impl {}", path(tcx, d)))); }
            }
        }
        while let Some((key, inst, env, prom)) = cx.queue.pop_front() {
            let d = inst.def_id();
            let body: mir::Body<'tcx> = match prom {
                Some(p) => tcx.promoted_mir(d)[p].clone(),
                None => {
                    if !tcx.is_mir_available(d) { continue; }
                    tcx.instance_mir(inst.def).clone()
                }
            };
            let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body));
            // the body is now instantiated: use an identity view for what remains
            let mut b = B { cx: &mut cx, key, inst, env, body: &body };
            let j = b.run(prom.is_some());
            cx.bodies.push(j);
        }
        let top = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("types", J::A(std::mem::take(&mut cx.tys))),
            ("bodies", J::A(std::mem::take(&mut cx.bodies))),
            ("statics", J::A(statics)), ("items", J::A(items)), ("unsafe", J::A(unsafe_uses)),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        std::fs::write(&self.out, o).unwrap();
        Compilation::Continue
    }
}
struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let is = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want);
    let probing = args.iter().any(|a| a.starts_with("--print") || a == "-vV");
    if is && !probing {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out: std::env::var("MIRDUMP_OUT").unwrap() });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
