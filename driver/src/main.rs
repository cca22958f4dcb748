//! MIR/type dumper: a rustc driver that is used as RUSTC_WORKSPACE_WRAPPER.
//! It compiles the crate exactly as cargo asks and, after analysis, writes the
//! resolved program (ADTs, impls, MIR bodies with resolved callees and types)
//! as JSON to $MIRDUMP_OUT/<package>.json.  It decides nothing itself.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    e.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    e.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    pkg: String,
}

impl<'tcx> Cx<'tcx> {
    fn krate(&self, d: DefId) -> String {
        if d.krate == LOCAL_CRATE {
            self.pkg.clone()
        } else {
            self.tcx.crate_name(d.krate).to_string()
        }
    }
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.krate(d), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::A(
            a.iter()
                .filter_map(|g| match g.kind() {
                    ty::GenericArgKind::Type(t) => Some(self.ty(t)),
                    ty::GenericArgKind::Const(c) => {
                        Some(J::O(vec![("k", s("const")), ("v", s(format!("{}", c)))]))
                    }
                    _ => None,
                })
                .collect(),
        )
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            TyKind::Adt(d, a) => J::O(vec![
                ("k", s("adt")),
                ("p", s(self.path(d.did()))),
                ("key", s(self.key(d.did()))),
                ("a", self.args(a)),
            ]),
            TyKind::Ref(_, t, m) => J::O(vec![
                ("k", s("ref")),
                ("m", J::B(m.is_mut())),
                ("t", self.ty(*t)),
            ]),
            TyKind::RawPtr(t, m) => J::O(vec![
                ("k", s("ptr")),
                ("m", J::B(m.is_mut())),
                ("t", self.ty(*t)),
            ]),
            TyKind::Tuple(ts) => J::O(vec![
                ("k", s("tuple")),
                ("a", J::A(ts.iter().map(|t| self.ty(t)).collect())),
            ]),
            TyKind::Slice(t) => J::O(vec![("k", s("slice")), ("t", self.ty(*t))]),
            TyKind::Array(t, n) => J::O(vec![
                ("k", s("array")),
                ("t", self.ty(*t)),
                ("n", s(format!("{}", n))),
            ]),
            TyKind::Closure(d, _) => J::O(vec![
                ("k", s("closure")),
                ("key", s(self.key(*d))),
                
            ]),
            TyKind::FnDef(d, a) => J::O(vec![
                ("k", s("fndef")),
                ("f", self.callee(*d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()), None)),
            ]),
            TyKind::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.as_str()))]),
            TyKind::Bool
            | TyKind::Char
            | TyKind::Int(_)
            | TyKind::Uint(_)
            | TyKind::Float(_)
            | TyKind::Str
            | TyKind::Never => J::O(vec![("k", s("prim")), ("n", s(format!("{}", t)))]),
            _ => J::O(vec![
                ("k", s("other")),
                ("n", s(with_no_trimmed_paths!(format!("{}", t)))),
            ]),
        }
    }
    fn callee(&self, d: DefId, a: GenericArgsRef<'tcx>, env: Option<TypingEnv<'tcx>>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("key", s(self.key(d))),
            ("path", s(self.path(d))),
            ("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())),
            ("krate", s(self.krate(d))),
            ("args", self.args(a)),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("implself", self.ty(st)));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                o.push(("impltrait", s(self.path(tr.skip_binder().def_id))));
            }
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push(("ctor", s(self.path(tcx.parent(d)))));
        }
        if let Some(env) = env {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, a) {
                let rd = i.def_id();
                if rd != d {
                    let mut r = vec![
                        ("key", s(self.key(rd))),
                        ("path", s(self.path(rd))),
                        ("krate", s(self.krate(rd))),
                        ("args", self.args(i.args)),
                    ];
                    if let Some(im) = tcx.impl_of_assoc(rd) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        r.push(("implself", self.ty(st)));
                    }
                    o.push(("res", J::O(r)));
                }
            }
        }
        J::O(o)
    }
    fn scalar_bits(&self, sc: Scalar, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match sc {
            Scalar::Int(i) => {
                let sz = i.size();
                let bits = i.to_bits(sz);
                match t.kind() {
                    TyKind::Int(_) => J::O(vec![("int", s(format!("{}", sz.sign_extend(bits))))]),
                    TyKind::Float(f) => {
                        let v = if f.bit_width() == 32 {
                            format!("{:?}", f32::from_bits(bits as u32))
                        } else {
                            format!("{:?}", f64::from_bits(bits as u64))
                        };
                        J::O(vec![("float", s(v))])
                    }
                    TyKind::Bool => J::O(vec![("bool", J::B(bits != 0))]),
                    TyKind::Char => J::O(vec![("char", J::N(bits as i128))]),
                    _ => J::O(vec![("int", s(format!("{}", bits)))]),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Static(d)) => J::O(vec![("static", s(self.key(d)))]),
                    Some(GlobalAlloc::Memory(m)) => {
                        let inner = m.inner();
                        let len = inner.len();
                        if let TyKind::Ref(_, it, _) = t.kind() {
                            let env = TypingEnv::fully_monomorphized();
                            if let Ok(l) = tcx.layout_of(env.as_query_input(*it)) {
                                let n = l.size.bytes() as usize;
                                if n > 0 && n <= 16 && off.bytes() as usize + n <= len
                                    && matches!(it.kind(), TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Bool | TyKind::Char)
                                {
                                    let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(
                                        off.bytes() as usize..off.bytes() as usize + n,
                                    );
                                    let mut v: u128 = 0;
                                    for (i, x) in b.iter().enumerate() {
                                        v |= (*x as u128) << (8 * i);
                                    }
                                    let si = rustc_middle::ty::ScalarInt::try_from_uint(v, l.size).unwrap();
                                    return J::O(vec![("refto", self.scalar_bits(Scalar::Int(si), *it))]);
                                }
                            }
                        }
                        J::O(vec![("mem", J::N(len as i128))])
                    }
                    Some(GlobalAlloc::Function { instance }) => {
                        J::O(vec![("fnptr", s(self.key(instance.def_id())))])
                    }
                    _ => J::O(vec![("ptr", J::Null)]),
                }
            }
        }
    }
    fn cval(&self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::Scalar(sc) => self.scalar_bits(sc, t),
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Slice { .. } => {
                let b = v.try_get_slice_bytes_for_diagnostics(self.tcx);
                match b {
                    Some(b) => J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]),
                    None => J::Null,
                }
            }
            _ => J::O(vec![("indirect", J::Null)]),
        }
    }
    fn konst(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o = vec![("op", s("const")), ("ty", self.ty(t))];
        if let TyKind::FnDef(d, a) = t.kind() {
            o.push(("fn", self.callee(*d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()), Some(env))));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::N(p.as_usize() as i128)));
                o.push(("pkey", s(self.key(u.def))));
            } else {
                o.push(("cdef", s(self.key(u.def))));
                o.push(("cpath", s(self.path(u.def))));
                o.push(("cargs", self.args(u.args)));
            }
        }
        match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => o.push(("val", self.cval(v, t))),
            Err(_) => o.push(("sym", s(format!("{}", c.const_)))),
        }
        J::O(o)
    }
    fn place(&self, p: Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::O(vec![("f", J::N(f.as_usize() as i128)), ("ty", self.ty(t))]),
                ProjectionElem::Index(l) => J::O(vec![("ix", J::N(l.as_usize() as i128))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::O(vec![
                    ("cix", J::N(offset as i128)),
                    ("min", J::N(min_length as i128)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("sub", J::N(from as i128)),
                    ("to", J::N(to as i128)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(n, i) => J::O(vec![
                    ("dc", J::N(i.as_usize() as i128)),
                    ("n", s(n.map(|x| x.to_string()).unwrap_or_default())),
                ]),
                _ => s("?"),
            });
        }
        J::O(vec![("l", J::N(p.local.as_usize() as i128)), ("p", J::A(v))])
    }
    fn operand(&self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("op", s("copy")), ("place", self.place(*p))]),
            Operand::Move(p) => J::O(vec![("op", s("move")), ("place", self.place(*p))]),
            Operand::Constant(c) => self.konst(c, env),
            Operand::RuntimeChecks(_) => J::O(vec![("op", s("rtcheck"))]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("r", s("use")), ("o", self.operand(o, env))]),
            Rvalue::Repeat(o, n) => J::O(vec![
                ("r", s("repeat")),
                ("o", self.operand(o, env)),
                ("n", s(format!("{}", n))),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", s("ref")),
                ("m", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("place", self.place(*p)),
            ]),
            Rvalue::RawPtr(k, p) => J::O(vec![
                ("r", s("rawptr")),
                ("m", J::B(matches!(k, RawPtrKind::Mut))),
                ("place", self.place(*p)),
            ]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("r", s("cast")),
                ("kind", s(format!("{:?}", k))),
                ("o", self.operand(o, env)),
                ("from", self.ty(o.ty(&body.local_decls, self.tcx))),
                ("ty", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(op, b) => J::O(vec![
                ("r", s("bin")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(&b.0, env)),
                ("b", self.operand(&b.1, env)),
                ("ty", self.ty(b.0.ty(&body.local_decls, self.tcx))),
            ]),
            Rvalue::UnaryOp(op, o) => J::O(vec![
                ("r", s("un")),
                ("op", s(format!("{:?}", op))),
                ("o", self.operand(o, env)),
                ("ty", self.ty(o.ty(&body.local_decls, self.tcx))),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let mut vs = vec![];
                if let TyKind::Adt(d, _) = t.kind() {
                    if d.is_enum() {
                        for (i, dv) in d.discriminants(self.tcx) {
                            vs.push(J::A(vec![
                                s(d.variant(i).name.as_str()),
                                s(format!("{}", dv.val)),
                            ]));
                        }
                    }
                }
                J::O(vec![("r", s("discr")), ("place", self.place(*p)), ("variants", J::A(vs))])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("k", s("array"))),
                    AggregateKind::Tuple => o.push(("k", s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        o.push(("k", s("adt")));
                        o.push(("adt", s(self.path(*d))));
                        o.push(("akey", s(self.key(*d))));
                        o.push(("variant", s(ad.variant(*vi).name.as_str())));
                        o.push(("enum", J::B(ad.is_enum())));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("k", s("closure")));
                        o.push(("key", s(self.key(*d))));
                    }
                    _ => o.push(("k", s("other"))),
                }
                o.push(("ops", J::A(ops.iter().map(|x| self.operand(x, env)).collect())));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("r", s("use")),
                ("o", J::O(vec![("op", s("copy")), ("place", self.place(*p))])),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("r", s("ref")),
                ("m", J::B(m.is_mut())),
                ("place", self.place(*p)),
            ]),
            _ => J::O(vec![("r", s("other")), ("dbg", s(format!("{:?}", r)))]),
        }
    }
    fn body(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => st.push(J::O(vec![
                        ("s", s("assign")),
                        ("place", self.place(b.0)),
                        ("rv", self.rvalue(&b.1, body, env)),
                        ("sp", self.span(x.source_info.span)),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::O(vec![
                        ("s", s("setdiscr")),
                        ("place", self.place(**place)),
                        ("v", J::N(variant_index.as_usize() as i128)),
                    ])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::O(vec![("t", s("goto")), ("to", J::N(target.as_usize() as i128))])
                }
                TerminatorKind::SwitchInt { discr, targets } => J::O(vec![
                    ("t", s("switch")),
                    ("o", self.operand(discr, env)),
                    ("ty", self.ty(discr.ty(&body.local_decls, self.tcx))),
                    (
                        "vals",
                        J::A(targets.iter().map(|(v, b)| J::A(vec![s(format!("{}", v)), J::N(b.as_usize() as i128)])).collect()),
                    ),
                    ("else", J::N(targets.otherwise().as_usize() as i128)),
                    ("sp", sp),
                ]),
                TerminatorKind::Return => J::O(vec![("t", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("t", s("unreachable"))]),
                TerminatorKind::Drop { target, place, .. } => J::O(vec![
                    ("t", s("drop")),
                    ("place", self.place(*place)),
                    ("pty", self.ty(place.ty(&body.local_decls, self.tcx).ty)),
                    ("to", J::N(target.as_usize() as i128)),
                    ("sp", sp),
                ]),
                TerminatorKind::Call { func, args, destination, target, .. } => J::O(vec![
                    ("t", s("call")),
                    ("f", self.operand(func, env)),
                    ("fty", self.ty(func.ty(&body.local_decls, self.tcx))),
                    ("args", J::A(args.iter().map(|a| self.operand(&a.node, env)).collect())),
                    (
                        "atys",
                        J::A(args.iter().map(|a| self.ty(a.node.ty(&body.local_decls, self.tcx))).collect()),
                    ),
                    ("dest", self.place(*destination)),
                    ("dty", self.ty(destination.ty(&body.local_decls, self.tcx).ty)),
                    ("to", target.map(|t| J::N(t.as_usize() as i128)).unwrap_or(J::Null)),
                    ("sp", sp),
                ]),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => J::O(vec![
                    ("t", s("assert")),
                    ("o", self.operand(cond, env)),
                    ("exp", J::B(*expected)),
                    (
                        "msg",
                        s(match &**msg {
                            AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                            AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                            AssertKind::DivisionByZero(_) => "div0".to_string(),
                            AssertKind::RemainderByZero(_) => "rem0".to_string(),
                            _ => "other".to_string(),
                        }),
                    ),
                    ("to", J::N(target.as_usize() as i128)),
                    ("sp", sp),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::O(vec![("t", s("goto")), ("to", J::N(real_target.as_usize() as i128))])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("t", s("goto")), ("to", J::N(real_target.as_usize() as i128))])
                }
                _ => J::O(vec![("t", s("stop"))]),
            };
            bbs.push(J::O(vec![
                ("cleanup", J::B(bb.is_cleanup)),
                ("st", J::A(st)),
                ("term", tj),
            ]));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(p)]));
            }
        }
        vec![
            ("argc", J::N(body.arg_count as i128)),
            ("locals", J::A(body.local_decls.iter().map(|d| self.ty(d.ty)).collect())),
            ("names", J::A(names)),
            ("bbs", J::A(bbs)),
        ]
    }

    fn dump(&self) -> J {
        let tcx = self.tcx;
        let ev = tcx.effective_visibilities(());
        let mut fns = vec![];
        let mut consts = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            let env = TypingEnv::post_analysis(tcx, d);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let body = tcx.optimized_mir(d);
                    let mut o = vec![
                        ("key", s(self.key(d))),
                        ("path", s(self.path(d))),
                        ("name", s(tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default())),
                        ("kind", s(format!("{:?}", dk))),
                        ("sp", self.span(tcx.def_span(d))),
                        ("reach", J::B(ev.is_reachable(ld))),
                    ];
                    if dk != DefKind::Closure {
                        o.push(("pub", J::B(tcx.visibility(d).is_public())));
                        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                        o.push(("unsafe", J::B(!sig.fn_sig_kind.is_safe())));
                        o.push(("inputs", J::A(sig.inputs().iter().map(|t| self.ty(*t)).collect())));
                        o.push(("output", self.ty(sig.output())));
                        o.push((
                            "generics",
                            J::A({
                                let g = tcx.generics_of(d);
                                let mut v = vec![];
                                for i in 0..g.count() {
                                    let p = g.param_at(i, tcx);
                                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                                        v.push(s(p.name.as_str()));
                                    }
                                }
                                v
                            }),
                        ));
                    } else {
                        o.push(("parent", s(self.key(tcx.parent(d)))));
                        let g = tcx.generics_of(tcx.typeck_root_def_id(d));
                        let mut v = vec![];
                        for i in 0..g.count() {
                            let p = g.param_at(i, tcx);
                            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                                v.push(s(p.name.as_str()));
                            }
                        }
                        o.push(("generics", J::A(v)));
                    }
                    if let Some(im) = tcx.impl_of_assoc(d) {
                        o.push(("implself", self.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip())));
                        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                            o.push(("impltrait", s(self.path(tr.skip_binder().def_id))));
                        }
                    } else if let Some(tr) = tcx.trait_of_assoc(d) {
                        o.push(("trait", s(self.path(tr))));
                    }
                    o.extend(self.body(body, env));
                    let prom = tcx.promoted_mir(d);
                    o.push((
                        "promoted",
                        J::A(prom.iter().map(|b| J::O(self.body(b, env))).collect()),
                    ));
                    fns.push(J::O(o));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    if tcx.generics_of(d).is_empty() {
                        if let Ok(v) = tcx.const_eval_poly(d) {
                            consts.push(J::O(vec![
                                ("key", s(self.key(d))),
                                ("ty", self.ty(t)),
                                ("val", self.cval(v, t)),
                                ("sp", self.span(tcx.def_span(d))),
                            ]));
                        }
                    }
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut val = J::Null;
                    if let Ok(a) = tcx.eval_static_initializer(d) {
                        let inner = a.inner();
                        let n = inner.len();
                        if n <= 16 && n > 0 && inner.provenance().ptrs().is_empty() {
                            let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                            let mut v: u128 = 0;
                            for (i, x) in b.iter().enumerate() {
                                v |= (*x as u128) << (8 * i);
                            }
                            if let Some(si) = rustc_middle::ty::ScalarInt::try_from_uint(v, rustc_abi::Size::from_bytes(n as u64)) {
                                val = self.scalar_bits(Scalar::Int(si), t);
                            }
                        }
                    }
                    consts.push(J::O(vec![
                        ("key", s(self.key(d))),
                        ("static", J::B(true)),
                        ("mut", J::B(tcx.is_mutable_static(d))),
                        ("ty", self.ty(t)),
                        ("val", val),
                        ("sp", self.span(tcx.def_span(d))),
                    ]));
                }
                _ => {}
            }
        }
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let ad = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in ad.variants() {
                        vs.push(J::O(vec![
                            ("name", s(v.name.as_str())),
                            (
                                "fields",
                                J::A(
                                    v.fields
                                        .iter()
                                        .map(|f| {
                                            J::O(vec![
                                                ("name", s(f.name.as_str())),
                                                ("pub", J::B(f.vis.is_public())),
                                                ("ty", self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                            ])
                                        })
                                        .collect(),
                                ),
                            ),
                        ]));
                    }
                    adts.push(J::O(vec![
                        ("key", s(self.key(d))),
                        ("path", s(self.path(d))),
                        ("kind", s(format!("{:?}", tcx.def_kind(d)))),
                        ("reach", J::B(ev.is_reachable(id))),
                        ("sp", self.span(tcx.def_span(d))),
                        ("variants", J::A(vs)),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![
                        ("key", s(self.key(d))),
                        ("self", self.ty(st)),
                        ("sp", self.span(tcx.def_span(d))),
                        (
                            "items",
                            J::A(
                                tcx.associated_item_def_ids(d)
                                    .iter()
                                    .map(|i| {
                                        J::A(vec![
                                            s(tcx.opt_item_name(*i).map(|n| n.to_string()).unwrap_or_default()),
                                            s(self.key(*i)),
                                            s(format!("{:?}", tcx.def_kind(*i))),
                                        ])
                                    })
                                    .collect(),
                            ),
                        ),
                        (
                            "preds",
                            J::A(
                                tcx.clauses_of(d)
                                    .clauses
                                    .iter()
                                    .map(|(p, _)| s(with_no_trimmed_paths!(format!("{:?}", p))))
                                    .collect(),
                            ),
                        ),
                    ];
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.skip_binder();
                        o.push(("trait", s(self.path(tr.def_id))));
                        o.push(("targs", self.args(tr.args)));
                        o.push(("unsafe", J::B(tcx.impl_trait_header(d).safety.is_unsafe())));
                    }
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        J::O(vec![
            ("pkg", s(self.pkg.clone())),
            ("fns", J::A(fns)),
            ("consts", J::A(consts)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
        ])
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let (Ok(out), Ok(pkg)) = (std::env::var("MIRDUMP_OUT"), std::env::var("CARGO_PKG_NAME")) {
            let cx = Cx { tcx, pkg: pkg.clone() };
            let j = cx.dump();
            let mut o = String::new();
            j.w(&mut o);
            std::fs::write(format!("{}/{}.json", out, pkg), o).expect("write dump");
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let probe = args.iter().any(|a| a == "-vV" || a == "-V" || a.starts_with("--print"));
    if !probe {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Cdebug-assertions=off".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
