//! A rustc driver that writes the type-checked program (MIR after promotion,
//! before drop elaboration) of every workspace crate as JSON facts.
//! It never changes what is compiled: it only reads the queries' results.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n<T: std::fmt::Display>(x: T) -> J {
    J::N(x.to_string())
}
impl J {
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::N(x) => out.push_str(x),
            J::S(x) => {
                out.push('"');
                for c in x.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    e.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push('"');
                    out.push_str(k);
                    out.push_str("\":");
                    e.write(out);
                }
                out.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, Option<J>>,
    consts: Vec<(Const<'tcx>, TypingEnv<'tcx>, Span)>,
}

fn is_local_repo(tcx: TyCtxt<'_>, d: DefId) -> bool {
    d.is_local() || tcx.crate_name(d.krate).as_str().starts_with("tsfile")
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        // crate::path::{impl#3}::name -- unique, stable under edits elsewhere
        let dp = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), dp.to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", f, lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.tyid(t))
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(J::O(vec![("const", s(format!("{:?}", c)))])),
                _ => {}
            }
        }
        J::A(v)
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.tymap.insert(t, id);
        self.types.push(J::Null);
        let j = match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                J::O(vec![("k", s("prim")), ("n", s(format!("{}", t)))])
            }
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Adt(def, args) => {
                self.adt(def.did());
                let a = self.args(args);
                J::O(vec![("k", s("adt")), ("p", s(self.path(def.did()))), ("key", s(self.key(def.did()))), ("a", a)])
            }
            ty::Array(e, c) => {
                let e = self.ty(*e);
                let l = c.try_to_target_usize(self.tcx);
                J::O(vec![("k", s("array")), ("e", e), ("n", l.map(|x| n(x)).unwrap_or(J::Null))])
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                J::O(vec![("k", s("slice")), ("e", e)])
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(*e);
                J::O(vec![("k", s("ref")), ("e", e), ("m", J::B(m.is_mut()))])
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(*e);
                J::O(vec![("k", s("ptr")), ("e", e), ("m", J::B(m.is_mut()))])
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                J::O(vec![("k", s("tuple")), ("a", J::A(v))])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("i", n(p.index)), ("n", s(p.name.as_str()))]),
            ty::Closure(d, _) => J::O(vec![("k", s("closure")), ("key", s(self.key(*d)))]),
            ty::FnDef(d, _) => {
                J::O(vec![("k", s("fndef")), ("key", s(self.key(*d))), ("p", s(self.path(*d)))])
            }
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("p", s(with_no_trimmed_paths!(format!("{}", t))))]),
            _ => J::O(vec![("k", s("other")), ("p", s(with_no_trimmed_paths!(format!("{}", t))))]),
        };
        self.types[id] = j;
        id
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, None);
        let def = self.tcx.adt_def(d);
        let local = is_local_repo(self.tcx, d);
        let mut vs = vec![];
        let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(i, x)| (i, x.val)).collect()
        } else {
            vec![]
        };
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ft = if local { self.ty(ft) } else { J::Null };
                fs.push(J::A(vec![s(f.name.as_str()), ft, J::B(f.vis.is_public())]));
            }
            let dv = discrs.iter().find(|x| x.0 == vi).map(|x| x.1).unwrap_or(0);
            vs.push(J::O(vec![("n", s(v.name.as_str())), ("d", n(dv)), ("f", J::A(fs))]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" };
        let j = J::O(vec![
            ("key", s(self.key(d))),
            ("p", s(self.path(d))),
            ("kind", s(kind)),
            ("local", J::B(local)),
            ("vis", J::B(self.tcx.visibility(d).is_public())),
            ("v", J::A(vs)),
        ]);
        self.adts.insert(d, Some(j));
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_u32())];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            s(def.variant(vi).fields[f].name.as_str())
                        }
                        _ => J::Null,
                    };
                    let t = self.ty(t);
                    J::A(vec![s("f"), n(f.as_u32()), name, t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(offset), J::B(from_end), n(min_length)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("v"), n(vi.as_u32())]),
                _ => J::A(vec![s("o")]),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            let f = self.callee(*d, a, env);
            return J::O(vec![("fn", f)]);
        }
        let tj = self.ty(t);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return J::O(vec![("t", tj), ("prom", n(p.as_u32())), ("of", s(self.key(u.def)))]);
            }
        }
        let name = match c.const_ {
            Const::Unevaluated(u, _) => s(self.path(u.def)),
            _ => J::Null,
        };
        let i = self.consts.len();
        self.consts.push((c.const_, env, c.span));
        J::O(vec![("t", tj), ("cst", n(i)), ("name", name)])
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("c"), self.constant(c, env)]),
            _ => J::A(vec![s("rtc")]),
        }
    }
    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("key", s(self.key(d))),
            ("p", s(self.path(d))),
            ("n", s(tcx.item_name(d).as_str().to_string())),
        ];
        let aj = self.args(a);
        o.push(("a", aj));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
            if a.len() > 0 {
                if let GenericArgKind::Type(st) = a[0].kind() {
                    let sj = self.ty(st);
                    o.push(("self", sj));
                }
            }
        }
        if let Some(i) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            let sj = self.ty(st);
            o.push(("iself", sj));
        }
        let ea = tcx.erase_and_anonymize_regions(a);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, ea) {
                let rd = inst.def_id();
                let ra = self.args(inst.args);
                let virt = matches!(inst.def, ty::InstanceKind::Virtual(..));
                o.push(("rk", s(self.key(rd))));
                o.push(("rp", s(self.path(rd))));
                o.push(("ra", ra));
                o.push(("virt", J::B(virt)));
                // blanket conversions: name the From/TryFrom impl they forward to
                let rp = self.path(rd);
                let nm = tcx.item_name(d).as_str().to_string();
                if nm == "into" || nm == "try_into" {
                    let tr = if nm == "into" { "From" } else { "TryFrom" };
                    let _ = &rp;
                    let _ = tr;
                    let sym = rustc_span::Symbol::intern(if nm == "into" { "From" } else { "TryFrom" });
                    if let Some(td) = tcx.get_diagnostic_item(sym) {
                        if a.len() >= 2 {
                            let (st, tt) = (ea[0].expect_ty(), ea[1].expect_ty());
                            let na = tcx.mk_args(&[tt.into(), st.into()]);
                            if let Some(it) = tcx
                                .associated_items(td)
                                .in_definition_order()
                                .find(|x| matches!(x.kind, ty::AssocKind::Fn { .. }))
                            {
                                if let Ok(Some(i2)) = Instance::try_resolve(tcx, env, it.def_id, na) {
                                    let k = self.key(i2.def_id());
                                    let p = self.path(i2.def_id());
                                    o.push(("via", s(k)));
                                    o.push(("viap", s(p)));
                                }
                            }
                        }
                    }
                }
            }
        }
        let sig = tcx.fn_sig(d).instantiate(tcx, a).skip_norm_wip().skip_binder();
        let ret = self.ty(sig.output());
        o.push(("ret", ret));
        J::O(o)
    }
    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> J {
        let env = TypingEnv::post_analysis(self.tcx, owner);
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.as_str().to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let nm = names.get(&l.as_u32()).map(|x| s(x.clone())).unwrap_or(J::Null);
            locals.push(J::A(vec![t, nm]));
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        let pj = self.place(body, p);
                        let rj = self.rvalue(body, r, env);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), pj, rj, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, place);
                        st.push(J::A(vec![s("setd"), pj, n(variant_index.as_u32())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), s(format!("{:?}", i))]));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let macro_bt: Vec<J> = t
                .source_info
                .span
                .macro_backtrace()
                .map(|e| s(e.kind.descr().to_string()))
                .collect();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dj = self.operand(body, discr, env);
                    let dt = discr.ty(body, self.tcx);
                    let dt = self.ty(dt);
                    let v: Vec<J> =
                        targets.iter().map(|(v, b)| J::A(vec![n(v), n(b.as_u32())])).collect();
                    J::A(vec![s("switch"), dj, J::A(v), n(targets.otherwise().as_u32()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pj = self.place(body, place);
                    let pt = place.ty(body, self.tcx).ty;
                    let pt = self.ty(pt);
                    J::A(vec![s("drop"), pj, n(target.as_u32()), pt])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let fj = self.operand(body, func, env);
                    let av: Vec<J> = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                    let mut atv = vec![];
                    for a in args.iter() {
                        let t = a.node.ty(body, self.tcx);
                        atv.push(self.ty(t));
                    }
                    let dj = self.place(body, destination);
                    let tg = target.map(|b| n(b.as_u32())).unwrap_or(J::Null);
                    let fs = self.span(*fn_span);
                    J::A(vec![s("call"), fj, J::A(av), dj, tg, fs, J::A(atv)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let cj = self.operand(body, cond, env);
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    let oj: Vec<J> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                    J::A(vec![s("assert"), cj, J::B(*expected), s(k), J::A(oj), n(target.as_u32())])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_u32())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_u32())])
                }
                _ => J::A(vec![s("diverge")]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("mac", J::A(macro_bt)),
                ("cl", J::B(b.is_cleanup)),
            ]));
        }
        let ret = self.ty(body.return_ty());
        J::O(vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("ret", ret),
            ("blocks", J::A(blocks)),
            ("spread", body.spread_arg.map(|l| n(l.as_u32())).unwrap_or(J::Null)),
        ])
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(body, o, env)]),
            Rvalue::Repeat(o, c) => {
                let oj = self.operand(body, o, env);
                let l = c.try_to_target_usize(self.tcx);
                J::A(vec![s("repeat"), oj, l.map(|x| n(x)).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "k",
                    BorrowKind::Mut { .. } => "m",
                };
                J::A(vec![s("ref"), s(m), self.place(body, p)])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("rawptr"), s(format!("{:?}", k)), self.place(body, p)])
            }
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(body, self.tcx);
                let oj = self.operand(body, o, env);
                let kj = match k {
                    CastKind::PointerCoercion(c, _) => format!("ptr:{:?}", c),
                    k => format!("{:?}", k),
                };
                let fj = self.ty(ft);
                let tj = self.ty(*t);
                J::A(vec![s("cast"), s(kj), oj, tj, fj])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(body, self.tcx);
                let tj = self.ty(t);
                let a = self.operand(body, &ab.0, env);
                let b = self.operand(body, &ab.1, env);
                J::A(vec![s("bin"), s(format!("{:?}", op)), a, b, tj])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(body, self.tcx);
                let tj = self.ty(t);
                let aj = self.operand(body, a, env);
                J::A(vec![s("un"), s(format!("{:?}", op)), aj, tj])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let tj = self.ty(t);
                J::A(vec![s("discr"), self.place(body, p), tj])
            }
            Rvalue::Aggregate(k, ops) => {
                let ov: Vec<J> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                match &**k {
                    AggregateKind::Array(t) => {
                        let tj = self.ty(*t);
                        J::A(vec![s("agg"), s("array"), J::A(ov), tj])
                    }
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), J::A(ov)]),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        self.adt(*d);
                        let aj = self.args(a);
                        J::A(vec![
                            s("agg"),
                            s("adt"),
                            J::A(ov),
                            s(self.key(*d)),
                            n(vi.as_u32()),
                            s(self.path(*d)),
                            aj,
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        J::A(vec![s("agg"), s("closure"), J::A(ov), s(self.key(*d))])
                    }
                    _ => J::A(vec![s("agg"), s("other"), J::A(ov)]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(body, p)])]),
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(body, p)])]),
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        let tcx = self.tcx;
        let elem = |t: Ty<'tcx>| -> Option<(usize, bool)> {
            match t.kind() {
                ty::Uint(u) => Some((u.bit_width().unwrap_or(64) as usize / 8, false)),
                ty::Int(u) => Some((u.bit_width().unwrap_or(64) as usize / 8, true)),
                ty::Bool => Some((1, false)),
                _ => None,
            }
        };
        let ints = |bytes: &[u8], sz: usize| -> J {
            J::A(bytes
                .chunks(sz)
                .map(|c| {
                    let mut x: u128 = 0;
                    for (i, b) in c.iter().enumerate() {
                        x |= (*b as u128) << (8 * i);
                    }
                    n(x)
                })
                .collect())
        };
        match v {
            ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let b = i.to_bits(sz);
                J::O(vec![("bits", n(b)), ("size", n(sz.bytes()))])
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(id) {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if let ty::Array(e, c) = inner.kind() {
                            if let (Some((sz, _)), Some(l)) = (elem(*e), c.try_to_target_usize(tcx)) {
                                let o = off.bytes() as usize;
                                let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                    o..o + sz * l as usize,
                                );
                                return J::O(vec![("refarr", ints(b, sz))]);
                            }
                        }
                    }
                }
                J::O(vec![("opq", s("ptr"))])
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    if let ty::Ref(_, inner, _) = t.kind() {
                        match inner.kind() {
                            ty::Str => {
                                let b = m
                                    .inner()
                                    .inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                                return J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]);
                            }
                            ty::Slice(e) => {
                                if let Some((sz, _)) = elem(*e) {
                                    let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                        0..sz * meta as usize,
                                    );
                                    return J::O(vec![("refarr", ints(b, sz))]);
                                }
                            }
                            _ => {}
                        }
                    }
                }
                J::O(vec![("opq", s("slice"))])
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    if let ty::Array(e, c) = t.kind() {
                        if let (Some((sz, _)), Some(l)) = (elem(*e), c.try_to_target_usize(tcx)) {
                            let o = offset.bytes() as usize;
                            let b = m
                                .inner()
                                .inspect_with_uninit_and_ptr_outside_interpreter(o..o + sz * l as usize);
                            return J::O(vec![("arr", ints(b, sz))]);
                        }
                    }
                }
                J::O(vec![("opq", s("indirect"))])
            }
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_DIR") else { return Compilation::Continue };
        let cname = tcx.crate_name(LOCAL_CRATE).to_string();
        if !cname.starts_with("tsfile") {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: HashMap::new(), consts: vec![] };
        let mut fns = vec![];
        for &d in tcx.mir_keys(()).iter() {
            let did = d.to_def_id();
            let kind = tcx.def_kind(d);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(d);
            let b = b.borrow();
            let p = p.borrow();
            let bj = cx.body(did, &b);
            let pj: Vec<J> = p.iter().map(|x| cx.body(did, x)).collect();
            let mut o = vec![
                ("key", s(cx.key(did))),
                ("p", s(cx.path(did))),
                ("kind", s(format!("{:?}", kind))),
                ("span", cx.span(tcx.def_span(did))),
                ("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or("{closure}".into()))),
                ("pub", J::B(tcx.effective_visibilities(()).is_reachable(d))),
                ("mod", s(cx.path(tcx.parent_module_from_def_id(d).to_def_id()))),
            ];
            let g = tcx.generics_of(tcx.typeck_root_def_id(did));
            let mut gs = vec![];
            {
                let mut cur = Some(g);
                let mut stack = vec![];
                while let Some(g) = cur {
                    stack.push(g);
                    cur = g.parent.map(|p| tcx.generics_of(p));
                }
                for g in stack.iter().rev() {
                    for p in &g.own_params {
                        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                            gs.push(J::A(vec![n(p.index), s(p.name.as_str())]));
                        }
                    }
                }
            }
            o.push(("gen", J::A(gs)));
            if let Some(i) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                let sj = cx.ty(st);
                o.push(("iself", sj));
                if let Some(it) = tcx.trait_impl_of_assoc(did) {
                    let tr = tcx.impl_trait_ref(it).instantiate_identity().skip_norm_wip();
                    o.push(("itrait", s(cx.path(tr.def_id))));
                    let ta = cx.args(tr.args);
                    o.push(("itargs", ta));
                    if let Some(ti) = tcx.trait_item_of(did) {
                        o.push(("titem", s(cx.key(ti))));
                    }
                }
            }
            if kind != DefKind::Closure {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                o.push(("abi", s(format!("{:?}", sig.abi()))));
            } else {
                o.push(("parent", s(cx.key(tcx.parent(did)))));
            }
            o.push(("body", bj));
            o.push(("prom", J::A(pj)));
            fns.push(J::O(o));
        }
        let mut impls = vec![];
        for (t, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is {
                let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
                let sj = cx.ty(st);
                let items: Vec<J> = tcx
                    .associated_items(i.to_def_id())
                    .in_definition_order()
                    .filter_map(|a| {
                        let ti = tcx.trait_item_of(a.def_id)?;
                        Some(J::A(vec![s(cx.key(ti)), s(cx.key(a.def_id)), s(a.opt_name().map(|x| x.to_string()).unwrap_or_default())]))
                    })
                    .collect();
                impls.push(J::O(vec![
                    ("trait", s(cx.path(*t))),
                    ("self", sj),
                    ("span", cx.span(tcx.def_span(i.to_def_id()))),
                    ("items", J::A(items)),
                ]));
            }
        }
        let cs = std::mem::take(&mut cx.consts);
        let mut consts = vec![];
        for (c, env, sp) in cs {
            let t = c.ty();
            let j = match c.eval(tcx, env, sp) {
                Ok(v) => cx.cval(v, t),
                Err(_) => J::O(vec![("opq", s(with_no_trimmed_paths!(format!("{:?}", c))))]),
            };
            consts.push(j);
        }
        let adts: Vec<J> = {
            let mut ks: Vec<DefId> = cx.adts.keys().copied().collect();
            ks.sort_by_key(|d| cx.key(*d));
            let mut v = vec![];
            for k in ks {
                if let Some(Some(j)) = cx.adts.remove(&k) {
                    v.push(j);
                }
            }
            v
        };
        let types = std::mem::take(&mut cx.types);
        let root = J::O(vec![
            ("crate", s(cname.clone())),
            ("types", J::A(types)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("consts", J::A(consts)),
            ("fns", J::A(fns)),
        ]);
        let mut out = String::new();
        root.write(&mut out);
        std::fs::write(format!("{}/{}.json", dir, cname), out).expect("cannot write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a RUSTC_WORKSPACE_WRAPPER the first argument is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
