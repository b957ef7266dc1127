// MIR dumper: a rustc_private driver, used as RUSTC_WORKSPACE_WRAPPER.
// For the crate named in MIRDUMP_CRATE it writes a JSON description of every MIR
// body, ADT, impl and public item to MIRDUMP_OUT; every other crate is compiled as usual.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt};
use std::fmt::Write as _;

// ---------- tiny JSON ----------
#[derive(Clone)]
enum J {
    S(String),
    I(i128),
    B(bool),
    N,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn esc(o: &mut String, x: &str) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn w(o: &mut String, j: &J) {
    match j {
        J::S(x) => esc(o, x),
        J::I(i) => {
            let _ = write!(o, "{}", i);
        }
        J::B(b) => o.push_str(if *b { "true" } else { "false" }),
        J::N => o.push_str("null"),
        J::A(v) => {
            o.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                w(o, x);
            }
            o.push(']');
        }
        J::O(v) => {
            o.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                esc(o, k);
                o.push(':');
                w(o, x);
            }
            o.push('}');
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        // crate-qualified, unique for locals through the raw def path
        if d.is_local() {
            let root = std::env::var("MIRDUMP_ROOT").unwrap_or_else(|_| "crate".to_string());
            format!("{}{}", root, self.tcx.def_path(d).to_string_no_crate_verbose())
        } else if self.tcx.crate_name(d.krate).as_str() == "linestring" {
            format!("crate{}", self.tcx.def_path(d).to_string_no_crate_verbose())
        } else {
            self.tcx.def_path_str(d)
        }
    }
    fn mine(&self, d: DefId) -> bool {
        d.is_local() || self.tcx.crate_name(d.krate).as_str() == "linestring"
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", name, lo.line))
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(J::O(vec![("k", s("const")), ("v", s(c))])),
                GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        let k = |x: &str| J::O(vec![("k", s(x))]);
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::O(vec![("k", s("prim")), ("n", s(t))])
            }
            ty::Adt(def, a) => J::O(vec![
                ("k", s("adt")),
                ("n", s(self.path(def.did()))),
                ("a", self.args(a)),
            ]),
            ty::Ref(_, t, m) => J::O(vec![("k", s("ref")), ("t", self.ty(*t)), ("mut", J::B(m.is_mut()))]),
            ty::RawPtr(t, m) => J::O(vec![("k", s("ptr")), ("t", self.ty(*t)), ("mut", J::B(m.is_mut()))]),
            ty::Array(t, n) => J::O(vec![("k", s("array")), ("t", self.ty(*t)), ("len", s(n))]),
            ty::Slice(t) => J::O(vec![("k", s("slice")), ("t", self.ty(*t))]),
            ty::Tuple(ts) => J::O(vec![("k", s("tuple")), ("a", J::A(ts.iter().map(|t| self.ty(t)).collect()))]),
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name))]),
            ty::Closure(d, _) => J::O(vec![("k", s("closure")), ("n", s(self.path(*d)))]),
            ty::FnDef(d, a) => J::O(vec![("k", s("fndef")), ("n", s(self.path(*d))), ("a", self.args(a.skip_binder()))]),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr")), ("n", s(t))]),
            ty::Alias(..) => J::O(vec![("k", s("alias")), ("n", s(t))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn")), ("n", s(t))]),
            _ => {
                let _ = k;
                J::O(vec![("k", s("other")), ("n", s(t))])
            }
        }
    }
    fn place(&self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), J::I(f.as_usize() as i128), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, i) => J::A(vec![
                    s("d"),
                    J::I(i.as_usize() as i128),
                    n.map(|x| s(x)).unwrap_or(J::N),
                ]),
                other => J::A(vec![s("?"), s(format!("{:?}", other))]),
            });
        }
        J::O(vec![("l", J::I(p.local.as_usize() as i128)), ("p", J::A(v))])
    }
    fn constant(&self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("k", s("c")), ("ty", self.ty(t)), ("s", s(format!("{}", c.const_)))];
        if let ty::FnDef(d, a) = t.kind() {
            o.push(("fn", self.fnref(*d, a.skip_binder(), env)));
            return J::O(o);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted", J::I(p.as_usize() as i128)));
                    o.push(("pdef", s(self.path(u.def))));
                } else {
                    o.push(("uneval", s(self.path(u.def))));
                    o.push(("ua", self.args(u.args)));
                }
            }
            Const::Ty(_, ct) => {
                o.push(("tyconst", s(ct)));
            }
            _ => {}
        }
        if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
            if let Some(i) = c.const_.try_eval_scalar_int(tcx, env) {
                let size = i.size();
                let bits = i.to_bits(size);
                if t.is_floating_point() {
                    let f = if size.bytes() == 4 {
                        f32::from_bits(bits as u32) as f64
                    } else {
                        f64::from_bits(bits as u64)
                    };
                    o.push(("float", s(format!("{:?}", f))));
                } else if t.is_signed() {
                    let sh = 128 - size.bits();
                    o.push(("int", s(((bits as i128) << sh) >> sh)));
                } else {
                    o.push(("int", s(bits)));
                }
            }
        }
        J::O(o)
    }
    fn fnref(&self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("n", s(self.path(d))), ("a", self.args(a)), ("local", J::B(self.mine(d)))];
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(t))));
        }
        if let Some(i) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                o.push(("implof", s(self.path(tr.skip_binder().def_id))));
            }
        }
        if let Some(nm) = tcx.opt_item_name(d) {
            o.push(("m", s(nm)));
        }
        let sig_unsafe = match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => tcx.fn_sig(d).skip_binder().safety().is_unsafe(),
            _ => false,
        };
        if sig_unsafe {
            o.push(("unsafe", J::B(true)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let ea = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, ea) {
                let rd = inst.def_id();
                o.push(("r", s(self.path(rd))));
                o.push(("ra", self.args(inst.args)));
                o.push(("rlocal", J::B(self.mine(rd))));
                o.push(("rk", s(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string())));
            }
        }
        J::O(o)
    }
    fn operand(&self, x: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match x {
            Operand::Copy(p) => J::O(vec![("k", s("cp")), ("pl", self.place(p))]),
            Operand::Move(p) => J::O(vec![("k", s("mv")), ("pl", self.place(p))]),
            Operand::Constant(c) => self.constant(c, env),
            #[allow(unreachable_patterns)]
            other => J::O(vec![("k", s("rt")), ("s", s(format!("{:?}", other)))]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", self.operand(o, env))]),
            Rvalue::Repeat(o, n) => J::O(vec![("k", s("repeat")), ("o", self.operand(o, env)), ("n", s(n))]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("pl", self.place(p)),
            ]),
            Rvalue::ThreadLocalRef(d) => J::O(vec![("k", s("tls")), ("n", s(self.path(*d)))]),
            Rvalue::RawPtr(k, p) => J::O(vec![("k", s("rawptr")), ("rk", s(format!("{:?}", k))), ("pl", self.place(p))]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("k", s("cast")),
                ("ck", s(format!("{:?}", k))),
                ("o", self.operand(o, env)),
                ("ft", self.ty(o.ty(body, self.tcx))),
                ("t", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(op, b) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(&b.0, env)),
                ("b", self.operand(&b.1, env)),
                ("t", self.ty(b.0.ty(body, self.tcx))),
            ]),
            Rvalue::UnaryOp(op, o) => J::O(vec![
                ("k", s("un")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(o, env)),
            ]),
            Rvalue::Discriminant(p) => J::O(vec![
                ("k", s("discr")),
                ("pl", self.place(p)),
                ("t", self.ty(p.ty(body, self.tcx).ty)),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("k", s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        o.push(("ak", s("array")));
                        o.push(("t", self.ty(*t)));
                    }
                    AggregateKind::Tuple => o.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        o.push(("ak", s("adt")));
                        o.push(("n", s(self.path(*d))));
                        o.push(("v", J::I(v.as_usize() as i128)));
                        o.push(("vn", s(self.tcx.adt_def(*d).variant(*v).name)));
                        o.push(("a", self.args(a)));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("ak", s("closure")));
                        o.push(("n", s(self.path(*d))));
                    }
                    other => {
                        o.push(("ak", s("other")));
                        o.push(("n", s(format!("{:?}", other))));
                    }
                }
                o.push(("ops", J::A(ops.iter().map(|x| self.operand(x, env)).collect())));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => {
                J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("cp")), ("pl", self.place(p))]))])
            }
            other => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", other)))]),
        }
    }
    fn body(&self, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut names: Vec<J> = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name), self.place(p)]));
            }
        }
        let locals: Vec<J> = b.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        let mut blocks = vec![];
        for (_bb, d) in b.basic_blocks.iter_enumerated() {
            let mut sts = vec![];
            for st in &d.statements {
                match &st.kind {
                    StatementKind::Assign(bx) => sts.push(J::O(vec![
                        ("k", s("=")),
                        ("pl", self.place(&bx.0)),
                        ("rv", self.rvalue(&bx.1, b, env)),
                        ("sp", self.span(st.source_info.span)),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => sts.push(J::O(vec![
                        ("k", s("setd")),
                        ("pl", self.place(place)),
                        ("v", J::I(variant_index.as_usize() as i128)),
                    ])),
                    StatementKind::Intrinsic(i) => {
                        sts.push(J::O(vec![("k", s("intr")), ("s", s(format!("{:?}", i)))]))
                    }
                    _ => {}
                }
            }
            let t = d.terminator();
            let bbj = |x: &BasicBlock| J::I(x.as_usize() as i128);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => J::I(b.as_usize() as i128),
                _ => J::N,
            };
            let mut o: Vec<(&'static str, J)> = vec![("sp", self.span(t.source_info.span))];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", bbj(target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    o.push(("o", self.operand(discr, env)));
                    o.push(("ty", self.ty(discr.ty(b, tcx))));
                    o.push((
                        "ts",
                        J::A(targets.iter().map(|(v, t)| J::A(vec![s(v), bbj(&t)])).collect()),
                    ));
                    o.push(("else", bbj(&targets.otherwise())));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume => o.push(("k", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("k", s("abort"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push(("k", s("drop")));
                    o.push(("pl", self.place(place)));
                    o.push(("t", bbj(target)));
                    o.push(("u", unw(unwind)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push(("k", s("call")));
                    o.push(("f", self.operand(func, env)));
                    o.push(("args", J::A(args.iter().map(|a| self.operand(&a.node, env)).collect())));
                    o.push(("d", self.place(destination)));
                    o.push(("t", target.as_ref().map(|x| bbj(x)).unwrap_or(J::N)));
                    o.push(("u", unw(unwind)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", s("assert")));
                    o.push(("o", self.operand(cond, env)));
                    o.push(("e", J::B(*expected)));
                    let (mk, ops): (String, Vec<J>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len, env), self.operand(index, env)])
                        }
                        mir::AssertKind::Overflow(op, a, b) => {
                            (format!("overflow {:?}", op), vec![self.operand(a, env), self.operand(b, env)])
                        }
                        other => (
                            format!("{:?}", other).split(|c| c == '(' || c == ' ').next().unwrap_or("").to_string(),
                            vec![],
                        ),
                    };
                    o.push(("m", s(mk)));
                    o.push(("mo", J::A(ops)));
                    o.push(("t", bbj(target)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", bbj(real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", bbj(real_target)));
                }
                other => {
                    o.push(("k", s("other")));
                    o.push(("s", s(format!("{:?}", other))));
                }
            }
            blocks.push(J::O(vec![
                ("s", J::A(sts)),
                ("t", J::O(o)),
                ("c", J::B(d.is_cleanup)),
            ]));
        }
        vec![
            ("argc", J::I(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
            ("spread", b.spread_arg.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::N)),
        ]
    }
    fn dump(&self) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        let ev = tcx.effective_visibilities(());
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let mut o: Vec<(&'static str, J)> = vec![
                ("n", s(self.path(d))),
                ("disp", s(tcx.def_path_str(d))),
                ("kind", s(format!("{:?}", kind))),
                ("sp", self.span(tcx.def_span(d))),
                ("reach", J::B(ev.is_reachable(ld))),
                ("exported", J::B(ev.is_exported(ld))),
            ];
            if let Some(nm) = tcx.opt_item_name(d) {
                o.push(("m", s(nm)));
            }
            let parent = tcx.parent(d);
            o.push(("parent", s(self.path(parent))));
            if let Some(i) = tcx.impl_of_assoc(d) {
                o.push(("selfty", self.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip())));
                if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("implof", s(self.path(tr.def_id))));
                    o.push(("implargs", self.args(tr.args)));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(i))));
            }
            if let Some(t) = tcx.trait_of_assoc(d) {
                o.push(("trait", s(self.path(t))));
            }
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                    o.push(("inputs", J::A(sig.inputs().iter().map(|t| self.ty(*t)).collect())));
                    o.push(("output", self.ty(sig.output())));
                }
                _ => {}
            }
            let g = tcx.generics_of(d);
            let mut gs = vec![];
            let mut cur = Some(g);
            let mut stack = vec![];
            while let Some(g) = cur {
                stack.push(g);
                cur = g.parent.map(|p| tcx.generics_of(p));
            }
            for g in stack.iter().rev() {
                for p in &g.own_params {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gs.push(s(p.name));
                    }
                }
            }
            o.push(("generics", J::A(gs)));
            {
                let pd = tcx.typeck_root_def_id(d);
                let mut ps = vec![];
                let preds = tcx.clauses_of(pd).instantiate_identity(tcx);
                for c in preds.clauses.iter() {
                    let c = (*c).skip_norm_wip();
                    if let Some(tp) = c.as_trait_clause() {
                        let tp = tp.skip_binder();
                        ps.push(J::A(vec![self.ty(tp.self_ty()), s(self.path(tp.def_id()))]));
                    }
                }
                o.push(("preds", J::A(ps)));
            }
            let env = if matches!(kind, DefKind::Closure) {
                ty::TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d))
            } else {
                ty::TypingEnv::post_analysis(tcx, d)
            };
            let has_body = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if has_body {
                let b = tcx.optimized_mir(d);
                o.extend(self.body(b, env));
                let ps = tcx.promoted_mir(d);
                o.push(("promoted", J::A(ps.iter().map(|p| J::O(self.body(p, env))).collect())));
            } else if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst) {
                let b = tcx.mir_for_ctfe(d);
                o.extend(self.body(b, env));
            } else {
                continue;
            }
            fns.push(J::O(o));
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let mut vs = vec![];
                    for v in def.variants().iter() {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                J::O(vec![
                                    ("n", s(f.name)),
                                    ("t", self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                    ("pub", J::B(f.vis.is_public())),
                                ])
                            })
                            .collect();
                        vs.push(J::O(vec![("n", s(v.name)), ("f", J::A(fs))]));
                    }
                    adts.push(J::O(vec![
                        ("n", s(self.path(d))),
                        ("kind", s(format!("{:?}", tcx.def_kind(d)))),
                        ("variants", J::A(vs)),
                        ("exported", J::B(ev.is_exported(id))),
                        ("sp", self.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut o = vec![("n", s(self.path(d))), ("t", self.ty(t)), ("sp", self.span(tcx.def_span(d)))];
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(self.path(tr.def_id))));
                        o.push(("targs", self.args(tr.args)));
                    }
                    o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                    let its: Vec<J> = tcx
                        .associated_items(d)
                        .in_definition_order()
                        .map(|a| J::A(vec![s(a.name()), s(self.path(a.def_id))]))
                        .collect();
                    o.push(("items", J::A(its)));
                    impls.push(J::O(o));
                }
                DefKind::Trait => traits.push(J::O(vec![
                    ("n", s(self.path(d))),
                    (
                        "items",
                        J::A(
                            tcx.associated_items(d)
                                .in_definition_order()
                                .map(|a| J::A(vec![s(a.name()), s(self.path(a.def_id))]))
                                .collect(),
                        ),
                    ),
                ])),
                DefKind::Static { .. } => items.push(J::O(vec![("n", s(self.path(d))), ("kind", s("static"))])),
                DefKind::ForeignMod => items.push(J::O(vec![("n", s(self.path(d))), ("kind", s("extern"))])),
                _ => {}
            }
        }
        // unsafe blocks, by HIR
        let mut unsafes = vec![];
        {
            use rustc_hir::intravisit::{self, Visitor};
            struct V<'a, 'tcx> {
                tcx: TyCtxt<'tcx>,
                out: &'a mut Vec<rustc_span::Span>,
            }
            impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
                type NestedFilter = rustc_middle::hir::nested_filter::All;
                fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                    self.tcx
                }
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided)) {
                        self.out.push(b.span);
                    }
                    intravisit::walk_block(self, b);
                }
            }
            let mut v = vec![];
            tcx.hir_visit_all_item_likes_in_crate(&mut V { tcx, out: &mut v });
            for sp in v {
                unsafes.push(self.span(sp));
            }
        }
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE))),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
            ("items", J::A(items)),
            ("unsafe_blocks", J::A(unsafes)),
        ])
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() == want {
            if let Ok(out) = std::env::var("MIRDUMP_OUT") {
                let cx = Cx { tcx };
                let j = rustc_middle::ty::print::with_no_trimmed_paths!(cx.dump());
                let mut o = String::new();
                w(&mut o, &j);
                std::fs::write(&out, o).expect("write MIRDUMP_OUT");
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mine = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && Some(w[1].clone()) == std::env::var("MIRDUMP_CRATE").ok());
    if mine {
        for a in ["-Zmir-opt-level=0", "--cap-lints=allow", "-Zinline-mir=no"] {
            args.push(a.to_string());
        }
    }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
