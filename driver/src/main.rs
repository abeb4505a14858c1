//! rustc driver: dumps the type-checked program (THIR bodies, items, resolved callees) of the
//! crate named by GSA_CRATE as JSON to the file named by GSA_OUT.  Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::{self, ExprId, ExprKind, Pat, PatKind, Thir};
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
fn obj(v: &[(&str, String)]) -> String {
    format!(
        "{{{}}}",
        v.iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect::<Vec<_>>().join(",")
    )
}
fn opt(o: Option<String>) -> String {
    o.unwrap_or_else(|| "null".into())
}
fn bl(b: bool) -> String {
    if b { "true".into() } else { "false".into() }
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn did(&self, d: DefId) -> String {
        esc(&format!("{}:{}", d.krate.as_u32(), d.index.as_u32()))
    }
    fn path(&self, d: DefId) -> String {
        // crate-qualified path, stable under `use` aliases
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(
                rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
            )
        );
        esc(&s)
    }
    fn span(&self, s: Span) -> String {
        // code produced by a macro of another crate (assert!, derives): the line that invokes it
        let mut s = s;
        while s.from_expansion() {
            let d = s.ctxt().outer_expn_data();
            match d.macro_def_id {
                Some(m) if m.is_local() => break,
                _ => s = d.call_site,
            }
        }
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", f, lo.line))
    }
    fn cst(&self, c: ty::Const<'tcx>) -> String {
        if let Some(n) = c.try_to_target_usize(self.tcx) {
            return obj(&[("k", esc("const")), ("v", n.to_string())]);
        }
        if let Some(l) = c.try_to_leaf() {
            return obj(&[("k", esc("const")), ("v", l.to_bits_unchecked().to_string())]);
        }
        match c.kind() {
            ty::ConstKind::Param(p) => obj(&[
                ("k", esc("cparam")),
                ("idx", p.index.to_string()),
                ("name", esc(p.name.as_str())),
            ]),
            _ => obj(&[("k", esc("const")), ("v", "null".into()), ("s", esc(&format!("{:?}", c)))]),
        }
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> String {
        arr(a.iter().map(|g| match g.kind() {
            ty::GenericArgKind::Lifetime(_) => "null".to_string(),
            ty::GenericArgKind::Type(t) => self.ty(t),
            ty::GenericArgKind::Const(c) => self.cst(c),
        }))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let o = |k: &str, v: &[(&str, String)]| {
            let mut w = vec![("k", esc(k))];
            w.extend_from_slice(v);
            obj(&w)
        };
        match t.kind() {
            ty::Bool => o("bool", &[]),
            ty::Char => o("char", &[]),
            ty::Int(i) => o("int", &[("name", esc(i.name_str()))]),
            ty::Uint(i) => o("int", &[("name", esc(i.name_str()))]),
            ty::Float(i) => o("float", &[("name", esc(i.name_str()))]),
            ty::Str => o("str", &[]),
            ty::Never => o("never", &[]),
            ty::Adt(d, a) => o(
                "adt",
                &[
                    ("path", self.path(d.did())),
                    ("did", self.did(d.did())),
                    ("local", bl(d.did().is_local())),
                    ("args", self.args(a)),
                ],
            ),
            ty::Array(e, n) => o("array", &[("ty", self.ty(*e)), ("len", self.cst(*n))]),
            ty::Slice(e) => o("slice", &[("ty", self.ty(*e))]),
            ty::RawPtr(e, m) => o("ptr", &[("ty", self.ty(*e)), ("mut", bl(m.is_mut()))]),
            ty::Ref(_, e, m) => o("ref", &[("ty", self.ty(*e)), ("mut", bl(m.is_mut()))]),
            ty::FnDef(d, a) => {
                let a = a.skip_binder();
                o(
                    "fndef",
                    &[
                        ("path", self.path(*d)),
                        ("did", self.did(*d)),
                        ("local", bl(d.is_local())),
                        ("args", self.args(a)),
                    ],
                )
            }
            ty::FnPtr(..) => o("fnptr", &[("s", esc(&format!("{:?}", t)))]),
            ty::Closure(d, _) => o("closure", &[("did", self.did(*d))]),
            ty::Tuple(ts) => o("tuple", &[("tys", arr(ts.iter().map(|t| self.ty(t))))]),
            ty::Alias(_, a) => {
                let d: Option<DefId> = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Inherent { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Free { def_id } => Some(def_id.into()),
                };
                let kind = match a.kind {
                    ty::AliasTyKind::Projection { .. } => "alias",
                    ty::AliasTyKind::Opaque { .. } => "opaque",
                    _ => "alias",
                };
                o(
                    kind,
                    &[
                        ("path", opt(d.map(|d| self.path(d)))),
                        ("did", opt(d.map(|d| self.did(d)))),
                        ("args", self.args(a.args)),
                    ],
                )
            }
            ty::Param(p) => {
                o("param", &[("idx", p.index.to_string()), ("name", esc(p.name.as_str()))])
            }
            ty::Dynamic(..) => o("dyn", &[("s", esc(&format!("{:?}", t)))]),
            _ => o("other", &[("s", esc(&format!("{:?}", t)))]),
        }
    }
    fn resolve(&self, owner: LocalDefId, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let root = tcx.typeck_root_def_id(owner.to_def_id());
        let env = ty::TypingEnv::non_body_analysis(tcx, root);
        let a = tcx.erase_and_anonymize_regions(a);
        let k = tcx.def_kind(d);
        let mut v = vec![
            ("path", self.path(d)),
            ("did", self.did(d)),
            ("local", bl(d.is_local())),
            ("args", self.args(a)),
            ("name", esc(tcx.item_name(d).as_str())),
            ("kind", esc(&format!("{:?}", k))),
        ];
        let tr = tcx.trait_of_assoc(d);
        v.push(("trait", opt(tr.map(|t| self.path(t)))));
        if matches!(k, DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, a) {
                let rd = i.def_id();
                v.push((
                    "res",
                    obj(&[
                        ("path", self.path(rd)),
                        ("did", self.did(rd)),
                        ("local", bl(rd.is_local())),
                        ("args", self.args(i.args)),
                        ("kind", esc(match i.def {
                            ty::InstanceKind::Item(_) => "item",
                            ty::InstanceKind::Virtual(..) => "virtual",
                            _ => "shim",
                        })),
                    ]),
                ));
            }
        }
        obj(&v)
    }
    fn constval(&self, v: ty::Value<'tcx>) -> String {
        if let Some(l) = v.try_to_leaf() {
            let sz = l.size();
            return obj(&[
                ("ty", self.ty(v.ty)),
                ("bits", esc(&format!("{}", l.to_bits(sz)))),
            ]);
        }
        obj(&[("ty", self.ty(v.ty)), ("s", esc(&format!("{:?}", v)))])
    }
    fn pat(&self, th: &Thir<'tcx>, ow: LocalDefId, p: &Pat<'tcx>) -> String {
        let o = |k: &str, v: &[(&str, String)]| {
            let mut w = vec![("p", esc(k)), ("ty", self.ty(p.ty))];
            w.extend_from_slice(v);
            obj(&w)
        };
        let subs = |sp: &Vec<thir::FieldPat<'tcx>>| {
            arr(sp.iter().map(|f| {
                format!("[{},{}]", f.field.as_u32(), self.pat(th, ow, &f.pattern))
            }))
        };
        let many = |sp: &[Pat<'tcx>]| arr(sp.iter().map(|f| self.pat(th, ow, f)));
        match &p.kind {
            PatKind::Wild | PatKind::Missing => o("wild", &[]),
            PatKind::Binding { name, mode, var, subpattern, .. } => o(
                "bind",
                &[
                    ("name", esc(name.as_str())),
                    ("var", self.var(*var)),
                    (
                        "by",
                        esc(match mode.0 {
                            rustc_hir::ByRef::No => "val",
                            rustc_hir::ByRef::Yes(_, m) => {
                                if m.is_mut() { "refmut" } else { "ref" }
                            }
                        }),
                    ),
                    ("sub", opt(subpattern.as_ref().map(|s| self.pat(th, ow, s)))),
                ],
            ),
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => o(
                "variant",
                &[
                    ("adt", self.path(adt_def.did())),
                    ("idx", variant_index.as_u32().to_string()),
                    ("name", esc(adt_def.variant(*variant_index).name.as_str())),
                    ("subs", subs(subpatterns)),
                ],
            ),
            PatKind::Leaf { subpatterns } => o("leaf", &[("subs", subs(subpatterns))]),
            PatKind::Deref { subpattern, .. } => {
                o("deref", &[("sub", self.pat(th, ow, subpattern))])
            }
            PatKind::DerefPattern { subpattern, .. } => {
                o("deref", &[("sub", self.pat(th, ow, subpattern))])
            }
            PatKind::Constant { value } => o("const", &[("val", self.constval(*value))]),
            PatKind::Range(r) => {
                let b = |x: &thir::PatRangeBoundary<'tcx>| match x {
                    thir::PatRangeBoundary::Finite(v) => {
                        let l = v.to_leaf();
                        esc(&format!("{}", l.to_bits(l.size())))
                    }
                    _ => "null".into(),
                };
                o(
                    "range",
                    &[
                        ("lo", b(&r.lo)),
                        ("hi", b(&r.hi)),
                        ("incl", bl(matches!(r.end, rustc_hir::RangeEnd::Included))),
                    ],
                )
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                o(
                    "slice",
                    &[
                        ("prefix", many(prefix)),
                        ("slice", opt(slice.as_ref().map(|s| self.pat(th, ow, s)))),
                        ("suffix", many(suffix)),
                    ],
                )
            }
            PatKind::Or { pats } => o("or", &[("pats", many(pats))]),
            PatKind::Guard { subpattern, condition } => o(
                "guard",
                &[("sub", self.pat(th, ow, subpattern)), ("cond", self.expr(th, ow, *condition))],
            ),
            _ => o("unsupported", &[("s", esc(&format!("{:?}", p.kind)))]),
        }
    }
    fn var(&self, v: thir::LocalVarId) -> String {
        esc(&format!("{}.{}", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32()))
    }
    fn scope(&self, s: rustc_middle::middle::region::Scope) -> String {
        esc(&format!("{}", s.local_id.as_u32()))
    }
    fn block(&self, th: &Thir<'tcx>, ow: LocalDefId, b: thir::BlockId) -> String {
        let b = &th.blocks[b];
        let stmts = arr(b.stmts.iter().map(|s| match &th.stmts[*s].kind {
            thir::StmtKind::Expr { expr, .. } => {
                obj(&[("s", esc("expr")), ("e", self.expr(th, ow, *expr))])
            }
            thir::StmtKind::Let { pattern, initializer, else_block, span, .. } => obj(&[
                ("s", esc("let")),
                ("pat", self.pat(th, ow, pattern)),
                ("init", opt(initializer.map(|e| self.expr(th, ow, e)))),
                ("else", opt(else_block.map(|e| self.block(th, ow, e)))),
                ("at", self.span(*span)),
            ]),
        }));
        obj(&[
            ("stmts", stmts),
            ("expr", opt(b.expr.map(|e| self.expr(th, ow, e)))),
            ("scope", self.scope(b.region_scope)),
            ("tb", bl(b.targeted_by_break)),
            ("unsafe", bl(matches!(b.safety_mode, thir::BlockSafety::ExplicitUnsafe(_)))),
        ])
    }
    fn expr(&self, th: &Thir<'tcx>, ow: LocalDefId, id: ExprId) -> String {
        let e = &th.exprs[id];
        let x = |i: &ExprId| self.expr(th, ow, *i);
        let o = |k: &str, v: Vec<(&str, String)>| {
            let mut w = vec![("e", esc(k)), ("ty", self.ty(e.ty)), ("at", self.span(e.span))];
            w.extend(v);
            obj(&w)
        };
        let xs = |l: &[ExprId]| arr(l.iter().map(|i| self.expr(th, ow, *i)));
        match &e.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                // keep the scope only as label target
                o("scope", vec![("id", self.scope(*region_scope)), ("v", x(value))])
            }
            ExprKind::If { cond, then, else_opt, .. } => o(
                "if",
                vec![("c", x(cond)), ("t", x(then)), ("f", opt(else_opt.as_ref().map(x)))],
            ),
            ExprKind::Call { ty, fun, args, .. } => {
                let callee = match ty.kind() {
                    ty::FnDef(d, a) => self.resolve(ow, *d, a.skip_binder()),
                    _ => "null".into(),
                };
                let f = if callee == "null" { x(fun) } else { "null".into() };
                o("call", vec![("callee", callee), ("fun", f), ("args", xs(args))])
            }
            ExprKind::ByUse { expr, .. } => o("use", vec![("v", x(expr))]),
            ExprKind::Deref { arg } => o("deref", vec![("v", x(arg))]),
            ExprKind::Binary { op, lhs, rhs } => o(
                "bin",
                vec![("op", esc(&format!("{:?}", op))), ("l", x(lhs)), ("r", x(rhs))],
            ),
            ExprKind::LogicalOp { op, lhs, rhs } => o(
                "logic",
                vec![("op", esc(&format!("{:?}", op))), ("l", x(lhs)), ("r", x(rhs))],
            ),
            ExprKind::Unary { op, arg } => {
                o("un", vec![("op", esc(&format!("{:?}", op))), ("v", x(arg))])
            }
            ExprKind::Cast { source } => o("cast", vec![("v", x(source))]),
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source } => {
                o("use", vec![("v", x(source))])
            }
            ExprKind::PointerCoercion { source, cast, .. } => {
                o("coerce", vec![("v", x(source)), ("c", esc(&format!("{:?}", cast)))])
            }
            ExprKind::Loop { body } => o("loop", vec![("body", x(body))]),
            ExprKind::Let { expr, pat } => {
                o("let", vec![("v", x(expr)), ("pat", self.pat(th, ow, pat))])
            }
            ExprKind::Match { scrutinee, arms, match_source } => o(
                "match",
                vec![
                    ("v", x(scrutinee)),
                    ("src", esc(&format!("{:?}", match_source))),
                    (
                        "arms",
                        arr(arms.iter().map(|a| {
                            let a = &th.arms[*a];
                            obj(&[
                                ("pat", self.pat(th, ow, &a.pattern)),
                                ("guard", opt(a.guard.as_ref().map(x))),
                                ("body", x(&a.body)),
                            ])
                        })),
                    ),
                ],
            ),
            ExprKind::Block { block } => o("block", vec![("b", self.block(th, ow, *block))]),
            ExprKind::Assign { lhs, rhs } => o("assign", vec![("l", x(lhs)), ("r", x(rhs))]),
            ExprKind::AssignOp { op, lhs, rhs } => o(
                "assignop",
                vec![("op", esc(&format!("{:?}", op))), ("l", x(lhs)), ("r", x(rhs))],
            ),
            ExprKind::Field { lhs, variant_index, name } => o(
                "field",
                vec![
                    ("v", x(lhs)),
                    ("variant", variant_index.as_u32().to_string()),
                    ("idx", name.as_u32().to_string()),
                ],
            ),
            ExprKind::Index { lhs, index } => o("index", vec![("v", x(lhs)), ("i", x(index))]),
            ExprKind::VarRef { id } => o("var", vec![("var", self.var(*id))]),
            ExprKind::UpvarRef { var_hir_id, .. } => {
                o("var", vec![("var", self.var(*var_hir_id)), ("up", bl(true))])
            }
            ExprKind::Borrow { borrow_kind, arg } => o(
                "ref",
                vec![
                    (
                        "mut",
                        bl(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. })),
                    ),
                    ("v", x(arg)),
                ],
            ),
            ExprKind::RawBorrow { arg, .. } => o("rawref", vec![("v", x(arg))]),
            ExprKind::Break { label, value } => o(
                "break",
                vec![("label", self.scope(*label)), ("v", opt(value.as_ref().map(x)))],
            ),
            ExprKind::Continue { label } => o("continue", vec![("label", self.scope(*label))]),
            ExprKind::Return { value } => o("return", vec![("v", opt(value.as_ref().map(x)))]),
            ExprKind::Repeat { value, count } => {
                o("repeat", vec![("v", x(value)), ("n", self.cst(*count))])
            }
            ExprKind::Array { fields } => o("array", vec![("vs", xs(fields))]),
            ExprKind::Tuple { fields } => o("tuple", vec![("vs", xs(fields))]),
            ExprKind::Adt(a) => {
                let var = a.adt_def.variant(a.variant_index);
                o(
                    "adt",
                    vec![
                        ("path", self.path(a.adt_def.did())),
                        ("did", self.did(a.adt_def.did())),
                        ("variant", a.variant_index.as_u32().to_string()),
                        ("vname", esc(var.name.as_str())),
                        ("isenum", bl(a.adt_def.is_enum())),
                        (
                            "fields",
                            arr(a.fields.iter().map(|f| {
                                format!("[{},{}]", f.name.as_u32(), self.expr(th, ow, f.expr))
                            })),
                        ),
                        (
                            "base",
                            match &a.base {
                                thir::AdtExprBase::Base(b) => x(&b.base),
                                _ => "null".into(),
                            },
                        ),
                    ],
                )
            }
            ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. } => o("use", vec![("v", x(source))]),
            ExprKind::Closure(c) => o(
                "closure",
                vec![
                    ("did", self.did(c.closure_id.to_def_id())),
                    ("upvars", xs(&c.upvars)),
                ],
            ),
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind;
                let (k, v) = match &lit.node {
                    LitKind::Int(n, _) => ("int", n.get().to_string()),
                    LitKind::Bool(b) => ("bool", b.to_string()),
                    LitKind::Str(s, _) => ("str", s.to_string()),
                    l => ("other", format!("{:?}", l)),
                };
                o("lit", vec![("lk", esc(k)), ("v", esc(&v)), ("neg", bl(*neg))])
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                let sz = lit.size();
                o(
                    "lit",
                    vec![
                        ("lk", esc("int")),
                        ("v", esc(&lit.to_bits(sz).to_string())),
                        ("neg", bl(false)),
                    ],
                )
            }
            ExprKind::ZstLiteral { .. } => {
                let callee = match e.ty.kind() {
                    ty::FnDef(d, a) => self.resolve(ow, *d, a.skip_binder()),
                    _ => "null".into(),
                };
                o("zst", vec![("callee", callee)])
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                o("const", vec![("callee", self.resolve(ow, *def_id, args))])
            }
            ExprKind::ConstParam { param, .. } => {
                o("cparam", vec![("name", esc(param.name.as_str())), ("idx", param.index.to_string())])
            }
            ExprKind::ConstBlock { did, args } => {
                o("constblock", vec![("did", self.did(*did)), ("args", self.args(args))])
            }
            ExprKind::StaticRef { def_id, .. } => o(
                "static",
                vec![("path", self.path(*def_id)), ("did", self.did(*def_id))],
            ),
            ExprKind::ThreadLocalRef(d) => {
                o("threadlocal", vec![("path", self.path(*d)), ("did", self.did(*d))])
            }
            k => o("unsupported", vec![("s", esc(&format!("{:?}", std::mem::discriminant(k))))]),
        }
    }
    fn generics(&self, d: DefId) -> String {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            v.push(esc(p.name.as_str()));
        }
        arr(v)
    }
    /// what is required of the type parameters: [parameter, trait]
    fn bounds(&self, d: DefId) -> String {
        let mut v = vec![];
        for c in self.tcx.param_env(d).caller_bounds() {
            if let Some(t) = c.as_trait_clause() {
                let r = t.skip_binder().trait_ref;
                if let ty::Param(p) = r.self_ty().kind() {
                    v.push(arr([esc(p.name.as_str()), self.path(r.def_id)]));
                }
            }
        }
        arr(v)
    }
    fn vis(&self, d: DefId) -> String {
        match self.tcx.visibility(d) {
            ty::Visibility::Public => esc("pub"),
            ty::Visibility::Restricted(m) => {
                if m.is_crate_root() {
                    esc("crate")
                } else {
                    format!("{}", self.path(m.into()).replacen('"', "\"in ", 1))
                }
            }
        }
    }
    fn body(&self, d: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let (steal, root) = tcx.thir_body(d).ok()?;
        let th: &Thir<'tcx> = &steal.borrow();
        if th.exprs.is_empty() {
            return None;
        }
        let dk = tcx.def_kind(d);
        let params = arr(th.params.iter().map(|p| {
            obj(&[
                ("ty", self.ty(p.ty)),
                ("pat", opt(p.pat.as_ref().map(|q| self.pat(th, d, q)))),
            ])
        }));
        let did = d.to_def_id();
        let mut v = vec![
            ("did", self.did(did)),
            ("path", self.path(did)),
            ("kind", esc(&format!("{:?}", dk))),
            ("at", self.span(tcx.def_span(did))),
            ("root", self.did(tcx.typeck_root_def_id(did))),
            ("params", params),
            ("body", self.expr(th, d, root)),
            ("ret", self.ty(th.exprs[root].ty)),
        ];
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            v.push(("name", esc(tcx.item_name(did).as_str())));
            v.push(("generics", self.generics(did)));
            v.push(("bounds", self.bounds(did)));
            v.push(("vis", self.vis(did)));
            v.push((
                "reach",
                bl(tcx.effective_visibilities(()).is_reachable(d)),
            ));
            v.push(("inputs", arr(sig.inputs().iter().map(|t| self.ty(*t)))));
            v.push(("output", self.ty(sig.output())));
            v.push(("unsafe", bl(!sig.fn_sig_kind.is_safe())));
        }
        if let Some(p) = tcx.opt_parent(did) {
            v.push(("parent", self.did(p)));
        }
        Some(obj(&v))
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let d = D { tcx };
        let mut fns = vec![];
        for o in tcx.hir_body_owners() {
            if let Some(b) = d.body(o) {
                fns.push(b);
            }
        }
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let discrs: Vec<String> = if a.is_enum() {
                        a.discriminants(tcx).map(|(_, x)| format!("\"{}\"", x.val)).collect()
                    } else {
                        vec![]
                    };
                    let vs = arr(a.variants().iter_enumerated().map(|(vi, v)| {
                        obj(&[
                            ("name", esc(v.name.as_str())),
                            ("discr", discrs.get(vi.as_usize()).cloned().unwrap_or("null".to_string())),
                            (
                                "fields",
                                arr(v.fields.iter().map(|f| {
                                    obj(&[
                                        ("name", esc(f.name.as_str())),
                                        ("vis", d.vis(f.did)),
                                        ("ty", d.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                    ])
                                })),
                            ),
                        ])
                    }));
                    adts.push(obj(&[
                        ("did", d.did(did)),
                        ("path", d.path(did)),
                        ("kind", esc(&format!("{:?}", tcx.def_kind(did)))),
                        ("vis", d.vis(did)),
                        ("reach", bl(tcx.effective_visibilities(()).is_reachable(id))),
                        ("generics", d.generics(did)),
                        ("variants", vs),
                        ("at", d.span(tcx.def_span(did))),
                    ]));
                }
                DefKind::Impl { .. } => {
                    let tr = tcx.impl_opt_trait_ref(did).map(|t| t.instantiate_identity().skip_norm_wip());
                    let items = arr(tcx.associated_items(did).in_definition_order().map(|it| {
                        obj(&[
                            ("name", esc(tcx.opt_item_name(it.def_id).map(|s| s.to_string()).unwrap_or_default().as_str())),
                            ("did", d.did(it.def_id)),
                            ("ti", opt(it.trait_item_def_id().map(|t| d.did(t)))),
                            ("kind", esc(&format!("{:?}", tcx.def_kind(it.def_id)))),
                            ("ty", if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) {
                                d.ty(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip())
                            } else { "null".into() }),
                        ])
                    }));
                    impls.push(obj(&[
                        ("did", d.did(did)),
                        ("at", d.span(tcx.def_span(did))),
                        ("generics", d.generics(did)),
                        ("self", d.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip())),
                        ("trait", opt(tr.map(|t| d.path(t.def_id)))),
                        ("targs", opt(tr.map(|t| d.args(t.args)))),
                        ("derived", bl(tcx.is_automatically_derived(did))),
                        ("items", items),
                    ]));
                }
                DefKind::Trait => {
                    let items = arr(tcx.associated_items(did).in_definition_order().map(|it| {
                        obj(&[
                            ("name", esc(tcx.opt_item_name(it.def_id).map(|s| s.to_string()).unwrap_or_default().as_str())),
                            ("did", d.did(it.def_id)),
                            ("default", bl(it.defaultness(tcx).has_value())),
                        ])
                    }));
                    traits.push(obj(&[
                        ("did", d.did(did)),
                        ("path", d.path(did)),
                        ("vis", d.vis(did)),
                        ("generics", d.generics(did)),
                        ("items", items),
                    ]));
                }
                DefKind::Static { mutability, .. } => {
                    statics.push(obj(&[
                        ("did", d.did(did)),
                        ("path", d.path(did)),
                        ("mut", bl(mutability.is_mut())),
                        ("ty", d.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip())),
                        ("freeze", bl(tcx.type_of(did).instantiate_identity().skip_norm_wip().is_freeze(tcx, ty::TypingEnv::non_body_analysis(tcx, did)))),
                        ("at", d.span(tcx.def_span(did))),
                    ]));
                }
                _ => {}
            }
        }
        let s = format!(
            "{{\"fns\":[\n{}\n],\n\"adts\":[\n{}\n],\n\"impls\":[\n{}\n],\n\"traits\":[\n{}\n],\n\"statics\":[\n{}\n]}}",
            fns.join(",\n"),
            adts.join(",\n"),
            impls.join(",\n"),
            traits.join(",\n"),
            statics.join(",\n")
        );
        std::fs::write(&self.out, s).expect("gsa: cannot write dump");
        Compilation::Continue
    }
}
struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("GSA_CRATE").ok();
    let out = std::env::var("GSA_OUT").ok();
    if let (Some(n), Some(w), Some(o)) = (name, want, out) {
        if n == w {
            if let Ok(f) = std::env::var("GSA_FLAGS") {
                args.extend(f.split_whitespace().map(String::from));
            }
        }
        if n == w && !args.iter().any(|a| a == "--test") {
            return rustc_driver::catch_with_exit_code(|| {
                rustc_driver::compiler_entrypoint(&args, &mut Cb { out: o })
            });
        }
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
}
