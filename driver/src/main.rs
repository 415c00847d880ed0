//! Dumps the type-checked program (THIR bodies, resolved callees, type and impl tables) of the
//! crate named by SETT_DUMP_CRATE as one JSON document. Injected by RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::ConstValue;
use rustc_middle::thir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct Cb;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    defs: HashMap<DefId, ()>,
    adts: HashMap<DefId, ()>,
    adtq: Vec<DefId>,
    defj: Vec<String>,
}

impl<'tcx> D<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!("{}:{}", d.krate.as_u32(), d.index.as_u32())
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// reference a definition, recording a row for it once
    fn def(&mut self, d: DefId) -> String {
        let id = self.id(d);
        if self.defs.insert(d, ()).is_none() {
            let tcx = self.tcx;
            let kind = tcx.def_kind(d);
            let mut s = format!(
                "{{\"id\":{},\"path\":{},\"kind\":{},\"local\":{},\"crate\":{},\"name\":{}",
                js(&id),
                js(&self.path(d)),
                js(&format!("{:?}", kind)),
                d.is_local(),
                js(tcx.crate_name(d.krate).as_str()),
                js(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())
            );
            if matches!(
                kind,
                DefKind::Fn | DefKind::AssocFn | DefKind::Struct | DefKind::Enum | DefKind::Trait
                    | DefKind::Impl { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. }
            ) {
                let g = tcx.generics_of(d);
                let mut ps = vec![];
                let mut stack = vec![];
                let mut cur = Some(g);
                while let Some(g) = cur {
                    stack.push(g);
                    cur = g.parent.map(|p| tcx.generics_of(p));
                }
                for g in stack.iter().rev() {
                    for p in &g.own_params {
                        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                            ps.push(js(p.name.as_str()));
                        }
                    }
                }
                let _ = write!(s, ",\"generics\":{}", arr(ps));
            }
            if matches!(kind, DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy) {
                if let Some(t) = tcx.trait_of_assoc(d) {
                    let t = self.def(t);
                    let _ = write!(s, ",\"trait\":{}", js(&t));
                }
                if let Some(t) = tcx.impl_of_assoc(d) {
                    let t = self.def(t);
                    let _ = write!(s, ",\"impl\":{}", js(&t));
                }
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<String> =
                    sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
                let out = self.ty(sig.output());
                let _ = write!(s, ",\"sig\":[{},{}]", arr(ins), out);
            }
            if d.is_local() || matches!(kind, DefKind::Static { .. }) {
                let _ = write!(s, ",\"vis\":{}", js(&format!("{:?}", if matches!(kind, DefKind::Impl{..} | DefKind::Mod) {None} else {Some(tcx.visibility(d))})));
            }
            if let DefKind::Static { mutability, .. } = kind {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let fz = t.is_freeze(tcx, ty::TypingEnv::non_body_analysis(tcx, d));
                let t = self.ty(t);
                let _ = write!(
                    s,
                    ",\"mut\":{},\"freeze\":{},\"ty\":{}",
                    mutability.is_mut(),
                    fz,
                    t
                );
            }
            if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let g = tcx.generics_of(d);
                if g.count() == 0 && !(tcx.trait_of_assoc(d).is_some()) {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        if let Some(x) = self.constv(
                            v,
                            tcx.type_of(d).instantiate_identity().skip_norm_wip(),
                        ) {
                            let _ = write!(s, ",\"value\":{}", x);
                        }
                    }
                }
            }
            s.push('}');
            self.defj.push(s);
        }
        id
    }
    fn constv(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        match v {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                Some(self.scalar(i, t))
            }
            _ => None,
        }
    }
    fn scalar(&mut self, i: ty::ScalarInt, t: Ty<'tcx>) -> String {
        let bits = i.to_bits(i.size());
        match t.kind() {
            ty::Float(ty::FloatTy::F64) => {
                let f = f64::from_bits(bits as u64);
                format!("{{\"f64\":{}}}", js(&format!("{:?}", f)))
            }
            ty::Float(ty::FloatTy::F32) => {
                let f = f32::from_bits(bits as u32);
                format!("{{\"f32\":{}}}", js(&format!("{:?}", f)))
            }
            ty::Int(_) => {
                let sz = i.size().bits();
                let v = if sz == 128 { bits as i128 } else {
                    let sh = 128 - sz;
                    ((bits << sh) as i128) >> sh
                };
                format!("{{\"int\":{}}}", js(&v.to_string()))
            }
            ty::Bool => format!("{{\"bool\":{}}}", bits != 0),
            ty::Char => format!("{{\"char\":{}}}", bits),
            _ => format!("{{\"int\":{}}}", js(&bits.to_string())),
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = g.as_const() {
                v.push(js(&with_no_trimmed_paths!(format!("{}", c))));
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tymap.insert(t, i);
        self.tys.push(String::new());
        let text = js(&with_no_trimmed_paths!(format!("{}", t)));
        let s = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(x) => format!("\"k\":\"int\",\"n\":{}", js(x.name_str())),
            ty::Uint(x) => format!("\"k\":\"int\",\"n\":{}", js(x.name_str())),
            ty::Float(x) => format!("\"k\":\"float\",\"n\":{}", js(x.name_str())),
            ty::Adt(d, a) => {
                let id = self.adt(d.did());
                let a = self.args(a);
                format!("\"k\":\"adt\",\"def\":{},\"args\":{}", js(&id), a)
            }
            ty::Str => "\"k\":\"str\"".into(),
            ty::Array(t, n) => {
                let t = self.ty(*t);
                format!("\"k\":\"array\",\"t\":{},\"len\":{}", t, js(&format!("{}", n)))
            }
            ty::Slice(t) => {
                let t = self.ty(*t);
                format!("\"k\":\"slice\",\"t\":{}", t)
            }
            ty::RawPtr(t, m) => {
                let t = self.ty(*t);
                format!("\"k\":\"ptr\",\"t\":{},\"mut\":{}", t, m.is_mut())
            }
            ty::Ref(_, t, m) => {
                let t = self.ty(*t);
                format!("\"k\":\"ref\",\"t\":{},\"mut\":{}", t, m.is_mut())
            }
            ty::FnDef(d, a) => {
                let id = self.def(*d);
                let a = self.args(a.skip_binder());
                format!("\"k\":\"fndef\",\"def\":{},\"args\":{}", js(&id), a)
            }
            ty::Closure(d, _) => {
                let id = self.id(*d);
                format!("\"k\":\"closure\",\"def\":{}", js(&id))
            }
            ty::Dynamic(p, _) => {
                let tr = match p.principal_def_id() {
                    Some(d) => self.def(d),
                    None => String::new(),
                };
                format!("\"k\":\"dyn\",\"def\":{}", js(&tr))
            }
            ty::Never => "\"k\":\"never\"".into(),
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"ts\":{}", arr(v))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", js(p.name.as_str())),
            ty::Alias(_, a) => {
                let d: Option<DefId> = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Inherent { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Free { def_id } => Some(def_id.into()),
                };
                let id = match d {
                    Some(d) => self.def(d),
                    None => String::new(),
                };
                let args = self.args(a.args);
                format!("\"k\":\"alias\",\"def\":{},\"args\":{}", js(&id), args)
            }
            _ => "\"k\":\"other\"".into(),
        };
        self.tys[i] = format!("{{{},\"s\":{}}}", s, text);
        i
    }
    fn adt(&mut self, d: DefId) -> String {
        let id = self.def(d);
        if self.adts.insert(d, ()).is_none() {
            self.adtq.push(d);
        }
        id
    }
    fn adt_row(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let mut vs = vec![];
        let local = d.is_local();
        for v in a.variants() {
            let mut fs = vec![];
            for f in &v.fields {
                let t = if local {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    format!(
                        ",\"ty\":{},\"pub\":{}",
                        self.ty(t),
                        f.vis.is_public()
                    )
                } else {
                    String::new()
                };
                fs.push(format!("{{\"name\":{}{}}}", js(f.name.as_str()), t));
            }
            vs.push(format!("{{\"name\":{},\"fields\":{}}}", js(v.name.as_str()), arr(fs)));
        }
        format!(
            "{}:{{\"kind\":{},\"variants\":{}}}",
            js(&self.id(d)),
            js(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" }),
            arr(vs)
        )
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let p = sm.lookup_char_pos(s.lo());
        let f = match &p.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_default(),
            _ => String::new(),
        };
        format!("{}:{}", f, p.line)
    }
    fn var(&self, v: LocalVarId) -> String {
        js(&format!("{}_{}", v.0.owner.def_id.local_def_index.as_u32(), v.0.local_id.as_u32()))
    }
    fn pat(&mut self, th: &Thir<'tcx>, p: &Pat<'tcx>) -> String {
        let ty = self.ty(p.ty);
        let s = match &p.kind {
            PatKind::Wild | PatKind::Missing => "\"k\":\"wild\"".into(),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let sub = match subpattern {
                    Some(s) => format!(",\"sub\":{}", self.pat(th, s)),
                    None => String::new(),
                };
                let by = match mode.0 {
                    rustc_hir::ByRef::No => 0,
                    _ => 1,
                };
                format!(
                    "\"k\":\"bind\",\"name\":{},\"ref\":{},\"var\":{}{}",
                    js(name.as_str()),
                    by,
                    self.var(*var),
                    sub
                )
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let id = self.adt(adt_def.did());
                let v = adt_def.variant(*variant_index);
                let vn = v.name.to_string();
                let subs = subpatterns
                    .iter()
                    .map(|f| {
                        format!(
                            "[{},{}]",
                            js(v.fields[f.field].name.as_str()),
                            self.pat(th, &f.pattern)
                        )
                    })
                    .collect();
                format!("\"k\":\"variant\",\"def\":{},\"v\":{},\"subs\":{}", js(&id), js(&vn), arr(subs))
            }
            PatKind::Leaf { subpatterns } => {
                let names: Vec<String> = match p.ty.kind() {
                    ty::Adt(a, _) if a.is_struct() => a
                        .non_enum_variant()
                        .fields
                        .iter()
                        .map(|f| f.name.to_string())
                        .collect(),
                    _ => vec![],
                };
                let subs = subpatterns
                    .iter()
                    .map(|f| {
                        let n = names
                            .get(f.field.as_usize())
                            .cloned()
                            .unwrap_or_else(|| f.field.as_usize().to_string());
                        format!("[{},{}]", js(&n), self.pat(th, &f.pattern))
                    })
                    .collect();
                format!("\"k\":\"leaf\",\"subs\":{}", arr(subs))
            }
            PatKind::Deref { subpattern, .. } => {
                format!("\"k\":\"deref\",\"sub\":{}", self.pat(th, subpattern))
            }
            PatKind::DerefPattern { subpattern, .. } => {
                format!("\"k\":\"deref\",\"sub\":{}", self.pat(th, subpattern))
            }
            PatKind::Constant { value } => {
                let v = if let Some(l) = value.try_to_leaf_() {
                    self.scalar(l, value.ty)
                } else {
                    format!("{{\"other\":{}}}", js(&with_no_trimmed_paths!(format!("{}", value))))
                };
                format!("\"k\":\"const\",\"value\":{}", v)
            }
            PatKind::Range(r) => {
                let mut b = |x: &PatRangeBoundary<'tcx>| match x {
                    PatRangeBoundary::Finite(v) => {
                        self.scalar(v.to_leaf(), r.ty)
                    }
                    PatRangeBoundary::NegInfinity => "null".to_string(),
                    PatRangeBoundary::PosInfinity => "null".to_string(),
                };
                let lo = b(&r.lo);
                let hi = b(&r.hi);
                format!(
                    "\"k\":\"range\",\"lo\":{},\"hi\":{},\"incl\":{}",
                    lo,
                    hi,
                    matches!(r.end, rustc_hir::RangeEnd::Included)
                )
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let a = prefix.iter().map(|p| self.pat(th, p)).collect();
                let b = suffix.iter().map(|p| self.pat(th, p)).collect();
                let m = match slice {
                    Some(s) => self.pat(th, s),
                    None => "null".into(),
                };
                format!("\"k\":\"slice\",\"prefix\":{},\"mid\":{},\"suffix\":{}", arr(a), m, arr(b))
            }
            PatKind::Or { pats } => {
                let a = pats.iter().map(|p| self.pat(th, p)).collect();
                format!("\"k\":\"or\",\"pats\":{}", arr(a))
            }
            PatKind::Never => "\"k\":\"never\"".into(),
            PatKind::Guard { subpattern, condition } => {
                let s = self.pat(th, subpattern);
                let c = self.expr(th, *condition);
                format!("\"k\":\"guard\",\"sub\":{},\"cond\":{}", s, c)
            }
            _ => "\"k\":\"error\"".into(),
        };
        format!("{{{},\"ty\":{}}}", s, ty)
    }
    fn block(&mut self, th: &Thir<'tcx>, b: BlockId) -> String {
        let b = &th[b];
        let mut st = vec![];
        for s in b.stmts.iter() {
            match &th[*s].kind {
                StmtKind::Expr { expr, .. } => st.push(format!("{{\"s\":\"e\",\"e\":{}}}", self.expr(th, *expr))),
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let p = self.pat(th, pattern);
                    let i = match initializer {
                        Some(e) => self.expr(th, *e),
                        None => "null".into(),
                    };
                    let e = match else_block {
                        Some(b) => self.block(th, *b),
                        None => "null".into(),
                    };
                    st.push(format!(
                        "{{\"s\":\"let\",\"pat\":{},\"init\":{},\"else\":{},\"sp\":{}}}",
                        p, i, e, js(&self.span(*span))
                    ));
                }
            }
        }
        let e = match b.expr {
            Some(e) => self.expr(th, e),
            None => "null".into(),
        };
        let lab = if b.targeted_by_break {
            format!(",\"label\":{}", b.region_scope.local_id.as_u32())
        } else {
            String::new()
        };
        format!("{{\"k\":\"block\",\"stmts\":{},\"expr\":{}{}}}", arr(st), e, lab)
    }
    fn exprs(&mut self, th: &Thir<'tcx>, es: &[ExprId]) -> String {
        let v = es.iter().map(|e| self.expr(th, *e)).collect();
        arr(v)
    }
    fn expr(&mut self, th: &Thir<'tcx>, e: ExprId) -> String {
        let mut scopes = vec![];
        let mut e = e;
        while let ExprKind::Scope { region_scope, value, .. } = &th[e].kind {
            scopes.push(region_scope.local_id.as_u32().to_string());
            e = *value;
        }
        let x = &th[e];
        let ty = self.ty(x.ty);
        let s = match &x.kind {
            ExprKind::Scope { .. } => unreachable!(),
            ExprKind::If { cond, then, else_opt, .. } => {
                let c = self.expr(th, *cond);
                let t = self.expr(th, *then);
                let f = match else_opt {
                    Some(e) => self.expr(th, *e),
                    None => "null".into(),
                };
                format!("\"k\":\"if\",\"c\":{},\"t\":{},\"f\":{}", c, t, f)
            }
            ExprKind::Call { ty: fty, fun, args, .. } => {
                let a = self.exprs(th, args);
                match fty.kind() {
                    ty::FnDef(d, ga) => {
                        let id = self.def(*d);
                        let g = self.args(ga.skip_binder());
                        format!("\"k\":\"call\",\"def\":{},\"ga\":{},\"args\":{}", js(&id), g, a)
                    }
                    _ => {
                        let f = self.expr(th, *fun);
                        format!("\"k\":\"callv\",\"f\":{},\"args\":{}", f, a)
                    }
                }
            }
            ExprKind::Deref { arg } => format!("\"k\":\"deref\",\"e\":{}", self.expr(th, *arg)),
            ExprKind::Binary { op, lhs, rhs } => {
                let l = self.expr(th, *lhs);
                let r = self.expr(th, *rhs);
                format!("\"k\":\"bin\",\"op\":{},\"l\":{},\"r\":{}", js(&format!("{:?}", op)), l, r)
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                let l = self.expr(th, *lhs);
                let r = self.expr(th, *rhs);
                let o = match op {
                    LogicalOp::And => "and",
                    LogicalOp::Or => "or",
                };
                format!("\"k\":\"logic\",\"op\":\"{}\",\"l\":{},\"r\":{}", o, l, r)
            }
            ExprKind::Unary { op, arg } => {
                format!("\"k\":\"un\",\"op\":{},\"e\":{}", js(&format!("{:?}", op)), self.expr(th, *arg))
            }
            ExprKind::Cast { source } => {
                format!("\"k\":\"cast\",\"e\":{}", self.expr(th, *source))
            }
            ExprKind::ValueExpr { source }
            | ExprKind::NeverToAny { source }
            | ExprKind::ByUse { expr: source, .. }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::Reborrow { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source } => {
                format!("\"k\":\"use\",\"e\":{}", self.expr(th, *source))
            }
            ExprKind::PointerCoercion { cast, source, .. } => {
                let c = format!("{:?}", cast);
                format!("\"k\":\"coerce\",\"c\":{},\"e\":{}", js(&c), self.expr(th, *source))
            }
            ExprKind::Loop { body } => format!("\"k\":\"loop\",\"body\":{}", self.expr(th, *body)),
            ExprKind::Let { expr, pat } => {
                let e = self.expr(th, *expr);
                format!("\"k\":\"let\",\"e\":{},\"pat\":{}", e, self.pat(th, pat))
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let s = self.expr(th, *scrutinee);
                let mut v = vec![];
                for a in arms.iter() {
                    let a = &th[*a];
                    let p = self.pat(th, &a.pattern);
                    let g = match a.guard {
                        Some(g) => self.expr(th, g),
                        None => "null".into(),
                    };
                    let b = self.expr(th, a.body);
                    v.push(format!("{{\"pat\":{},\"guard\":{},\"body\":{}}}", p, g, b));
                }
                format!(
                    "\"k\":\"match\",\"e\":{},\"arms\":{},\"src\":{}",
                    s,
                    arr(v),
                    js(&format!("{:?}", match_source))
                )
            }
            ExprKind::Block { block } => {
                let b = self.block(th, *block);
                b[1..b.len() - 1].to_string()
            }
            ExprKind::Assign { lhs, rhs } => {
                let l = self.expr(th, *lhs);
                let r = self.expr(th, *rhs);
                format!("\"k\":\"assign\",\"l\":{},\"r\":{}", l, r)
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                let l = self.expr(th, *lhs);
                let r = self.expr(th, *rhs);
                format!("\"k\":\"assignop\",\"op\":{},\"l\":{},\"r\":{}", js(&format!("{:?}", op)), l, r)
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let n = match th[*lhs].ty.kind() {
                    ty::Adt(a, _) => a.variant(*variant_index).fields[*name].name.to_string(),
                    _ => name.as_usize().to_string(),
                };
                let l = self.expr(th, *lhs);
                format!("\"k\":\"field\",\"e\":{},\"n\":{}", l, js(&n))
            }
            ExprKind::Index { lhs, index } => {
                let l = self.expr(th, *lhs);
                let r = self.expr(th, *index);
                format!("\"k\":\"index\",\"e\":{},\"i\":{}", l, r)
            }
            ExprKind::VarRef { id } => format!("\"k\":\"var\",\"var\":{}", self.var(*id)),
            ExprKind::UpvarRef { var_hir_id, .. } => {
                format!("\"k\":\"upvar\",\"var\":{}", self.var(*var_hir_id))
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                let m = matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. });
                format!("\"k\":\"borrow\",\"mut\":{},\"e\":{}", m, self.expr(th, *arg))
            }
            ExprKind::RawBorrow { arg, .. } => {
                format!("\"k\":\"borrow\",\"mut\":true,\"raw\":true,\"e\":{}", self.expr(th, *arg))
            }
            ExprKind::Break { label, value } => {
                let v = match value {
                    Some(v) => self.expr(th, *v),
                    None => "null".into(),
                };
                format!("\"k\":\"break\",\"label\":{},\"e\":{}", label.local_id.as_u32(), v)
            }
            ExprKind::Continue { label } => {
                format!("\"k\":\"continue\",\"label\":{}", label.local_id.as_u32())
            }
            ExprKind::Return { value } => {
                let v = match value {
                    Some(v) => self.expr(th, *v),
                    None => "null".into(),
                };
                format!("\"k\":\"return\",\"e\":{}", v)
            }
            ExprKind::Repeat { value, count } => {
                let v = self.expr(th, *value);
                format!("\"k\":\"repeat\",\"e\":{},\"n\":{}", v, js(&format!("{}", count)))
            }
            ExprKind::Array { fields } => format!("\"k\":\"array\",\"es\":{}", self.exprs(th, fields)),
            ExprKind::Tuple { fields } => format!("\"k\":\"tuple\",\"es\":{}", self.exprs(th, fields)),
            ExprKind::Adt(a) => {
                let id = self.adt(a.adt_def.did());
                let v = a.adt_def.variant(a.variant_index);
                let vn = v.name.to_string();
                let mut fs = vec![];
                for f in a.fields.iter() {
                    fs.push(format!(
                        "[{},{}]",
                        js(v.fields[f.name].name.as_str()),
                        self.expr(th, f.expr)
                    ));
                }
                let base = match &a.base {
                    AdtExprBase::Base(b) => self.expr(th, b.base),
                    _ => "null".into(),
                };
                let ga = self.args(a.args);
                format!(
                    "\"k\":\"adt\",\"def\":{},\"v\":{},\"ga\":{},\"fields\":{},\"base\":{}",
                    js(&id), js(&vn), ga, arr(fs), base
                )
            }
            ExprKind::Closure(c) => {
                let id = self.id(c.closure_id.to_def_id());
                let ups = self.exprs(th, &c.upvars);
                format!("\"k\":\"closure\",\"def\":{},\"upvars\":{}", js(&id), ups)
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                let v = match &lit.node {
                    Str(s, _) => format!("{{\"str\":{}}}", js(s.as_str())),
                    Int(n, _) => match x.ty.kind() {
                        ty::Float(_) => format!("{{\"f64\":{}}}", js(&format!("{}{}", if *neg { "-" } else { "" }, n))),
                        _ => format!("{{\"int\":{}}}", js(&format!("{}{}", if *neg { "-" } else { "" }, n))),
                    },
                    Float(s, _) => format!("{{\"f64\":{}}}", js(&format!("{}{}", if *neg { "-" } else { "" }, s))),
                    Bool(b) => format!("{{\"bool\":{}}}", b),
                    Char(c) => format!("{{\"char\":{}}}", *c as u32),
                    Byte(c) => format!("{{\"int\":\"{}\"}}", *c),
                    ByteStr(b, _) => format!("{{\"bytes\":{}}}", js(&b.as_byte_str().iter().map(|x| *x as char).collect::<String>())),
                    _ => "{\"other\":\"lit\"}".into(),
                };
                format!("\"k\":\"lit\",\"value\":{}", v)
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                format!("\"k\":\"lit\",\"value\":{}", self.scalar(*lit, x.ty))
            }
            ExprKind::ZstLiteral { .. } => "\"k\":\"zst\"".to_string(),
            ExprKind::NamedConst { def_id, args, .. } => {
                let id = self.def(*def_id);
                let g = self.args(args);
                let mut val = String::new();
                if !def_id.is_local() {
                    // external associated consts etc.
                    let env = ty::TypingEnv::fully_monomorphized();
                    let uv = rustc_middle::mir::UnevaluatedConst::new(*def_id, args);
                    use rustc_middle::ty::TypeVisitableExt;
                    if !args.has_param() {
                        if let Ok(v) = self.tcx.const_eval_resolve(env, uv, rustc_span::DUMMY_SP) {
                            if let Some(s) = self.constv(v, x.ty) {
                                val = format!(",\"value\":{}", s);
                            }
                        }
                    }
                }
                format!("\"k\":\"const\",\"def\":{},\"ga\":{}{}", js(&id), g, val)
            }
            ExprKind::ConstParam { param, .. } => {
                format!("\"k\":\"constparam\",\"n\":{}", js(param.name.as_str()))
            }
            ExprKind::StaticRef { def_id, .. } => {
                format!("\"k\":\"static\",\"def\":{}", js(&self.def(*def_id)))
            }
            ExprKind::ThreadLocalRef(d) => {
                format!("\"k\":\"threadlocal\",\"def\":{}", js(&self.def(*d)))
            }
            ExprKind::ConstBlock { did, .. } => {
                format!("\"k\":\"constblock\",\"def\":{}", js(&self.id(*did)))
            }
            _ => format!("\"k\":\"unsupported\",\"what\":{}", js(&format!("{:?}", x.kind).chars().take(40).collect::<String>())),
        };
        let sp = self.span(x.span);
        let sc = if scopes.is_empty() { String::new() } else { format!(",\"sc\":{}", arr(scopes)) };
        format!("{{{},\"ty\":{},\"sp\":{}{}}}", s, ty, js(&sp), sc)
    }
}

trait LeafExt {
    fn try_to_leaf_(&self) -> Option<ty::ScalarInt>;
}
impl<'tcx> LeafExt for ty::Value<'tcx> {
    fn try_to_leaf_(&self) -> Option<ty::ScalarInt> {
        use rustc_middle::ty::*;
        match self.ty.kind() {
            Bool | Char | Int(_) | Uint(_) | Float(_) => Some(self.to_leaf()),
            _ => None,
        }
    }
}

/// the control-flow graph of a body that holds guards of interior-mutable cells, reduced to what
/// decides how long each guard lives
fn guards<'tcx>(d: &mut D<'tcx>, ld: rustc_hir::def_id::LocalDefId) -> Option<String> {
    let tcx = d.tcx;
    let did = ld.to_def_id();
    if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
        return None;
    }
    let body = tcx.optimized_mir(did);
    let mut gs = vec![];
    for (l, decl) in body.local_decls.iter_enumerated() {
        for a in decl.ty.walk() {
            if let ty::GenericArgKind::Type(t) = a.kind() {
                if matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..)) && t == decl.ty {
                    break;
                }
                if let ty::Adt(def, args) = t.kind() {
                    let p = d.path(def.did());
                    let k = if p.ends_with("cell::Ref") {
                        "Ref"
                    } else if p.ends_with("cell::RefMut") {
                        "RefMut"
                    } else {
                        continue;
                    };
                    let c = args.types().next().map(|t| d.ty(t) as i64).unwrap_or(-1);
                    gs.push(format!("[{},{},{}]", l.as_usize(), js(k), c));
                    break;
                }
            }
        }
    }
    if gs.is_empty() {
        return None;
    }
    use rustc_middle::mir::*;
    let mut bs = vec![];
    for (_, b) in body.basic_blocks.iter_enumerated() {
        let mut ss = vec![];
        for s in &b.statements {
            match &s.kind {
                StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                StatementKind::Assign(x) => {
                    let mut used = vec![];
                    let mut op = |o: &Operand<'tcx>| {
                        if let Operand::Move(p) = o {
                            used.push(p.local.as_usize().to_string());
                        }
                    };
                    match &x.1 {
                        Rvalue::Use(o, ..) => op(o),
                        Rvalue::Cast(_, o, _) => op(o),
                        Rvalue::Aggregate(_, os) => os.iter().for_each(|o| op(o)),
                        _ => {}
                    }
                    if !used.is_empty() {
                        ss.push(format!("[\"mv\",{},{}]", x.0.local.as_usize(), arr(used)));
                    }
                }
                _ => {}
            }
        }
        let t = b.terminator();
        let succ: Vec<String> = t.successors().map(|x| x.as_usize().to_string()).collect();
        let k = match &t.kind {
            TerminatorKind::Drop { place, .. } => format!("\"drop\":{}", place.local.as_usize()),
            TerminatorKind::Call { func, args, destination, .. } => {
                let mut moved = vec![];
                for a in args.iter() {
                    if let Operand::Move(p) = &a.node {
                        moved.push(p.local.as_usize().to_string());
                    }
                }
                let mut s = format!("\"dest\":{},\"moved\":{}", destination.local.as_usize(), arr(moved));
                if let ty::FnDef(f, ga) = func.ty(&body.local_decls, tcx).kind() {
                    let f = *f;
                    let ga = d.args(ga.skip_binder());
                    let _ = write!(s, ",\"def\":{},\"ga\":{}", js(&d.def(f)), ga);
                }
                s
            }
            _ => String::new(),
        };
        let k = if k.is_empty() { k } else { format!("{},", k) };
        bs.push(format!(
            "{{{}\"s\":{},\"succ\":{},\"cleanup\":{},\"sp\":{}}}",
            k,
            arr(ss),
            arr(succ),
            b.is_cleanup,
            js(&d.span(t.source_info.span))
        ));
    }
    Some(format!("{{\"guards\":{},\"blocks\":{}}}", arr(gs), arr(bs)))
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut d = D {
        tcx,
        tys: vec![],
        tymap: HashMap::new(),
        defs: HashMap::new(),
        adts: HashMap::new(),
        adtq: vec![],
        defj: vec![],
    };
    let mut bodies = vec![];
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let Ok((th, root)) = tcx.thir_body(ld) else { continue };
        let th = th.borrow();
        let th: &Thir<'_> = &th;
        let mut ps = vec![];
        for p in th.params.iter() {
            let pt = match &p.pat {
                Some(p) => d.pat(th, p),
                None => "null".into(),
            };
            let t = d.ty(p.ty);
            ps.push(format!("{{\"pat\":{},\"ty\":{}}}", pt, t));
        }
        let e = if th.exprs.len() == 0 { "null".to_string() } else { d.expr(th, root) };
        let parent = tcx.typeck_root_def_id(did);
        if !matches!(kind, DefKind::Closure | DefKind::AnonConst) {
            d.def(did);
        }
        let mut ups = vec![];
        if matches!(kind, DefKind::Closure) {
            for c in tcx.closure_captures(ld).iter() {
                ups.push(format!(
                    "{{\"var\":{},\"ref\":{}}}",
                    d.var(LocalVarId(c.get_root_variable())),
                    !matches!(c.info.capture_kind, ty::UpvarCapture::ByValue)
                ));
            }
        }
        let gu = guards(&mut d, ld).unwrap_or("null".into());
        bodies.push(format!(
            "{{\"id\":{},\"path\":{},\"kind\":{},\"root\":{},\"params\":{},\"upvars\":{},\"body\":{},\"guards\":{},\"sp\":{}}}",
            js(&d.id(did)),
            js(&d.path(did)),
            js(&format!("{:?}", kind)),
            js(&d.id(parent)),
            arr(ps),
            arr(ups),
            e,
            gu,
            js(&d.span(tcx.def_span(did)))
        ));
    }
    // local impls
    let mut impls = vec![];
    let items = tcx.hir_crate_items(());
    for ld in items.definitions() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        if let DefKind::Impl { of_trait } = kind {
            let mut s = format!("{{\"id\":{}", js(&d.def(did)));
            let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let st = d.ty(st);
            let _ = write!(s, ",\"self\":{}", st);
            if of_trait {
                let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                let t = d.def(tr.def_id);
                let a = d.args(tr.args);
                let _ = write!(s, ",\"trait\":{},\"targs\":{}", js(&t), a);
                let auto = tcx.is_automatically_derived(did);
                let _ = write!(s, ",\"derived\":{}", auto);
            }
            let mut its = vec![];
            for it in tcx.associated_items(did).in_definition_order() {
                let id = d.def(it.def_id);
                let mut r = format!(
                    "{{\"id\":{},\"name\":{}",
                    js(&id),
                    js(it.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str())
                );
                if let Some(t) = it.trait_item_def_id() {
                    let _ = write!(r, ",\"titem\":{}", js(&d.def(t)));
                }
                if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) {
                    let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                    let _ = write!(r, ",\"ty\":{}", d.ty(t));
                }
                r.push('}');
                its.push(r);
            }
            let _ = write!(s, ",\"items\":{},\"sp\":{}}}", arr(its), js(&d.span(tcx.def_span(did))));
            impls.push(s);
        } else if matches!(kind, DefKind::Struct | DefKind::Enum) {
            d.adt(did);
        } else if matches!(kind, DefKind::Trait) {
            d.def(did);
            for it in tcx.associated_items(did).in_definition_order() {
                d.def(it.def_id);
            }
        } else if matches!(kind, DefKind::Static { .. } | DefKind::Fn | DefKind::AssocFn | DefKind::Mod) {
            d.def(did);
        }
    }
    let mut adts = vec![];
    let mut i = 0;
    while i < d.adtq.len() {
        let a = d.adtq[i];
        i += 1;
        adts.push(d.adt_row(a));
    }
    let s = format!(
        "{{\"crate\":{},\"types\":{},\"defs\":{},\"adts\":{{{}}},\"impls\":{},\"bodies\":{}}}",
        js(tcx.crate_name(LOCAL_CRATE).as_str()),
        arr(d.tys.clone()),
        arr(d.defj.clone()),
        adts.join(","),
        arr(impls),
        arr(bodies)
    );
    let tmp = format!("{}.tmp{}", out, std::process::id());
    std::fs::write(&tmp, s).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let Ok(out) = std::env::var("SETT_DUMP_OUT") {
            dump(tcx, &out);
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: thirdump <rustc> args...
    args.remove(0);
    let want = std::env::var("SETT_DUMP_CRATE").unwrap_or_default();
    let mut is = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == want {
            is = true;
        }
    }
    if args.iter().any(|a| a == "--test") {
        is = false;
    }
    if is {
        args.push("-Zno-steal-thir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Aunused".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
