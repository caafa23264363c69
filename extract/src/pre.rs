//! Rewrites of whole statements into forms the verifier reads; each keeps the meaning (DESIGN.md, "Extraction").
//!   * `for (i, x) in V.iter().enumerate()`   -> a loop over the indices with `let x = &V[i];`
//!   * `continue` in a `for` body             -> if/else around the rest of the body
//!   * `let v = S.map(|p| e).collect::<..>()` -> a loop pushing `e` (with `?`, `e?`)
//!   * local closures called by name          -> their bodies
//!   * `(a, b) = (x, y)` -> temporaries; `&P` patterns -> `P` and copies of what it binds
//!   * `[a, b]` patterns over a slice place   -> length tests and indexing
//!   * `[x, y].iter().any(|e| c)`, `all`, `contains` on literals -> the conditions joined
use crate::load::*;
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn has_continue(b: &Block) -> bool {
    struct C(bool);
    impl<'a> syn::visit::Visit<'a> for C {
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true
        }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut c = C(false);
    syn::visit::Visit::visit_block(&mut c, b);
    c.0
}

fn expr_block(e: &Expr) -> Block {
    match e {
        Expr::Block(b) => b.block.clone(),
        Expr::Paren(p) => expr_block(&p.expr),
        o => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(o.clone(), None)] },
    }
}

fn unit(mut s: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(_, semi)) = s.last_mut() {
        if semi.is_none() {
            *semi = Some(Default::default());
        }
    }
    s
}

fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Continue(_), _)) | Some(Stmt::Expr(Expr::Return(_), _)) | Some(Stmt::Expr(Expr::Break(_), _)) => true,
        Some(Stmt::Expr(Expr::Block(b), _)) => diverges(&b.block),
        _ => false,
    }
}

/// a `for` body without `continue`
fn uncontinue(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    for (i, s) in stmts.iter().enumerate() {
        let one = Block { brace_token: Default::default(), stmts: vec![s.clone()] };
        if !has_continue(&one) {
            out.push(s.clone());
            continue;
        }
        let rest = &stmts[i + 1..];
        match s {
            Stmt::Expr(Expr::Continue(c), _) if c.label.is_none() => return Some(out),
            Stmt::Expr(Expr::Block(b), _) if rest.is_empty() => {
                let v = uncontinue(&b.block.stmts)?;
                out.push(parse_quote!({ #(#v)* }));
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), _) => {
                if has_continue(&Block { brace_token: Default::default(), stmts: vec![Stmt::Expr((*f.cond).clone(), None)] }) {
                    return None;
                }
                let c = &f.cond;
                let arm = |b: &Block| -> Option<Vec<Stmt>> {
                    let mut v = unit(b.stmts.clone());
                    if !diverges(b) {
                        v.extend(rest.iter().cloned());
                    }
                    uncontinue(&v)
                };
                let t = arm(&f.then_branch)?;
                let e = match &f.else_branch {
                    Some((_, e)) => arm(&expr_block(e))?,
                    None => arm(&Block { brace_token: Default::default(), stmts: vec![] })?,
                };
                let x: Expr = parse_quote!(if #c { #(#t)* } else { #(#e)* });
                out.push(Stmt::Expr(x, Some(Default::default())));
                return Some(out);
            }
            Stmt::Expr(Expr::Match(m), _) => {
                let mut m = m.clone();
                for a in &mut m.arms {
                    let b = expr_block(&a.body);
                    let mut v = unit(b.stmts.clone());
                    if !diverges(&b) {
                        v.extend(rest.iter().cloned());
                    }
                    let v = uncontinue(&v)?;
                    *a.body = parse_quote!({ #(#v)* });
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), Some(Default::default())));
                return Some(out);
            }
            // let P = match e { .. => continue, .. };   let P = e else { continue };
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let pat = &l.pat;
                if let Some((_, d)) = &init.diverge {
                    let e = &init.expr;
                    let d = expr_block(d);
                    let dv = uncontinue(&unit(d.stmts.clone()))?;
                    let r = uncontinue(rest)?;
                    let p = match pat {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    let x: Expr = parse_quote!(match #e { #p => { #(#r)* } _ => { #(#dv)* } });
                    out.push(Stmt::Expr(x, Some(Default::default())));
                    return Some(out);
                }
                let mk = |e: &Expr| -> Option<Vec<Stmt>> {
                    let b = expr_block(e);
                    if diverges(&b) {
                        return uncontinue(&unit(b.stmts.clone()));
                    }
                    if has_continue(&b) {
                        return None;
                    }
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #b;)];
                    v.extend(uncontinue(rest)?);
                    Some(v)
                };
                match &*init.expr {
                    Expr::Match(m) => {
                        let mut m = m.clone();
                        for a in &mut m.arms {
                            let v = mk(&a.body)?;
                            *a.body = parse_quote!({ #(#v)* });
                            a.comma = Some(Default::default());
                        }
                        out.push(Stmt::Expr(Expr::Match(m), Some(Default::default())));
                        return Some(out);
                    }
                    Expr::If(f) => {
                        let c = &f.cond;
                        let t = mk(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: f.then_branch.clone() }))?;
                        let e = mk(&f.else_branch.as_ref()?.1)?;
                        let x: Expr = parse_quote!(if #c { #(#t)* } else { #(#e)* });
                        out.push(Stmt::Expr(x, Some(Default::default())));
                        return Some(out);
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    Some(out)
}

fn pathlike(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => pathlike(&f.base),
        Expr::Paren(p) => pathlike(&p.expr),
        _ => false,
    }
}

/// the iterated place of `V.iter()`, `(&V).into_iter()`, `&V`
fn borrowed(e: &Expr) -> Option<Expr> {
    match e {
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() && pathlike(&m.receiver) => Some((*m.receiver).clone()),
        Expr::Reference(r) if r.mutability.is_none() && pathlike(&r.expr) => Some((*r.expr).clone()),
        Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => match &*m.receiver {
            Expr::Paren(p) => match &*p.expr {
                Expr::Reference(r) if r.mutability.is_none() && pathlike(&r.expr) => Some((*r.expr).clone()),
                _ => None,
            },
            _ => None,
        },
        Expr::Paren(p) => borrowed(&p.expr),
        _ => None,
    }
}

/// what a `for` over this iterator goes through
fn source(e: &Expr) -> Expr {
    match e {
        Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => (*m.receiver).clone(),
        Expr::Paren(p) => source(&p.expr),
        e => e.clone(),
    }
}

/// S.map(|p| e).collect::<..>()[?] -> (S, p, e pushed)
fn map_collect(e: &Expr) -> Option<(Expr, Pat, Expr, bool)> {
    match e {
        Expr::Try(t) => {
            let (s, p, b, q) = map_collect(&t.expr)?;
            if q {
                return None;
            }
            Some((s, p, parse_quote!((#b)?), true))
        }
        Expr::Paren(p) => map_collect(&p.expr),
        Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => {
            if let Expr::MethodCall(mm) = &*m.receiver {
                if mm.method == "map" && mm.args.len() == 1 {
                    if let Expr::Closure(c) = &mm.args[0] {
                        if c.inputs.len() == 1 && !crate::norm::has_ret(&c.body) {
                            let p = match &c.inputs[0] {
                                Pat::Type(t) => (*t.pat).clone(),
                                p => p.clone(),
                            };
                            return Some((source(&mm.receiver), p, (*c.body).clone(), false));
                        }
                    }
                    if let Expr::Path(f) = &mm.args[0] {
                        let p: Pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: Ident::new("__m", proc_macro2::Span::call_site()), subpat: None });
                        return Some((source(&mm.receiver), p, parse_quote!(#f(__m)), false));
                    }
                }
            }
            None
        }
        _ => None,
    }
}

/// is the result collected a Result/Option without `?`
fn collects_plain(e: &Expr, ty: Option<&Type>) -> bool {
    let bad = |s: String| s.contains("Result") || s.contains("Option") || s.contains("HashMap") || s.contains("Set") || s.contains("String") || s.contains("VecDeque");
    if let Some(t) = ty {
        if bad(t.to_token_stream().to_string()) {
            return false;
        }
    }
    if let Expr::MethodCall(m) = e {
        if let Some(t) = &m.turbofish {
            return !bad(t.to_token_stream().to_string());
        }
        return ty.is_some();
    }
    false
}

struct Loops {
    fresh: usize,
}

impl Loops {
    fn collected(&mut self, e: &Expr, ty: Option<&Type>, name: &Ident) -> Option<Vec<Stmt>> {
        let (s, p, b, q) = map_collect(e)?;
        if !q && !collects_plain(e, ty) {
            return None;
        }
        if q {
            // collect::<Result<Vec<_>, _>>()?
            if let Expr::Try(t) = e {
                let t = t.expr.to_token_stream().to_string();
                if t.contains("VecDeque") || t.contains("HashMap") || t.contains("String") || t.contains("Option") {
                    return None;
                }
            }
        }
        let v: Vec<Stmt> = parse_quote!(let mut #name = Vec::new(); for #p in #s { #name.push(#b); });
        Some(v)
    }
}

/// chains nested in an expression, not under anything evaluated conditionally
struct Hoist<'a> {
    l: &'a mut Loops,
    pre: Vec<Stmt>,
}
impl<'a> VisitMut for Hoist<'a> {
    fn visit_block_mut(&mut self, _: &mut Block) {}
    fn visit_arm_mut(&mut self, _: &mut Arm) {}
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}
    fn visit_expr_for_loop_mut(&mut self, _: &mut ExprForLoop) {}
    fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
    fn visit_expr_binary_mut(&mut self, b: &mut ExprBinary) {
        self.visit_expr_mut(&mut b.left);
        if !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
            self.visit_expr_mut(&mut b.right);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let vec_ty: Type = parse_quote!(Vec<_>);
        // only a struct field or a tail of known type Vec would do without annotation: `collect()?` and annotated ones
        let id = Ident::new(&format!("__c{}", self.l.fresh), proc_macro2::Span::call_site());
        let ty = if matches!(e, Expr::Try(_)) { None } else { Some(&vec_ty) };
        let annotated = match &*e {
            Expr::MethodCall(m) => m.turbofish.is_some(),
            _ => true,
        };
        if annotated {
            if let Some(v) = self.l.collected(e, ty, &id) {
                self.l.fresh += 1;
                self.pre.extend(v);
                *e = parse_quote!(#id);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.member.to_token_stream().to_string() == "child" {
            let vec_ty: Type = parse_quote!(Vec<_>);
            let id = Ident::new(&format!("__c{}", self.l.fresh), proc_macro2::Span::call_site());
            if !matches!(f.expr, Expr::Try(_)) {
                if let Some(v) = self.l.collected(&f.expr.clone(), Some(&vec_ty), &id) {
                    self.l.fresh += 1;
                    self.pre.extend(v);
                    f.expr = parse_quote!(#id);
                    f.colon_token = Some(Default::default());
                    return;
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
}

impl VisitMut for Loops {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let e = &a.body;
        if !matches!(**e, Expr::Block(_)) && e.to_token_stream().to_string().contains("collect") {
            *a.body = parse_quote!({ #e });
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut s in stmts {
            if let Stmt::Local(l) = &s {
                if let (Some(i), None) = (&l.init, l.init.as_ref().and_then(|i| i.diverge.as_ref())) {
                    let (p, ty) = match &l.pat {
                        Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
                        p => (p, None),
                    };
                    if let Pat::Ident(id) = p {
                        if let Some(v) = self.collected(&i.expr, ty, &id.ident) {
                            out.extend(v);
                            continue;
                        }
                    }
                }
            }
            if s.to_token_stream().to_string().contains("collect") {
                let mut h = Hoist { l: self, pre: vec![] };
                match &mut s {
                    Stmt::Expr(e, _) => h.visit_expr_mut(e),
                    Stmt::Local(l) => {
                        if let Some(i) = &mut l.init {
                            h.visit_expr_mut(&mut i.expr)
                        }
                    }
                    _ => {}
                }
                out.extend(std::mem::take(&mut h.pre));
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        // enumerate over a borrowed sequence
        if let Expr::MethodCall(m) = &*f.expr {
            if m.method == "enumerate" && m.args.is_empty() {
                if let (Some(v), Pat::Tuple(t)) = (borrowed(&m.receiver), &*f.pat) {
                    if t.elems.len() == 2 {
                        let (i, x) = (t.elems[0].clone(), t.elems[1].clone());
                        if let Pat::Ident(_) = &i {
                            f.body.stmts.insert(0, parse_quote!(let #x = &#v[#i];));
                            *f.pat = i;
                            *f.expr = parse_quote!(0..#v.len());
                        }
                    }
                }
            }
        }
        if has_continue(&f.body) {
            if let Some(v) = uncontinue(&f.body.stmts) {
                if !has_continue(&Block { brace_token: Default::default(), stmts: v.clone() }) {
                    f.body.stmts = v;
                }
            }
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
}

// ---------------------------------------------------------------- local closures

struct Idents(std::collections::BTreeMap<String, usize>);
impl Idents {
    fn of(ts: proc_macro2::TokenStream, m: &mut std::collections::BTreeMap<String, usize>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => *m.entry(i.to_string()).or_default() += 1,
                proc_macro2::TokenTree::Group(g) => Idents::of(g.stream(), m),
                _ => {}
            }
        }
    }
}
/// names bound by patterns
struct Bound(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, _: &'a Macro) {}
}

struct CallClosure<'a> {
    name: &'a Ident,
    c: &'a ExprClosure,
    calls: usize,
    fresh: usize,
}
impl<'a> VisitMut for CallClosure<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let f = match &*c.func {
                Expr::Path(p) => p.path.get_ident() == Some(self.name),
                _ => false,
            };
            if f && c.args.len() == self.c.inputs.len() {
                let mut pre: Vec<Stmt> = vec![];
                let mut post: Vec<Stmt> = vec![];
                for (k, (p, a)) in self.c.inputs.iter().zip(&c.args).enumerate() {
                    let id = Ident::new(&format!("__q{}_{}", self.fresh, k), proc_macro2::Span::call_site());
                    pre.push(parse_quote!(let #id = #a;));
                    post.push(parse_quote!(let #p = #id;));
                }
                self.fresh += 1;
                self.calls += 1;
                let b = &self.c.body;
                *e = parse_quote!({ #(#pre)* #(#post)* #b });
            }
        }
    }
}

struct CallPath<'a> {
    name: &'a Ident,
    path: &'a Expr,
}
impl<'a> VisitMut for CallPath<'a> {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        let f = match &*c.func {
            Expr::Path(p) => p.path.get_ident() == Some(self.name),
            Expr::Paren(p) => matches!(&*p.expr, Expr::Path(p) if p.path.get_ident() == Some(self.name)),
            _ => false,
        };
        if f {
            *c.func = self.path.clone();
        }
    }
}

/// `body` with every call of its parameter `name` replaced by the callable passed for it
pub fn apply_callable(body: &Block, name: &Ident, callable: &Expr, fresh: usize) -> Option<Block> {
    let mut b = body.clone();
    match callable {
        Expr::Closure(c) => {
            let mut bound = Bound(vec![]);
            syn::visit::Visit::visit_block(&mut bound, body);
            let mut own = Bound(vec![]);
            syn::visit::Visit::visit_expr_closure(&mut own, c);
            let mut used = Default::default();
            Idents::of(c.body.to_token_stream(), &mut used);
            // a name the closure takes from its surroundings must not be bound in the helper
            if bound.0.iter().any(|x| used.contains_key(x) && !own.0.contains(x)) {
                return None;
            }
            let mut cc = CallClosure { name, c, calls: 0, fresh: 100 * (fresh + 1) };
            cc.visit_block_mut(&mut b);
        }
        Expr::Path(_) => CallPath { name, path: callable }.visit_block_mut(&mut b),
        _ => return None,
    }
    let mut m = Default::default();
    Idents::of(b.to_token_stream(), &mut m);
    let before = matches!(callable, Expr::Path(p) if p.path.get_ident() == Some(name));
    if !before && m.get(&name.to_string()).copied().unwrap_or(0) > 0 {
        return None;
    }
    Some(b)
}

struct Closures {
    fresh: usize,
}
impl VisitMut for Closures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut done = false;
            if let Stmt::Local(l) = &b.stmts[i] {
                let p = match &l.pat {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                if let (Pat::Ident(id), Some(init)) = (p, &l.init) {
                    if let (Expr::Closure(c), None) = (&*init.expr, &init.diverge) {
                        let name = id.ident.clone();
                        let c = c.clone();
                        let rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                        // nothing the closure mentions is bound again afterwards
                        let mut bound = Bound(vec![]);
                        syn::visit::Visit::visit_block(&mut bound, &rest);
                        let mut used = Default::default();
                        Idents::of(c.body.to_token_stream(), &mut used);
                        let clash = bound.0.iter().any(|x| used.contains_key(x) || *x == name.to_string());
                        if !clash && !crate::norm::has_ret(&c.body) {
                            let mut r = rest.clone();
                            let mut cc = CallClosure { name: &name, c: &c, calls: 0, fresh: self.fresh };
                            cc.visit_block_mut(&mut r);
                            let calls = cc.calls;
                            self.fresh = cc.fresh;
                            let mut m = Default::default();
                            Idents::of(r.to_token_stream(), &mut m);
                            let left = m.get(&name.to_string()).copied().unwrap_or(0);
                            let moves = c.capture.is_some() && calls > 1;
                            if left == 0 && !moves {
                                b.stmts.truncate(i);
                                b.stmts.extend(r.stmts);
                                done = true;
                            }
                        }
                    }
                }
            }
            if !done {
                i += 1;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

// ---------------------------------------------------------------- assignments and reference patterns

/// `(a, b) = (x, y);` -> temporaries; `&P` patterns -> `P` and copies of its bindings
struct Plain {
    fresh: usize,
}
impl Plain {
    fn strip(p: &mut Pat) -> Option<Vec<Stmt>> {
        let inner = match p {
            Pat::Reference(r) if r.mutability.is_none() => (*r.pat).clone(),
            _ => return None,
        };
        if matches!(inner, Pat::Ident(_) | Pat::Wild(_) | Pat::Lit(_)) {
            return None;
        }
        let mut b = Bound(vec![]);
        syn::visit::Visit::visit_pat(&mut b, &inner);
        *p = inner;
        Some(
            b.0.iter()
                .filter(|x| x.chars().next().map_or(false, |c| c.is_lowercase() || c == '_'))
                .map(|x| {
                    let i = Ident::new(x, proc_macro2::Span::call_site());
                    parse_quote!(let #i = *#i;)
                })
                .collect(),
        )
    }
}
impl VisitMut for Plain {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(Expr::Assign(a), semi) = s {
            if let Expr::Tuple(t) = &*a.left {
                let n = t.elems.len();
                let ids: Vec<Ident> = (0..n).map(|i| Ident::new(&format!("__t{}_{}", self.fresh, i), proc_macro2::Span::call_site())).collect();
                self.fresh += 1;
                let mut out: Vec<Stmt> = vec![];
                match &*a.right {
                    Expr::Tuple(r) if r.elems.len() == n => {
                        for (i, e) in ids.iter().zip(&r.elems) {
                            out.push(parse_quote!(let #i = #e;));
                        }
                    }
                    e => out.push(parse_quote!(let (#(#ids),*) = #e;)),
                }
                for (i, l) in ids.iter().zip(&t.elems) {
                    if !matches!(l, Expr::Infer(_)) {
                        out.push(parse_quote!(#l = #i;));
                    }
                }
                *s = Stmt::Expr(parse_quote!({ #(#out)* }), *semi);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if let Some(v) = Plain::strip(&mut a.pat) {
            if !v.is_empty() {
                let b = &a.body;
                *a.body = parse_quote!({ #(#v)* #b });
                if let Some((_, g)) = &mut a.guard {
                    **g = parse_quote!({ #(#v)* #g });
                }
            }
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        if let Expr::Let(l) = &mut *i.cond {
            if let Some(v) = Plain::strip(&mut l.pat) {
                let old = std::mem::take(&mut i.then_branch.stmts);
                i.then_branch.stmts.extend(v);
                i.then_branch.stmts.extend(old);
            }
        }
        visit_mut::visit_expr_if_mut(self, i);
    }
}

// ---------------------------------------------------------------- slices

/// fixed-length slice patterns over a place: length tests and indexing;
/// `any` / `all` / `contains` on an array literal: the disjunction / conjunction
struct Slices;

fn slice_place(e: &Expr) -> Option<Expr> {
    match e {
        Expr::Paren(p) => slice_place(&p.expr),
        Expr::MethodCall(m) if m.method == "as_slice" && m.args.is_empty() && pathlike(&m.receiver) => Some((*m.receiver).clone()),
        Expr::Reference(r) if r.mutability.is_none() => match &*r.expr {
            Expr::Index(i) if pathlike(&i.expr) && i.index.to_token_stream().to_string() == ".." => Some((*i.expr).clone()),
            _ => None,
        },
        e if pathlike(e) => Some(e.clone()),
        _ => None,
    }
}

/// (length, bindings) of `[a, _, b]`
fn slice_pat(p: &Pat, v: &Expr) -> Option<(usize, Vec<Stmt>)> {
    let s = match p {
        Pat::Slice(s) => s,
        Pat::Paren(p) => return slice_pat(&p.pat, v),
        Pat::Reference(r) => return slice_pat(&r.pat, v).filter(|x| x.1.is_empty()),
        _ => return None,
    };
    let mut out: Vec<Stmt> = vec![];
    for (i, e) in s.elems.iter().enumerate() {
        match e {
            Pat::Ident(id) if id.by_ref.is_none() && id.mutability.is_none() && id.subpat.is_none() => out.push(parse_quote!(let #id = &#v[#i];)),
            Pat::Wild(_) => {}
            _ => return None,
        }
    }
    Some((s.elems.len(), out))
}

impl Slices {
    fn matched(m: &ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) {
            return None;
        }
        let v = slice_place(&m.expr)?;
        let mut out: Expr = parse_quote!({ unreachable!() });
        for a in m.arms.iter().rev() {
            let b = &a.body;
            let (n, binds): (Option<usize>, Vec<Stmt>) = match &a.pat {
                Pat::Wild(_) => (None, vec![]),
                Pat::Ident(i) if i.subpat.is_none() && i.ident.to_string().chars().next()?.is_lowercase() => (None, vec![parse_quote!(let #i = &#v;)]),
                p => {
                    let (n, b) = slice_pat(p, &v)?;
                    (Some(n), b)
                }
            };
            out = match (n, &a.guard) {
                (Some(n), None) => parse_quote!(if #v.len() == #n { #(#binds)* #b } else #out),
                (None, None) => parse_quote!({ #(#binds)* #b }),
                (Some(n), Some((_, g))) => parse_quote!(if #v.len() == #n && { #(#binds)* #g } { #(#binds)* #b } else #out),
                (None, Some((_, g))) => parse_quote!(if { #(#binds)* #g } { #(#binds)* #b } else #out),
            };
        }
        Some(out)
    }
    fn literal(e: &Expr) -> Option<Vec<Expr>> {
        match e {
            Expr::Array(a) => Some(a.elems.iter().cloned().collect()),
            Expr::Paren(p) => Slices::literal(&p.expr),
            Expr::Reference(r) => Slices::literal(&r.expr),
            _ => None,
        }
    }
    fn quantified(m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if m.args.len() != 1 {
            return None;
        }
        let join = |v: Vec<Expr>, and: bool| -> Option<Expr> {
            let mut it = v.into_iter();
            let mut e = it.next()?;
            for x in it {
                e = if and { parse_quote!(#e && #x) } else { parse_quote!(#e || #x) };
            }
            Some(parse_quote!((#e)))
        };
        if name == "contains" {
            let x = match &m.args[0] {
                Expr::Reference(r) => (*r.expr).clone(),
                _ => return None,
            };
            if let Expr::Paren(p) = &*m.receiver {
                if let Expr::Range(r) = &*p.expr {
                    let (lo, hi) = (r.start.as_ref()?, r.end.as_ref()?);
                    return Some(match r.limits {
                        RangeLimits::HalfOpen(_) => parse_quote!((#lo <= #x && #x < #hi)),
                        RangeLimits::Closed(_) => parse_quote!((#lo <= #x && #x <= #hi)),
                    });
                }
            }
            let v = Slices::literal(&m.receiver)?;
            return join(v.iter().map(|a| parse_quote!((#x == #a))).collect(), false);
        }
        if name != "any" && name != "all" {
            return None;
        }
        let it = match &*m.receiver {
            Expr::MethodCall(i) if i.args.is_empty() && (i.method == "iter" || i.method == "into_iter") => i,
            _ => return None,
        };
        let v = Slices::literal(&it.receiver)?;
        let c = match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 && !crate::norm::has_ret(&c.body) => c,
            _ => return None,
        };
        let p = &c.inputs[0];
        let b = &c.body;
        let byref = it.method == "iter";
        join(
            v.iter()
                .map(|a| {
                    if byref {
                        parse_quote!({ let #p = &(#a); #b })
                    } else {
                        parse_quote!({ let #p = #a; #b })
                    }
                })
                .collect(),
            name == "all",
        )
    }
}
impl VisitMut for Slices {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for s in stmts {
            if let Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: Some((_, d)), .. }), .. }) = &s {
                if let Some(v) = slice_place(expr) {
                    if let Some((n, binds)) = slice_pat(pat, &v) {
                        b.stmts.push(Stmt::Expr(parse_quote!(if #v.len() != #n { #d }), Some(Default::default())));
                        b.stmts.extend(binds);
                        continue;
                    }
                }
            }
            b.stmts.push(s);
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let new = match &*e {
            Expr::Match(m) => Slices::matched(m),
            Expr::If(i) => match &*i.cond {
                Expr::Let(l) => slice_place(&l.expr).and_then(|v| slice_pat(&l.pat, &v).map(|x| (v, x))).map(|(v, (n, binds))| {
                    let t = &i.then_branch.stmts;
                    match &i.else_branch {
                        Some((_, x)) => parse_quote!(if #v.len() == #n { #(#binds)* #(#t)* } else #x),
                        None => parse_quote!(if #v.len() == #n { #(#binds)* #(#t)* }),
                    }
                }),
                _ => None,
            },
            Expr::MethodCall(m) => Slices::quantified(m),
            _ => None,
        };
        if let Some(x) = new {
            *e = x;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn run(k: &mut Krate) {
    visit_modules_mut(&mut k.root, &mut |m| {
        for it in &mut m.items {
            Slices.visit_item_mut(it);
            Plain { fresh: 0 }.visit_item_mut(it);
        }
        let mut c = Closures { fresh: 0 };
        let mut l = Loops { fresh: 0 };
        for it in &mut m.items {
            c.visit_item_mut(it);
            l.visit_item_mut(it);
        }
    });
}
