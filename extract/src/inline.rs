//! Helper functions without a contract are inlined at their call sites, so that
//! a caller is judged with the code that really runs (an extracted helper needs
//! no contract of its own).  Functions that cannot be inlined stay as they are:
//! callers then know nothing about their result.
use crate::load::*;
use crate::overlay::Overlay;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Debug)]
pub struct Report {
    pub inlined: BTreeSet<String>,
    pub dropped: BTreeSet<String>,
    /// uncontracted functions that stay opaque to their callers
    pub opaque: BTreeMap<String, String>,
    /// contracts whose function was not found or has another signature
    pub lost: BTreeMap<String, String>,
    pub display: BTreeMap<String, String>,
}

#[derive(Clone)]
struct Cand {
    key: String,
    name: String,
    module: Vec<String>,
    self_ty: Option<Type>,
    receiver: Option<Receiver>,
    params: Vec<(Pat, Type)>,
    generic: BTreeSet<String>,
    /// text of the bounds on type parameters
    bounds: String,
    body: Block,
    why: Option<String>,
}

/// does the overlay contract for `key` fit this signature?
pub fn contract_fits(ov: &Overlay, key: &str, sig: &Signature) -> std::result::Result<bool, String> {
    match ov.fns.get(key) {
        None => Ok(false),
        Some(f) => {
            if let Some(ps) = &f.params {
                let actual: Vec<&PatType> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
                if actual.len() != ps.len() {
                    return Err(format!("{} parameters, contract has {}", actual.len(), ps.len()));
                }
                for (a, p) in actual.iter().zip(ps) {
                    if key.starts_with('<') {
                        break;
                    }
                    if let Some((_, t)) = p.split_once(':') {
                        if ty_key(&a.ty).replace(' ', "") != t.trim().replace(' ', "") {
                            return Err(format!("parameter type {} instead of {}", ty_key(&a.ty), t.trim()));
                        }
                    }
                }
            }
            if let Some(rt) = f.ret_ty.as_ref().filter(|_| !key.starts_with('<')) {
                let a = match &sig.output {
                    ReturnType::Default => "()".to_string(),
                    ReturnType::Type(_, t) => ty_key(t),
                };
                if a.replace(' ', "") != rt.replace(' ', "") {
                    return Err(format!("return type {} instead of {}", a, rt));
                }
            }
            Ok(true)
        }
    }
}

// ------------------------------------------------------------ return removal

fn ends_in_return(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => expr_returns(e),
        _ => false,
    }
}

fn is_panic(e: &Expr) -> bool {
    if let Expr::Call(c) = e {
        return c.func.to_token_stream().to_string().replace(' ', "").ends_with("rt_panic");
    }
    false
}

fn expr_returns(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Call(_) => is_panic(e),
        Expr::Block(b) => ends_in_return(&b.block),
        Expr::Paren(p) => expr_returns(&p.expr),
        Expr::If(i) => ends_in_return(&i.then_branch) && i.else_branch.as_ref().map_or(false, |(_, e)| expr_returns(e)),
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| expr_returns(&a.body)),
        _ => false,
    }
}

fn as_block(e: &Expr) -> Block {
    match e {
        Expr::Block(b) => b.block.clone(),
        Expr::Paren(p) => as_block(&p.expr),
        other => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(other.clone(), None)] },
    }
}

fn no_ret(b: &Block) -> bool {
    b.stmts.iter().all(|s| !stmt_has_ret(s))
}

fn stmt_has_ret(s: &Stmt) -> bool {
    match s {
        Stmt::Expr(e, _) => crate::norm::has_ret(e),
        Stmt::Local(l) => l.init.as_ref().map_or(false, |i| crate::norm::has_ret(&i.expr) || i.diverge.as_ref().map_or(false, |d| crate::norm::has_ret(&d.1))),
        _ => false,
    }
}

/// `value_expr` in tail position: rewrite so that no `return`/`?` remains
fn tail_expr(e: &Expr) -> Option<Expr> {
    if !crate::norm::has_ret(e) {
        return Some(e.clone());
    }
    match e {
        Expr::Return(r) => match &r.expr {
            Some(x) => tail_expr(x),
            None => Some(parse_quote!(())),
        },
        Expr::Paren(p) => tail_expr(&p.expr),
        Expr::Block(b) => {
            let bl = unreturn(&b.block.stmts)?;
            Some(parse_quote!(#bl))
        }
        Expr::If(i) if !crate::norm::has_ret(&i.cond) => {
            let c = &i.cond;
            let t = unreturn(&i.then_branch.stmts)?;
            let (_, el) = i.else_branch.as_ref()?;
            let e = as_block(&tail_expr(el)?);
            Some(parse_quote!(if #c #t else #e))
        }
        Expr::Match(m) if !crate::norm::has_ret(&m.expr) => {
            let mut m2 = m.clone();
            for a in &mut m2.arms {
                let b = tail_expr(&a.body)?;
                *a.body = b;
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m2))
        }
        Expr::Try(t) if !crate::norm::has_ret(&t.expr) => None,
        // Ok(e?)
        Expr::Call(c) if c.args.len() == 1 => {
            let f = c.func.to_token_stream().to_string();
            if let Expr::Try(t) = &c.args[0] {
                if f == "Ok" && !crate::norm::has_ret(&t.expr) {
                    return Some((*t.expr).clone());
                }
            }
            None
        }
        _ => None,
    }
}

pub fn unreturn_pub(stmts: &[Stmt]) -> Option<Block> {
    if stmts.iter().all(|s| !stmt_has_ret(s)) {
        return Some(Block { brace_token: Default::default(), stmts: stmts.to_vec() });
    }
    unreturn(stmts)
}

fn rest_of(stmts: &[Stmt]) -> Option<Block> {
    unreturn(stmts)
}

/// block with the same value as `stmts` but without return / ?
fn unreturn(stmts: &[Stmt]) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in stmts.iter().enumerate() {
        let last = i + 1 == stmts.len();
        if !stmt_has_ret(s) {
            if last {
                if let Stmt::Expr(e, Some(_)) = s {
                    if is_panic(e) {
                        out.push(Stmt::Expr(e.clone(), None));
                        continue;
                    }
                }
            }
            out.push(s.clone());
            continue;
        }
        match s {
            Stmt::Expr(e, semi) => {
                if last && (semi.is_none() || expr_returns(e)) {
                    let t = tail_expr(e)?;
                    out.push(Stmt::Expr(t, None));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                match e {
                    Expr::Return(_) => {
                        let t = tail_expr(e)?;
                        out.push(Stmt::Expr(t, None));
                        return Some(Block { brace_token: Default::default(), stmts: out });
                    }
                    Expr::If(f) if !crate::norm::has_ret(&f.cond) => {
                        let c = &f.cond;
                        let rest = &stmts[i + 1..];
                        let then_ret = ends_in_return(&f.then_branch);
                        let els = f.else_branch.as_ref().map(|(_, e)| as_block(e));
                        let else_ret = els.as_ref().map_or(false, ends_in_return);
                        let tb: Block;
                        let eb: Block;
                        if then_ret {
                            tb = unreturn(&f.then_branch.stmts)?;
                            let mut v = els.map(|b| fallthrough(&b)).unwrap_or_default();
                            v.extend(rest.iter().cloned());
                            eb = rest_of(&v)?;
                        } else if else_ret {
                            eb = unreturn(&els.unwrap().stmts)?;
                            let mut v = fallthrough(&f.then_branch);
                            v.extend(rest.iter().cloned());
                            tb = rest_of(&v)?;
                        } else {
                            return None;
                        }
                        let x: Expr = parse_quote!(if #c #tb else #eb);
                        out.push(Stmt::Expr(x, None));
                        return Some(Block { brace_token: Default::default(), stmts: out });
                    }
                    Expr::Match(m) if !crate::norm::has_ret(&m.expr) => {
                        let rest = &stmts[i + 1..];
                        let mut m2 = m.clone();
                        for a in &mut m2.arms {
                            let b = if expr_returns(&a.body) {
                                tail_expr(&a.body)?
                            } else {
                                let mut v = fallthrough(&as_block(&a.body));
                                v.extend(rest.iter().cloned());
                                let b = rest_of(&v)?;
                                parse_quote!(#b)
                            };
                            *a.body = b;
                            a.comma = Some(Default::default());
                        }
                        out.push(Stmt::Expr(Expr::Match(m2), None));
                        return Some(Block { brace_token: Default::default(), stmts: out });
                    }
                    _ => return None,
                }
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let rest = rest_of(&stmts[i + 1..])?;
                let pat = match &l.pat {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                if let Some((_, d)) = &init.diverge {
                    if crate::norm::has_ret(&init.expr) {
                        return None;
                    }
                    let e = &init.expr;
                    let d2 = tail_expr(d)?;
                    let x: Expr = parse_quote!(match #e { #pat => #rest, _ => #d2 });
                    out.push(Stmt::Expr(x, None));
                    return Some(Block { brace_token: Default::default(), stmts: out });
                }
                match &*init.expr {
                    Expr::Try(t) if !crate::norm::has_ret(&t.expr) => {
                        let e = &t.expr;
                        let x: Expr = parse_quote!(match #e { Ok(__t) => { let #pat = __t; #rest }, Err(__e) => Err(__e) });
                        out.push(Stmt::Expr(x, None));
                        return Some(Block { brace_token: Default::default(), stmts: out });
                    }
                    Expr::Match(m) if !crate::norm::has_ret(&m.expr) => {
                        let mut m2 = m.clone();
                        for a in &mut m2.arms {
                            let b: Expr = if expr_returns(&a.body) {
                                tail_expr(&a.body)?
                            } else if !crate::norm::has_ret(&a.body) {
                                let v = &a.body;
                                let lp = &l.pat;
                                parse_quote!({ let #lp = #v; #rest })
                            } else {
                                return None;
                            };
                            *a.body = b;
                            a.comma = Some(Default::default());
                        }
                        out.push(Stmt::Expr(Expr::Match(m2), None));
                        return Some(Block { brace_token: Default::default(), stmts: out });
                    }
                    _ => return None,
                }
            }
            _ => return None,
        }
    }
    Some(Block { brace_token: Default::default(), stmts: out })
}

/// statements of a block used as a statement (its value, if any, is ())
fn fallthrough(b: &Block) -> Vec<Stmt> {
    b.stmts
        .iter()
        .map(|s| match s {
            Stmt::Expr(e, None) => Stmt::Expr(e.clone(), Some(Default::default())),
            s => s.clone(),
        })
        .collect()
}

// ---------------------------------------------------------------- candidates

pub fn replace_ident(ts: TokenStream, from: &str, to: &TokenStream) -> TokenStream {
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Ident(i) if i == from => out.extend(to.clone()),
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), replace_ident(g.stream(), from, to));
                ng.set_span(g.span());
                out.extend(std::iter::once(TokenTree::Group(ng)));
            }
            other => out.extend(std::iter::once(other)),
        }
    }
    out
}

fn mentions(ts: TokenStream, name: &str) -> bool {
    ts.into_iter().any(|t| match t {
        TokenTree::Ident(i) => i == name,
        TokenTree::Group(g) => mentions(g.stream(), name),
        _ => false,
    })
}

/// paths relative to the module a body comes from
struct Absolute<'a> {
    module: &'a [String],
}
impl<'a> VisitMut for Absolute<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        let mut m: Vec<String> = self.module.to_vec();
        let mut i = 0;
        if segs.len() > 1 && segs[0].ident == "self" {
            i = 1;
        }
        while i < segs.len() && segs[i].ident == "super" {
            m.pop();
            i += 1;
        }
        if i == 0 || i >= segs.len() {
            return;
        }
        let span = segs[0].ident.span();
        let mut out: punctuated::Punctuated<PathSegment, Token![::]> = Default::default();
        out.push(PathSegment::from(Ident::new("crate", span)));
        for x in m {
            out.push(PathSegment::from(Ident::new(&x, span)));
        }
        out.extend(segs[i..].iter().cloned());
        p.segments = out;
    }
}

fn mk(key: String, name: &Ident, module: &[String], self_ty: Option<Type>, sig: &Signature, block: &Block) -> Cand {
    let mut why = None;
    let mut params = vec![];
    let mut receiver = None;
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                receiver = Some(r.clone());
            }
            FnArg::Typed(t) => {
                if let Type::Reference(r) = &*t.ty {
                    if r.mutability.is_some() && !matches!(&*t.pat, Pat::Ident(_)) {
                        why = Some("takes &mut".to_string());
                    }
                }
                params.push(((*t.pat).clone(), (*t.ty).clone()));
            }
        }
    }
    let mut abs = Absolute { module };
    for (p, t) in &mut params {
        abs.visit_pat_mut(p);
        abs.visit_type_mut(t);
    }
    let block = &{
        let mut b = block.clone();
        abs.visit_block_mut(&mut b);
        b
    };
    let generic: BTreeSet<String> = sig.generics.type_params().map(|t| t.ident.to_string()).collect();
    let mut body = block.clone();
    if !no_ret(block) {
        match unreturn(&block.stmts) {
            Some(b) if no_ret(&b) => body = b,
            _ => why = Some("early returns that cannot be restructured".to_string()),
        }
    }
    struct L(bool);
    impl<'a> syn::visit::Visit<'a> for L {
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {
            self.0 = true
        }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {
            self.0 = true
        }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {
            self.0 = true
        }
    }
    let mut l = L(false);
    syn::visit::Visit::visit_block(&mut l, &body);
    if l.0 {
        why = Some("contains a loop".to_string());
    }
    let bounds = format!("{} {}", sig.generics.params.to_token_stream(), sig.generics.where_clause.to_token_stream());
    Cand { key, name: name.to_string(), module: module.to_vec(), self_ty, receiver, params, generic, bounds, body, why }
}

/// a parameter of a type parameter (or `impl`) bounded by Fn / FnMut / FnOnce
fn is_fn_type(t: &Type, generic: &BTreeSet<String>, bounds: &str) -> bool {
    let t = match t {
        Type::Reference(r) => &*r.elem,
        t => t,
    };
    match t {
        Type::ImplTrait(i) => i.to_token_stream().to_string().contains("Fn"),
        Type::BareFn(_) => true,
        Type::Path(p) => p.path.get_ident().map_or(false, |i| {
            generic.contains(&i.to_string()) && ["Fn (", "FnMut (", "FnOnce ("].iter().any(|f| bounds.contains(&format!("{} : {}", i, f)))
        }),
        _ => false,
    }
}

fn is_mut_ref(t: &Type) -> bool {
    matches!(t, Type::Reference(r) if r.mutability.is_some())
}

struct MutParam<'a> {
    p: &'a str,
    place: &'a Expr,
}
impl<'a> MutParam<'a> {
    fn apply(b: &mut Block, p: &str, place: &Expr) -> bool {
        fn root(e: &Expr) -> Option<String> {
            match e {
                Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                Expr::Field(f) => root(&f.base),
                Expr::Paren(p) => root(&p.expr),
                _ => None,
            }
        }
        let r = match root(place) {
            Some(r) => r,
            None => return false,
        };
        struct B(Vec<String>);
        impl<'x> syn::visit::Visit<'x> for B {
            fn visit_pat_ident(&mut self, p: &'x PatIdent) {
                self.0.push(p.ident.to_string());
                syn::visit::visit_pat_ident(self, p);
            }
        }
        let mut v = B(vec![]);
        syn::visit::Visit::visit_block(&mut v, b);
        if v.0.iter().any(|x| x == p || *x == r) {
            return false;
        }
        MutParam { p, place }.visit_block_mut(b);
        true
    }
    fn is(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.is_ident(self.p),
            Expr::Paren(x) => self.is(&x.expr),
            _ => false,
        }
    }
}
impl<'a> VisitMut for MutParam<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let place = self.place;
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => *e = place.clone(),
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                *m.receiver = place.clone();
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            Expr::Field(f) if self.is(&f.base) => *f.base = place.clone(),
            Expr::Index(i) if self.is(&i.expr) => {
                *i.expr = place.clone();
                self.visit_expr_mut(&mut i.index);
            }
            _ if self.is(e) => *e = parse_quote!((&mut #place)),
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// functions mentioned: `.method`, `Type::function`, `function`
#[derive(Default)]
struct Calls {
    names: BTreeSet<String>,
    me: Option<String>,
}
impl<'ast> syn::visit::Visit<'ast> for Calls {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = v.len();
        if n >= 2 && p.qself.is_none() {
            let t = if v[n - 2] == "Self" { self.me.clone().unwrap_or_default() } else { v[n - 2].clone() };
            if t.chars().next().map_or(false, |c| c.is_lowercase()) {
                self.names.insert(v[n - 1].clone());
            } else {
                self.names.insert(format!("{}::{}", t, v[n - 1]));
            }
        } else if n == 1 {
            self.names.insert(v[0].clone());
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        self.names.insert(format!(".{}", m.method));
        syn::visit::visit_expr_method_call(self, m);
    }
}
impl Calls {
    fn of(b: &Block, me: Option<String>) -> BTreeSet<String> {
        let mut v = Calls { names: BTreeSet::new(), me };
        syn::visit::Visit::visit_block(&mut v, b);
        v.names
    }
    /// could `names` mention the function `key`?
    fn hit(names: &BTreeSet<String>, key: &str) -> bool {
        match key.rsplit_once("::") {
            None => names.contains(key),
            Some((t, f)) => names.contains(&format!(".{}", f)) || names.contains(&format!("{}::{}", t, f)),
        }
    }
}

const STD_METHODS: &[&str] = &[
    "get", "first", "last", "len", "map", "push", "pop", "iter", "into_iter", "clone", "unwrap", "is_some", "is_none", "is_ok", "is_err", "abs", "signum", "max", "min", "to_string", "as_str", "into", "from", "eq", "ne", "cmp", "add", "sub", "mul", "div", "neg", "rem", "insert", "remove", "contains", "take", "replace", "next", "ok", "err", "fmt", "and_then", "swap", "append", "extend", "is_empty", "reverse", "sqrt", "powi", "powf", "ln", "exp", "sin", "cos", "pow",
];

struct Inliner<'a> {
    cands: &'a HashMap<String, Vec<Cand>>,
    /// number of functions (any kind) with a given name
    counts: &'a HashMap<String, usize>,
    module: Vec<String>,
    used: Vec<(String, Vec<String>)>,
    fresh: usize,
    changed: bool,
    self_key: String,
    self_ty: Option<String>,
}

impl<'a> Inliner<'a> {
    fn build(&mut self, c: &Cand, recv: Option<&Expr>, args: &[&Expr]) -> Option<Expr> {
        if c.params.len() != args.len() || c.why.is_some() || c.key == self.self_key {
            return None;
        }
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        // what a `&mut` parameter points to takes the parameter's place
        let mut cbody = c.body.clone();
        if let (Some(r), Some(e)) = (&c.receiver, recv) {
            if r.reference.is_some() && r.mutability.is_some() {
                if !MutParam::apply(&mut cbody, "self", e) {
                    return None;
                }
            }
        }
        for ((p, t), a) in c.params.iter().zip(args) {
            if is_mut_ref(t) {
                let mut a = *a;
                while let Expr::Paren(p) = a {
                    a = &p.expr;
                }
                let place = match a {
                    Expr::Reference(r) if r.mutability.is_some() => &*r.expr,
                    _ => return None,
                };
                if !MutParam::apply(&mut cbody, &p.to_token_stream().to_string(), place) {
                    return None;
                }
            }
        }
        // closures and functions passed as arguments are applied where the helper calls them
        let mut applied: BTreeSet<usize> = BTreeSet::new();
        for (k, ((p, t), a)) in c.params.iter().zip(args).enumerate() {
            let a = match a {
                Expr::Reference(r) => &*r.expr,
                a => *a,
            };
            let callable = match a {
                Expr::Closure(x) => !crate::norm::has_ret(&x.body),
                Expr::Path(_) => matches!(t, Type::BareFn(_)) || is_fn_type(t, &c.generic, &c.bounds),
                _ => false,
            };
            if !callable {
                continue;
            }
            let name = match p {
                Pat::Ident(i) => i.ident.clone(),
                _ => return None,
            };
            match crate::pre::apply_callable(&cbody, &name, a, self.fresh) {
                Some(b) => {
                    cbody = b;
                    applied.insert(k);
                }
                None if matches!(a, Expr::Closure(_)) => return None,
                None => {}
            }
        }
        let mut body = cbody.to_token_stream();
        if let Some(st) = &c.self_ty {
            body = replace_ident(body, "Self", &st.to_token_stream());
        }
        self.fresh += 1;
        let n = self.fresh;
        if let Some(r) = &c.receiver {
            let e = recv?;
            let id = Ident::new(&format!("__s{}", n), Span::call_site());
            let st = c.self_ty.as_ref()?;
            if r.reference.is_some() && r.mutability.is_some() {
                // replaced above
            } else if r.reference.is_some() {
                pre.push(parse_quote!(let #id: &#st = &#e;));
            } else if r.mutability.is_some() {
                pre.push(parse_quote!(let mut #id: #st = #e;));
            } else {
                pre.push(parse_quote!(let #id: #st = #e;));
            }
            body = replace_ident(body, "self", &id.to_token_stream());
        }
        for (k, ((p, t), a)) in c.params.iter().zip(args).enumerate() {
            if is_mut_ref(t) || applied.contains(&k) {
                continue;
            }
            let id = Ident::new(&format!("__a{}_{}", n, k), Span::call_site());
            let mut tt = t.to_token_stream();
            if let Some(st) = &c.self_ty {
                tt = replace_ident(tt, "Self", &st.to_token_stream());
            }
            let ascribe = !c.generic.iter().any(|g| mentions(tt.clone(), g)) && !mentions(tt.clone(), "impl") && !tt.to_string().contains('\'');
            if ascribe {
                pre.push(parse_quote!(let #id: #tt = #a;));
            } else {
                pre.push(parse_quote!(let #id = #a;));
            }
            post.push(parse_quote!(let #p = #id;));
        }
        let b: Block = parse2(body).ok()?;
        let st = &b.stmts;
        let x: Expr = parse2(quote!({ #(#pre)* #(#post)* #(#st)* })).ok()?;
        self.used.push((c.key.clone(), c.module.clone()));
        self.changed = true;
        Some(x)
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.qself.is_some() {
                        return;
                    }
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap();
                    if let Some(cs) = self.cands.get(name) {
                        let args: Vec<&Expr> = c.args.iter().collect();
                        // free function, or Type::assoc
                        let pick: Vec<&Cand> = cs
                            .iter()
                            .filter(|c| match &c.self_ty {
                                None => {
                                    if segs.len() == 1 {
                                        true
                                    } else {
                                        segs[segs.len() - 2].chars().next().map_or(false, |ch| ch.is_lowercase())
                                    }
                                }
                                Some(t) => segs.len() >= 2 && (segs[segs.len() - 2] == ty_key(t) || (segs[segs.len() - 2] == "Self" && self.self_ty.as_ref() == Some(&ty_key(t)))),
                            })
                            .collect();
                        let chosen = if pick.len() == 1 {
                            Some(pick[0])
                        } else {
                            pick.iter().find(|c| c.module == self.module && segs.len() == 1).copied()
                        };
                        if let Some(cd) = chosen.cloned() {
                            let x = if cd.receiver.is_some() {
                                if args.is_empty() {
                                    None
                                } else {
                                    self.build(&cd, Some(args[0]), &args[1..])
                                }
                            } else {
                                self.build(&cd, None, &args)
                            };
                            if let Some(x) = x {
                                *e = x;
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let on_self = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let unique = !STD_METHODS.contains(&name.as_str()) && self.counts.get(&name).copied().unwrap_or(0) == 1;
                if let Some(cs) = self.cands.get(&name) {
                    let pick: Vec<&Cand> = cs.iter().filter(|c| c.receiver.is_some() && (unique || (on_self && self.self_ty.is_some() && c.self_ty.as_ref().map(ty_key) == self.self_ty))).collect();
                    if pick.len() == 1 {
                        let cd = pick[0].clone();
                        let args: Vec<&Expr> = m.args.iter().collect();
                        if let Some(x) = self.build(&cd, Some(&m.receiver), &args) {
                            *e = x;
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn collect(k: &Krate, ov: &Overlay, rep: &mut Report) -> (HashMap<String, Vec<Cand>>, HashMap<String, usize>) {
    let mut cands: HashMap<String, Vec<Cand>> = HashMap::new();
    let mut counts: HashMap<String, usize> = HashMap::new();
    visit_modules(&k.root, &mut |m| {
        for it in &m.items {
            match it {
                Item::Fn(f) => {
                    *counts.entry(f.sig.ident.to_string()).or_default() += 1;
                    let key = f.sig.ident.to_string();
                    match contract_fits(ov, &key, &f.sig) {
                        Ok(true) => {}
                        r => {
                            if let Err(e) = r {
                                rep.lost.insert(key.clone(), e);
                            }
                            let c = mk(key.clone(), &f.sig.ident, &m.path, None, &f.sig, &f.block);
                            cands.entry(key).or_default().push(c);
                        }
                    }
                }
                Item::Trait(t) => {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            *counts.entry(f.sig.ident.to_string()).or_default() += 1;
                        }
                    }
                }
                Item::Impl(im) => {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            *counts.entry(f.sig.ident.to_string()).or_default() += 1;
                            if im.trait_.is_none() {
                                let key = format!("{}::{}", impl_key(im), f.sig.ident);
                                match contract_fits(ov, &key, &f.sig) {
                                    Ok(true) => {}
                                    r => {
                                        if let Err(e) = r {
                                            rep.lost.insert(key.clone(), e);
                                        }
                                        let c = mk(key, &f.sig.ident, &m.path, Some((*im.self_ty).clone()), &f.sig, &f.block);
                                        cands.entry(f.sig.ident.to_string()).or_default().push(c);
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    });
    // recursion among candidates: mark
    let flat: Vec<(String, BTreeSet<String>)> = cands
        .values()
        .flatten()
        .map(|c| (c.key.clone(), Calls::of(&c.body, c.self_ty.as_ref().map(ty_key))))
        .collect();
    let next = |i: usize| -> Vec<usize> { (0..flat.len()).filter(|j| Calls::hit(&flat[i].1, &flat[*j].0)).collect() };
    for i in 0..flat.len() {
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        let mut todo = next(i);
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                todo.extend(next(x));
            }
        }
        if seen.contains(&i) {
            for c in cands.values_mut().flatten() {
                if c.key == flat[i].0 {
                    c.why = Some("recursive".to_string());
                }
            }
        }
    }
    (cands, counts)
}

fn use_names(u: &UseTree, prefix: &str, out: &mut Vec<(String, String)>) {
    match u {
        UseTree::Path(p) => use_names(&p.tree, &format!("{}{}::", prefix, p.ident), out),
        UseTree::Name(n) => {
            if n.ident == "self" {
                let full = prefix.trim_end_matches("::").to_string();
                let last = full.rsplit("::").next().unwrap().to_string();
                out.push((last, full))
            } else {
                out.push((n.ident.to_string(), format!("{}{}", prefix, n.ident)))
            }
        }
        UseTree::Rename(r) => out.push((r.rename.to_string(), format!("{}{} as {}", prefix, r.ident, r.rename))),
        UseTree::Glob(_) => out.push(("*".to_string(), format!("{}*", prefix))),
        UseTree::Group(g) => {
            for t in &g.items {
                use_names(t, prefix, out)
            }
        }
    }
}

pub fn run(k: &mut Krate, ov: &Overlay) -> Report {
    let mut rep = Report::default();
    let mut extra: BTreeMap<Vec<String>, BTreeSet<Vec<String>>> = BTreeMap::new();
    let mut all_inlined: BTreeSet<String> = BTreeSet::new();
    let mut cand_final: HashMap<String, Vec<Cand>> = HashMap::new();
    for _round in 0..10 {
        let (cands, counts) = collect(k, ov, &mut rep);
        let mut changed = false;
        let mut fresh = 1000 * (_round + 1);
        visit_modules_mut(&mut k.root, &mut |m| {
            let mut inl = Inliner { cands: &cands, counts: &counts, module: m.path.clone(), used: vec![], fresh, changed: false, self_key: String::new(), self_ty: None };
            for it in &mut m.items {
                match it {
                    Item::Fn(f) => {
                        inl.self_ty = None;
                        inl.self_key = f.sig.ident.to_string();
                        inl.visit_block_mut(&mut f.block)
                    }
                    Item::Impl(im) if !crate::norm::external_impl(im) => {
                        let ik = impl_key(im);
                        inl.self_ty = Some(ty_key(&im.self_ty));
                        for x in &mut im.items {
                            if let ImplItem::Fn(f) = x {
                                inl.self_key = format!("{}::{}", ik, f.sig.ident);
                                inl.visit_block_mut(&mut f.block)
                            }
                        }
                    }
                    _ => {}
                }
            }
            fresh = inl.fresh;
            changed |= inl.changed;
            for (key, from) in inl.used {
                all_inlined.insert(key);
                if from != m.path {
                    extra.entry(m.path.clone()).or_default().insert(from);
                }
            }
        });
        cand_final = cands;
        if !changed {
            break;
        }
    }
    // imports needed by bodies that moved to another module
    let mut imports: BTreeMap<Vec<String>, (BTreeSet<String>, Vec<(String, String)>)> = BTreeMap::new();
    visit_modules(&k.root, &mut |m| {
        let mut defined = BTreeSet::new();
        let mut uses = vec![];
        for it in &m.items {
            match it {
                Item::Use(u) => use_names(&u.tree, "", &mut uses),
                Item::Fn(f) => {
                    defined.insert(f.sig.ident.to_string());
                }
                Item::Struct(s) => {
                    defined.insert(s.ident.to_string());
                }
                Item::Enum(s) => {
                    defined.insert(s.ident.to_string());
                }
                Item::Trait(s) => {
                    defined.insert(s.ident.to_string());
                }
                _ => {}
            }
        }
        for c in &m.children {
            defined.insert(c.path.last().unwrap().clone());
        }
        for (n, _) in &uses {
            defined.insert(n.clone());
        }
        imports.insert(m.path.clone(), (defined, uses));
    });
    visit_modules_mut(&mut k.root, &mut |m| {
        if let Some(froms) = extra.get(&m.path) {
            let mut have = imports[&m.path].0.clone();
            for f in froms {
                let (_, uses) = &imports[f];
                let modp = if f.is_empty() { "crate".to_string() } else { format!("crate::{}", f.join("::")) };
                for (n, full) in uses {
                    if n == "*" || !have.contains(n) {
                        let abs = if let Some(r) = full.strip_prefix("self::") {
                            format!("{}::{}", modp, r)
                        } else if full.starts_with("super::") {
                            let mut p = f.clone();
                            let mut r = full.as_str();
                            while let Some(x) = r.strip_prefix("super::") {
                                p.pop();
                                r = x;
                            }
                            if p.is_empty() {
                                format!("crate::{}", r)
                            } else {
                                format!("crate::{}::{}", p.join("::"), r)
                            }
                        } else {
                            full.clone()
                        };
                        if let Ok(it) = parse_str::<Item>(&format!("use {};", abs)) {
                            m.items.push(it);
                            have.insert(n.clone());
                        }
                    }
                }
                if let Ok(it) = parse_str::<Item>(&format!("use {}::*;", modp)) {
                    m.items.push(it);
                }
            }
        }
    });
    for cs in cand_final.values() {
        for c in cs {
            match &c.why {
                Some(w) => {
                    rep.opaque.insert(c.key.clone(), w.clone());
                }
                None => {
                    rep.dropped.insert(c.key.clone());
                }
            }
        }
    }
    // a function that is still mentioned somewhere stays
    let mut still: BTreeSet<String> = BTreeSet::new();
    visit_modules(&k.root, &mut |m| {
        for it in &m.items {
            match it {
                Item::Fn(f) if !rep.dropped.contains(&f.sig.ident.to_string()) => {
                    still.extend(Calls::of(&f.block, None));
                }
                Item::Impl(im) => {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            let key = format!("{}::{}", impl_key(im), f.sig.ident);
                            if !rep.dropped.contains(&key) {
                                still.extend(Calls::of(&f.block, Some(ty_key(&im.self_ty))));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    });
    let mut keep = vec![];
    for key in &rep.dropped {
        if Calls::hit(&still, key) {
            keep.push(key.clone());
        }
    }
    for key in keep {
        // may be a function of the same name elsewhere; keeping it is harmless
        rep.dropped.remove(&key);
        rep.opaque.insert(key, "call sites that could not be inlined".to_string());
    }
    rep.inlined = all_inlined;
    let present: BTreeSet<String> = all_keys(k);
    for key in ov.fns.keys() {
        if !present.contains(key) {
            rep.lost.insert(key.clone(), "no such function".to_string());
        }
    }
    rep
}

pub fn all_keys(k: &Krate) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    visit_modules(&k.root, &mut |m| {
        for it in &m.items {
            match it {
                Item::Fn(f) => {
                    s.insert(f.sig.ident.to_string());
                }
                Item::Trait(t) => {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            s.insert(format!("trait {}::{}", t.ident, f.sig.ident));
                        }
                    }
                }
                Item::Impl(im) => {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            s.insert(format!("{}::{}", impl_key(im), f.sig.ident));
                        }
                    }
                }
                _ => {}
            }
        }
    });
    s
}
