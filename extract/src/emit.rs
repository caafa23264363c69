//! Printing the merged crate with contracts attached.
use crate::inline::{contract_fits, replace_ident, Report};
use crate::load::*;
use crate::overlay::{FnOv, Overlay};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Opts {
    pub strict: bool,
    pub noinline: bool,
    pub nonlinear: BTreeSet<String>,
    pub external: BTreeSet<String>,
    /// contracts to ignore (they no longer type check)
    pub nocontract: BTreeSet<String>,
    pub keep: BTreeSet<String>,
    /// functions whose termination is not proved
    pub nodec: BTreeSet<String>,
    /// "entry" or "exit": put an assertion of false there (it has to fail)
    pub vacuity: String,
}

struct Out {
    s: String,
    line: usize,
    indent: usize,
    bol: bool,
    loops: BTreeMap<usize, (String, String, String)>,
}

impl Out {
    fn raw(&mut self, t: &str) {
        self.line += t.matches('\n').count();
        self.s.push_str(t);
        self.bol = t.ends_with('\n');
    }
    fn nl(&mut self) {
        if !self.bol {
            self.s.push('\n');
            self.line += 1;
            self.bol = true;
        }
    }
    fn word(&mut self, w: &str, space: bool) {
        if self.bol {
            for _ in 0..self.indent {
                self.s.push_str("  ");
            }
            self.bol = false;
        }
        self.s.push_str(w);
        if space {
            self.s.push(' ');
        }
    }
    fn toks(&mut self, ts: TokenStream) {
        self.stream(ts, false);
    }
    fn stream(&mut self, ts: TokenStream, block: bool) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        let mut depth = 0i32;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) if id == "__vit" && i + 2 < v.len() => {
                    // __vit!(N, expr)
                    if let TokenTree::Group(g) = &v[i + 2] {
                        let mut it = g.stream().into_iter();
                        let n = it.next().map(|t| t.to_string()).unwrap_or_default();
                        it.next();
                        self.word(&format!("__it{}:", n), true);
                        let rest: TokenStream = it.collect();
                        self.stream(rest, false);
                        i += 3;
                        continue;
                    }
                }
                _ => {}
            }
            match &v[i] {
                TokenTree::Ident(id) => self.word(&id.to_string(), true),
                TokenTree::Literal(l) => self.word(&l.to_string(), true),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let lifetime = c == '\'';
                    self.word(&c.to_string(), !(p.spacing() == Spacing::Joint || lifetime));
                    if c == '<' {
                        depth += 1;
                    }
                    if c == '>' {
                        depth -= 1;
                    }
                    if c == ';' || (block && c == ',' && depth <= 0) {
                        self.nl();
                    }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut start = 0;
                        let mut end_txt = String::new();
                        if inner.len() >= 3 {
                            if let (TokenTree::Ident(id), TokenTree::Group(a)) = (&inner[0], &inner[2]) {
                                if id == "__vinv" {
                                    let n: usize = a.stream().to_string().trim().parse().unwrap_or(0);
                                    let (inv, body, end) = self.loops.get(&n).cloned().unwrap_or_default();
                                    self.nl();
                                    self.raw(&inv);
                                    self.nl();
                                    self.word("{", false);
                                    self.nl();
                                    self.raw(&body);
                                    self.nl();
                                    start = if inner.len() > 3 && inner[3].to_string() == ";" { 4 } else { 3 };
                                    end_txt = end;
                                }
                            }
                        }
                        if start == 0 {
                            self.word("{", false);
                            self.nl();
                        }
                        self.indent += 1;
                        self.stream(inner[start..].iter().cloned().collect(), true);
                        self.nl();
                        if !end_txt.is_empty() {
                            self.raw(&end_txt);
                            self.nl();
                        }
                        self.indent -= 1;
                        self.word("}", true);
                        let next_joins = match v.get(i + 1) {
                            Some(TokenTree::Punct(p)) => matches!(p.as_char(), '.' | ';' | ',' | '?' | '+' | '-' | '*' | '/' | '=' | '<' | '>' | '!' | '&' | '|'),
                            Some(TokenTree::Ident(id)) => id == "else" || id == "as",
                            _ => false,
                        };
                        if !next_joins {
                            self.nl();
                        }
                    }
                    d => {
                        let (o, c) = match d {
                            Delimiter::Parenthesis => ("(", ")"),
                            Delimiter::Bracket => ("[", "]"),
                            _ => ("", ""),
                        };
                        self.word(o, false);
                        self.stream(g.stream(), false);
                        self.word(c, true);
                    }
                },
            }
            i += 1;
        }
    }
}

struct Marker {
    n: usize,
    kinds: Vec<String>,
}

impl VisitMut for Marker {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mark = |n: usize, b: &mut Block| {
            b.stmts.insert(0, parse_quote!(__vinv!(#n);));
        };
        match e {
            Expr::ForLoop(f) => {
                let n = self.n;
                self.n += 1;
                self.kinds.push("for".into());
                let nn = syn::Index::from(n);
                let x = &f.expr;
                *f.expr = parse_quote!(__vit!(#nn, #x));
                visit_mut::visit_block_mut(self, &mut f.body);
                let b = &mut f.body;
                b.stmts.insert(0, parse_quote!(__vinv!(#nn);));
                return;
            }
            Expr::While(w) => {
                let n = self.n;
                self.n += 1;
                self.kinds.push("while".into());
                visit_mut::visit_block_mut(self, &mut w.body);
                let nn = syn::Index::from(n);
                let b = &mut w.body;
                b.stmts.insert(0, parse_quote!(__vinv!(#nn);));
                return;
            }
            Expr::Loop(w) => {
                let n = self.n;
                self.n += 1;
                self.kinds.push("loop".into());
                visit_mut::visit_block_mut(self, &mut w.body);
                let nn = syn::Index::from(n);
                let b = &mut w.body;
                b.stmts.insert(0, parse_quote!(__vinv!(#nn);));
                return;
            }
            _ => {}
        }
        let _ = mark;
        visit_mut::visit_expr_mut(self, e);
    }
}

/// first local whose initialiser contains `sub` (spaces ignored)
/// The local a contract refers to by what the code does with it:
///   letinit SUB - its initialiser (or type) contains SUB (the shortest such initialiser)
///                 (`SUB @N`: the N-th such local in source order instead)
///   recv NAME   - the receiver of a call of method NAME
///   counter     - the local tested by a `while` and assigned in its body
///   arg F.N     - the N-th argument of a call of the function F
///   assign SUB  - the target of an assignment whose right-hand side contains SUB (the shortest such)
fn find_role(b: &Block, kind: &str, sub: &str) -> Option<String> {
    let (sub, nth) = match sub.split_once('@') {
        Some((s, n)) => (s, n.parse::<usize>().ok()),
        None => (sub, None),
    };
    struct F<'a> {
        kind: &'a str,
        sub: &'a str,
        found: Option<(usize, String)>,
        nth: Option<usize>,
        seen: usize,
    }
    impl<'a> F<'a> {
        fn hit(&mut self, len: usize, name: String) {
            self.seen += 1;
            if let Some(n) = self.nth {
                if self.seen == n {
                    self.found = Some((0, name));
                }
                return;
            }
            if self.found.as_ref().map_or(true, |f| len < f.0) {
                self.found = Some((len, name));
            }
        }
    }
    fn ident(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Paren(p) => ident(&p.expr),
            _ => None,
        }
    }
    impl<'a, 'ast> syn::visit::Visit<'ast> for F<'a> {
        fn visit_local(&mut self, l: &'ast Local) {
            if self.kind == "letinit" {
                if let Some(i) = &l.init {
                    let t = i.expr.to_token_stream().to_string().replace(' ', "");
                    let (p, ty) = match &l.pat {
                        Pat::Type(t) => (&*t.pat, t.ty.to_token_stream().to_string().replace(' ', "")),
                        p => (p, String::new()),
                    };
                    if let (true, Pat::Ident(i)) = (t.contains(self.sub) || ty.contains(self.sub), p) {
                        self.hit(t.len(), i.ident.to_string());
                    }
                }
            }
            syn::visit::visit_local(self, l);
        }
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            if self.kind == "recv" && m.method == self.sub {
                if let Some(n) = ident(&m.receiver) {
                    self.hit(0, n);
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_while(&mut self, w: &'ast ExprWhile) {
            if self.kind == "counter" {
                struct A(Vec<String>);
                impl<'a> syn::visit::Visit<'a> for A {
                    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
                        self.0.extend(ident(&a.left));
                        syn::visit::visit_expr_assign(self, a);
                    }
                    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
                        use BinOp::*;
                        if matches!(b.op, AddAssign(_) | SubAssign(_)) {
                            self.0.extend(ident(&b.left));
                        }
                        syn::visit::visit_expr_binary(self, b);
                    }
                }
                let mut a = A(vec![]);
                syn::visit::Visit::visit_block(&mut a, &w.body);
                struct I<'x>(&'x [String], Option<String>);
                impl<'a, 'x> syn::visit::Visit<'a> for I<'x> {
                    fn visit_ident(&mut self, i: &'a Ident) {
                        if self.1.is_none() && self.0.contains(&i.to_string()) {
                            self.1 = Some(i.to_string());
                        }
                    }
                }
                let mut i = I(&a.0, None);
                syn::visit::Visit::visit_expr(&mut i, &w.cond);
                if let Some(n) = i.1 {
                    self.hit(0, n);
                }
            }
            syn::visit::visit_expr_while(self, w);
        }
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            if let ("arg", Some((f, n)), Expr::Path(p)) = (self.kind, self.sub.split_once('.'), &*c.func) {
                let arg = n.parse::<usize>().ok().and_then(|n| c.args.iter().nth(n)).and_then(ident);
                if let (true, Some(n)) = (p.path.segments.last().map_or(false, |x| x.ident == f), arg) {
                    self.hit(0, n);
                }
            }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
            if self.kind == "assign" {
                let t = a.right.to_token_stream().to_string().replace(' ', "");
                if let (true, Some(n)) = (t.contains(self.sub), ident(&a.left)) {
                    self.hit(t.len(), n);
                }
            }
            syn::visit::visit_expr_assign(self, a);
        }
    }
    let mut f = F { kind, sub, found: None, nth, seen: 0 };
    syn::visit::Visit::visit_block(&mut f, b);
    f.found.map(|x| x.1)
}

pub struct FnInfo {
    key: String,
    file: String,
    src_line: usize,
    start: usize,
    sig_end: usize,
    end: usize,
    contracted: bool,
    external: bool,
    loops: usize,
    bare_loops: usize,
    calls: Vec<String>,
}

struct Ctx<'a> {
    ov: &'a Overlay,
    opts: &'a Opts,
    report: &'a Report,
    infos: Vec<FnInfo>,
    lost_roles: Vec<String>,
    probed: Vec<String>,
    modules: Vec<String>,
    clones: BTreeMap<String, Option<String>>,
}

/// the bodies which `derive(Clone)` stands for: field by field (None: not written out, the derived function is trusted)
fn clone_bodies(root: &Module) -> BTreeMap<String, Option<String>> {
    const PRIM: [&str; 16] = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "f64", "bool", "char", "String"];
    struct T {
        copy: bool,
        clone: bool,
        count: usize,
        item: Item,
    }
    let mut ts: BTreeMap<String, T> = BTreeMap::new();
    visit_modules(root, &mut |m| {
        for it in &m.items {
            let (id, g, a) = match it {
                Item::Struct(s) => (&s.ident, &s.generics, &s.attrs),
                Item::Enum(s) => (&s.ident, &s.generics, &s.attrs),
                _ => continue,
            };
            let e = ts.entry(id.to_string()).or_insert(T { copy: has_derive(a, "Copy"), clone: has_derive(a, "Clone") && g.params.is_empty(), count: 0, item: it.clone() });
            e.count += 1;
        }
    });
    fn plain(t: &Type) -> Option<String> {
        match t {
            Type::Path(p) if p.qself.is_none() && p.path.segments.iter().all(|s| s.arguments.is_none()) => Some(p.path.segments.last()?.ident.to_string()),
            _ => None,
        }
    }
    fn elem(t: &Type) -> Option<String> {
        if let Type::Path(p) = t {
            let s = p.path.segments.last()?;
            if s.ident == "Vec" || s.ident == "VecDeque" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if let (1, Some(GenericArgument::Type(t))) = (a.args.len(), a.args.first()) {
                        return plain(t);
                    }
                }
            }
        }
        None
    }
    fn fields(it: &Item) -> Vec<&Type> {
        match it {
            Item::Struct(s) => s.fields.iter().map(|f| &f.ty).collect(),
            Item::Enum(s) => s.variants.iter().flat_map(|v| v.fields.iter()).map(|f| &f.ty).collect(),
            _ => vec![],
        }
    }
    let known = |n: &str| PRIM.contains(&n) || ts.get(n).map_or(false, |t| t.count == 1 && (t.copy || t.clone));
    // which types a type's clone goes through
    let reach = |from: &str| {
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut todo = vec![from.to_string()];
        while let Some(n) = todo.pop() {
            if let Some(t) = ts.get(&n) {
                for f in fields(&t.item) {
                    for x in plain(f).into_iter().chain(elem(f)) {
                        if !(n == from && x == from && elem(f).is_some()) && seen.insert(x.clone()) {
                            todo.push(x);
                        }
                    }
                }
            }
        }
        seen
    };
    let mut out = BTreeMap::new();
    for (n, t) in &ts {
        if !t.clone || t.copy {
            continue;
        }
        let ok = t.count == 1 && !reach(n).contains(n) && fields(&t.item).iter().all(|f| plain(f).or(elem(f)).map_or(false, |x| known(&x)));
        if !ok {
            out.insert(n.clone(), None);
            continue;
        }
        let mut rec = false;
        let mut one = |ty: &Type, place: &str| -> String {
            if let Some(x) = plain(ty) {
                if ts.get(&x).map_or(false, |t| t.copy) {
                    return if place.starts_with("self.") { place.to_string() } else { format!("*{}", place) };
                }
                return format!("{}.clone()", place);
            }
            rec |= elem(ty).as_deref() == Some(n.as_str());
            let deque = matches!(ty, Type::Path(t) if t.path.segments.last().map_or(false, |s| s.ident == "VecDeque"));
            format!("{{ let mut v_ = {new}::new(); let mut i_: usize = 0; while i_ < {p}.len() invariant v_@ == {p}@.subrange(0, i_ as int), i_ <= {p}.len(), decreases {p}.len() - i_ {{ v_.{push}({p}[i_].clone()); i_ += 1; proof {{ assert(v_@ =~= {p}@.subrange(0, i_ as int)); }} }} proof {{ assert(v_@ =~= {p}@); crate::vrt::{ax}(v_, {q}{p}); }} v_ }}", new = if deque { "std::collections::VecDeque" } else { "Vec" }, push = if deque { "push_back" } else { "push" }, ax = if deque { "ax_deque_ext" } else { "ax_vec_ext" }, p = place, q = if place.starts_with("self.") { "" } else { "*" })
        };
        let body = match &t.item {
            Item::Struct(s) => match &s.fields {
                Fields::Named(f) => format!("{} {{ {} }}", n, f.named.iter().map(|f| { let i = f.ident.as_ref().unwrap(); format!("{}: {}", i, one(&f.ty, &format!("self.{}", i))) }).collect::<Vec<_>>().join(", ")),
                Fields::Unnamed(f) => format!("{}({})", n, f.unnamed.iter().enumerate().map(|(i, f)| one(&f.ty, &format!("self.{}", i))).collect::<Vec<_>>().join(", ")),
                Fields::Unit => n.clone(),
            },
            Item::Enum(s) => {
                let mut arms = vec![];
                for v in &s.variants {
                    let names: Vec<String> = v.fields.iter().enumerate().map(|(i, f)| f.ident.as_ref().map_or(format!("f{}_", i), |x| x.to_string())).collect();
                    let vals: Vec<String> = v.fields.iter().zip(&names).map(|(f, x)| one(&f.ty, x)).collect();
                    arms.push(match &v.fields {
                        Fields::Unit => format!("{n}::{v} => {n}::{v}", n = n, v = v.ident),
                        Fields::Unnamed(_) => format!("{n}::{v}({}) => {n}::{v}({})", names.join(", "), vals.join(", "), n = n, v = v.ident),
                        Fields::Named(_) => format!("{n}::{v} {{ {} }} => {n}::{v} {{ {} }}", names.join(", "), names.iter().zip(&vals).map(|(a, b)| format!("{}: {}", a, b)).collect::<Vec<_>>().join(", "), n = n, v = v.ident),
                    });
                }
                if arms.is_empty() {
                    out.insert(n.clone(), None);
                    continue;
                }
                format!("match self {{ {} }}", arms.join(", "))
            }
            _ => continue,
        };
        out.insert(n.clone(), Some(format!("{}{{ {} }}", if rec { "decreases self,\n" } else { "" }, body)));
    }
    out
}

fn keep_derive(attrs: &[Attribute], is_copy: bool) -> TokenStream {
    let mut names = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(i) = m.path.segments.last() {
                    names.push(i.ident.to_string());
                }
                Ok(())
            });
        }
    }
    let mut out: Vec<Ident> = vec![];
    let id = |s: &str| Ident::new(s, proc_macro2::Span::call_site());
    for n in &names {
        match n.as_str() {
            "Debug" => out.push(id("Debug")),
            "Copy" => out.push(id("Copy")),
            "Clone" if is_copy => out.push(id("Clone")),
            _ => {}
        }
    }
    if out.is_empty() {
        quote!()
    } else {
        quote!(#[derive(#(#out),*)])
    }
}

fn has_derive(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == what))
}

struct CallNames(BTreeSet<String>);
impl<'ast> syn::visit::Visit<'ast> for CallNames {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = v.len();
        self.0.insert(if n >= 2 { format!("{}::{}", v[n - 2], v[n - 1]) } else { v[0].clone() });
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        self.0.insert("|closure|".to_string());
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        self.0.insert(format!(".{}", m.method));
        syn::visit::visit_expr_method_call(self, m);
    }
}

impl<'a> Ctx<'a> {
    fn emit_fn(&mut self, o: &mut Out, key: &str, file: &str, sig: &Signature, block: Option<&Block>, vis: bool, in_trait_impl: bool) {
        let src_line = sig.ident.span().start().line;
        let mut sig = sig.clone();
        let ov: Option<&FnOv> = if self.opts.nocontract.contains(key) {
            None
        } else {
            match contract_fits(self.ov, key, &sig) {
                Ok(true) => self.ov.fns.get(key),
                _ => None,
            }
        };
        let mut pre: Vec<Stmt> = vec![];
        let mut block = block.cloned();
        let n = std::cell::Cell::new(0usize);
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    if r.reference.is_none() && r.mutability.is_some() {
                        r.mutability = None;
                        if let Some(b) = &mut block {
                            let t = replace_ident(b.to_token_stream(), "self", &quote!(__slf));
                            if let Ok(nb) = parse2::<Block>(t) {
                                *b = nb;
                            }
                            pre.push(parse_quote!(let mut __slf = self;));
                        }
                    }
                }
                FnArg::Typed(t) => {
                    let i = n.get();
                    n.set(i + 1);
                    let canon = ov.and_then(|f| f.params.as_ref()).and_then(|p| p.get(i)).map(|s| s.split(':').next().unwrap().trim().to_string());
                    let (name, is_mut, simple) = match &*t.pat {
                        Pat::Ident(pi) => (pi.ident.to_string(), pi.mutability.is_some(), true),
                        _ => (format!("__p{}", i), false, false),
                    };
                    let cn = canon.unwrap_or_else(|| name.clone());
                    if cn != name || is_mut || !simple {
                        let p = (*t.pat).clone();
                        let ci = Ident::new(&cn, proc_macro2::Span::call_site());
                        if block.is_some() && !matches!(p, Pat::Wild(_)) {
                            pre.push(parse_quote!(let #p = #ci;));
                        }
                        *t.pat = parse_quote!(#ci);
                    }
                }
            }
        }
        let roles: Vec<(String, String)> = match (ov, &block) {
            (Some(f), Some(b)) => f
                .roles
                .iter()
                .filter_map(|(nm, alts)| match alts.iter().find_map(|(k, sub)| find_role(b, k, sub)) {
                    Some(l) => Some((nm.trim_end_matches('?').to_string(), l)),
                    None => {
                        if !nm.ends_with('?') {
                            self.lost_roles.push(format!("{}:{}", key, nm));
                        }
                        None
                    }
                })
                .collect(),
            _ => vec![],
        };
        let mut lost_role = false;
        let mut sub = |t: &str| -> String {
            let mut t = t.to_string();
            for (nm, l) in &roles {
                t = t.replace(&format!("${{{}}}", nm), l);
            }
            if t.contains("${") {
                lost_role = true;
                return String::new();
            }
            t
        };
        // loops
        let mut nloops = 0;
        let mut bare = 0;
        o.loops.clear();
        if let Some(b) = &mut block {
            let mut m = Marker { n: 0, kinds: vec![] };
            m.visit_block_mut(b);
            nloops = m.n;
            for (i, k) in m.kinds.iter().enumerate() {
                let l = ov.and_then(|f| f.loops.get(&i)).and_then(|v| v.iter().find(|l| l.kind.trim_end_matches('?') == k || l.kind.trim_end_matches('?') == "any"));
                match l {
                    Some(l) => {
                        let t = (sub(&l.inv).replace("$it", &format!("__it{}", i)), sub(&l.body).replace("$it", &format!("__it{}", i)), sub(&l.end).replace("$it", &format!("__it{}", i)));
                        if t.0.is_empty() {
                            bare += 1;
                        }
                        o.loops.insert(i, t);
                    }
                    None => {
                        bare += 1;
                        o.loops.insert(i, Default::default());
                    }
                }
            }
        }
        // annotations written for another number of loops say nothing about these
        // (a loop marked with `?` may be a recursion instead)
        let (least, most) = ov.map_or((0, 0), |f| (f.loops.values().filter(|v| !v.iter().all(|l| l.kind.ends_with('?'))).count(), f.loops.len()));
        if nloops < least || nloops > most {
            bare = bare.max(1);
        }
        o.nl();
        let start = o.line;
        let external = self.opts.external.contains(key) || ov.map_or(false, |f| f.external);
        if block.is_some() {
            if external {
                o.raw("#[verifier::external_body]\n");
            } else {
                if self.opts.nodec.contains(key) {
                    o.raw("#[verifier::exec_allows_no_decreases_clause]\n");
                }
                if nloops > 0 {
                    o.raw("#[verifier::loop_isolation(false)]\n");
                }
                if self.opts.nonlinear.contains(key) {
                    o.raw("#[verifier::nonlinear]\n");
                }
            }
        }
        if let Some(f) = ov {
            o.raw(&f.attrs);
            o.nl();
        }
        if vis && !in_trait_impl {
            o.word("pub", true);
        }
        let ret = ov.map(|f| f.ret.clone()).unwrap_or_else(|| "res".into());
        let out_ty = sig.output.clone();
        let wh = sig.generics.where_clause.take();
        let mut s2 = sig.clone();
        s2.output = ReturnType::Default;
        o.toks(s2.to_token_stream());
        if let ReturnType::Type(_, t) = &out_ty {
            o.word(&format!("-> ({}:", ret), true);
            o.toks(t.to_token_stream());
            o.word(")", true);
        }
        if let Some(w) = wh {
            o.toks(w.to_token_stream());
        }
        o.nl();
        if let Some(f) = ov {
            let c = sub(&f.contract);
            o.raw(&c);
            o.nl();
        }
        let sig_end = o.line;
        let mut calls = vec![];
        match block {
            None => {
                o.word(";", false);
                o.nl();
            }
            Some(b) => {
                let mut cn = CallNames(BTreeSet::new());
                syn::visit::Visit::visit_block(&mut cn, &b);
                calls = cn.0.into_iter().collect();
                o.word("{", false);
                o.nl();
                o.indent += 1;
                for s in &pre {
                    o.toks(s.to_token_stream());
                    o.nl();
                }
                if let Some(f) = ov {
                    if !external {
                        let e = sub(&f.entry);
                        o.raw(&e);
                        o.nl();
                    }
                }
                let mut exit = ov.map(|f| sub(&f.exit)).unwrap_or_default();
                if !external && self.opts.vacuity == "entry" {
                    o.raw("proof { assert(false); }\n");
                    self.probed.push(key.to_string());
                }
                if !external && self.opts.vacuity == "exit" && matches!(out_ty, ReturnType::Type(..)) && crate::inline::unreturn_pub(&b.stmts).is_some() {
                    exit.push_str("\nproof { assert(false); }\n");
                    self.probed.push(key.to_string());
                }
                if !exit.trim().is_empty() && !external {
                    match crate::inline::unreturn_pub(&b.stmts) {
                        Some(nb) => {
                            if let ReturnType::Type(_, t) = &out_ty {
                                o.word(&format!("let {}:", ret), true);
                                o.toks(t.to_token_stream());
                                o.word("=", true);
                                o.toks(nb.to_token_stream());
                                o.word(";", true);
                                o.nl();
                                o.raw(&exit);
                                o.nl();
                                o.word(&ret, true);
                                o.nl();
                            }
                        }
                        None => {
                            for s in &b.stmts {
                                o.toks(s.to_token_stream());
                                o.nl();
                            }
                        }
                    }
                } else {
                    for s in &b.stmts {
                        o.stream(s.to_token_stream(), true);
                        o.nl();
                    }
                }
                o.indent -= 1;
                o.word("}", true);
                o.nl();
            }
        }
        let contracted = ov.is_some();
        self.infos.push(FnInfo { key: key.to_string(), file: file.to_string(), src_line, start, sig_end, end: o.line, contracted, external, loops: nloops, bare_loops: bare, calls });
        if lost_role {
            self.lost_roles.push(key.to_string());
        }
    }

    fn emit_item(&mut self, o: &mut Out, m: &Module, it: &Item) {
        match it {
            Item::Use(u) => {
                let t = u.tree.to_token_stream().to_string().replace(' ', "");
                let mut u = u.clone();
                u.attrs.clear();
                if !matches!(u.vis, Visibility::Inherited) {
                    u.vis = parse_quote!(pub);
                }
                let _ = t;
                let mods = &self.modules;
                let rep = self.report;
                let keep = &self.opts.keep;
                let dropped = |full: &str| {
                    let last = full.rsplit("::").next().unwrap();
                    let stripped = full.trim_start_matches("crate::").trim_start_matches("self::").trim_start_matches("super::");
                    rep.dropped.contains(last) && !keep.contains(last) && !mods.iter().any(|m| m == stripped || m.ends_with(&format!("::{}", stripped)))
                };
                if let Some(tree) = clean_use(&u.tree, &dropped) {
                    u.tree = tree;
                    o.toks(u.to_token_stream());
                    o.nl();
                }
            }
            Item::Fn(f) => {
                let key = f.sig.ident.to_string();
                if self.report.dropped.contains(&key) && !self.opts.keep.contains(&key) {
                    return;
                }
                self.emit_fn(o, &key, &m.file, &f.sig, Some(&f.block), true, false);
            }
            Item::Struct(s) => {
                let mut s = s.clone();
                let copy = has_derive(&s.attrs, "Copy");
                let clone = has_derive(&s.attrs, "Clone");
                let d = keep_derive(&s.attrs, copy);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                    f.attrs.clear();
                }
                o.nl();
                o.toks(d);
                o.nl();
                o.toks(s.to_token_stream());
                o.nl();
                if clone && !copy {
                    self.clone_impl(o, &m.file, &s.ident, &s.generics);
                }
            }
            Item::Enum(s) => {
                let mut s = s.clone();
                let copy = has_derive(&s.attrs, "Copy");
                let clone = has_derive(&s.attrs, "Clone");
                let eq = has_derive(&s.attrs, "PartialEq");
                let fieldless = s.variants.iter().all(|v| v.fields.is_empty());
                let d = keep_derive(&s.attrs, copy);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                }
                o.nl();
                o.toks(d);
                o.nl();
                o.toks(s.to_token_stream());
                o.nl();
                if eq && fieldless {
                    let id = &s.ident;
                    o.raw(&format!("impl PartialEq for {id} {{\nfn eq(&self, o: &{id}) -> (b: bool) ensures b == (*self == *o) {{ match (self, o) {{ {} _ => false }} }}\n}}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {id} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{id}) -> bool {{ *self == *o }} }}\n", s.variants.iter().map(|v| format!("({id}::{v}, {id}::{v}) => true, ", v = v.ident)).collect::<String>()));
                }
                if clone && !copy {
                    self.clone_impl(o, &m.file, &s.ident, &s.generics);
                }
            }
            Item::Trait(t) => {
                let mut head = t.clone();
                head.items.clear();
                head.attrs.clear();
                head.vis = parse_quote!(pub);
                let ht = head.to_token_stream();
                let v: Vec<TokenTree> = ht.into_iter().collect();
                o.nl();
                o.toks(v[..v.len() - 1].iter().cloned().collect());
                o.word("{", false);
                o.nl();
                let name = t.ident.to_string();
                if let Some(x) = self.ov.in_items.get(&format!("trait {}", name)) {
                    o.raw(x);
                    o.nl();
                }
                for x in &t.items {
                    match x {
                        TraitItem::Fn(f) => self.emit_fn(o, &format!("trait {}::{}", name, f.sig.ident), &m.file, &f.sig, f.default.as_ref(), false, true),
                        other => {
                            o.toks(other.to_token_stream());
                            o.nl();
                        }
                    }
                }
                o.word("}", true);
                o.nl();
            }
            Item::Impl(im) => {
                let ext = crate::norm::external_impl(im);
                let ik = impl_key(im);
                if let Some((_, p, _)) = &im.trait_ {
                    if self.ov.drop_impls.contains(&trait_key(p)) || self.ov.drop_impls.contains(&ik) {
                        return;
                    }
                }
                o.nl();
                if ext {
                    let mut im = im.clone();
                    im.attrs.clear();
                    o.raw("#[verifier::external]\n");
                    o.toks(im.to_token_stream());
                    o.nl();
                    return;
                }
                let mut head = im.clone();
                head.items.clear();
                head.attrs.clear();
                if let Some((_, p, _)) = &mut head.trait_ {
                    let f = p.segments.first().unwrap().ident.to_string();
                    if (f == "std" || f == "core") && p.segments.len() > 2 {
                        let l = p.segments.last().unwrap().clone();
                        *p = parse_quote!(crate::vrt::#l);
                    }
                }
                let ht = head.to_token_stream();
                let v: Vec<TokenTree> = ht.into_iter().collect();
                o.toks(v[..v.len() - 1].iter().cloned().collect());
                o.word("{", false);
                o.nl();
                if let Some(x) = self.ov.in_items.get(&format!("impl {}", ik)) {
                    o.raw(x);
                    o.nl();
                }
                let is_show = im.trait_.as_ref().map_or(false, |(_, p, _)| trait_key(p) == "VShow");
                if is_show && !self.ov.in_items.contains_key(&format!("impl {}", ik)) {
                    o.raw("open spec fn show_req(&self) -> bool { true }\nopen spec fn show_ens(&self, s: Seq<char>) -> bool { true }\n");
                }
                if let Some((_, p, _)) = &im.trait_ {
                    if !self.ov.in_items.contains_key(&format!("impl {}", ik)) {
                        let tn = p.segments.last().unwrap().ident.to_string();
                        let arg = match &p.segments.last().unwrap().arguments {
                            PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| if let GenericArgument::Type(t) = x { Some(t.to_token_stream().to_string()) } else { None }),
                            _ => None,
                        };
                        match tn.as_str() {
                            "Add" | "Sub" | "Mul" | "Div" | "Rem" => o.raw(&format!("open spec fn {}_ok(self, r: {}) -> bool {{ true }}\n", tn.to_lowercase(), arg.unwrap_or("Self".into()))),
                            "Neg" => o.raw("open spec fn neg_ok(self) -> bool { true }\n"),
                            "From" => o.raw(&format!("open spec fn from_ens(v: {}, r: Self) -> bool {{ true }}\n", arg.unwrap_or_default())),
                            _ => {
                                if let Some(x) = self.ov.in_items.get(&format!("default {}", tn)) {
                                    o.raw(x);
                                    o.nl();
                                }
                            }
                        }
                    }
                }
                for x in &im.items {
                    match x {
                        ImplItem::Fn(f) => {
                            let key = format!("{}::{}", ik, f.sig.ident);
                            if self.report.dropped.contains(&key) && !self.opts.keep.contains(&key) {
                                continue;
                            }
                            self.emit_fn(o, &key, &m.file, &f.sig, Some(&f.block), true, im.trait_.is_some());
                        }
                        other => {
                            o.toks(other.to_token_stream());
                            o.nl();
                        }
                    }
                }
                o.word("}", true);
                o.nl();
                if is_show {
                    let t = im.self_ty.to_token_stream().to_string();
                    o.raw(&format!("impl crate::vrt::VToString for {} {{\nfn to_string(&self) -> (r: String) {{ crate::vrt::VShow::vshow(self) }}\n}}\n", t));
                }
            }
            Item::Static(s) => {
                let mut s = s.clone();
                s.vis = parse_quote!(pub);
                s.attrs.clear();
                let t = s.to_token_stream().to_string();
                o.nl();
                o.raw(&t.replacen("pub static", "pub exec static", 1));
                o.nl();
            }
            Item::Const(c) => {
                let mut c = c.clone();
                c.vis = parse_quote!(pub);
                c.attrs.clear();
                o.nl();
                o.toks(c.to_token_stream());
                o.nl();
            }
            Item::Type(t) => {
                let mut t = t.clone();
                t.vis = parse_quote!(pub);
                t.attrs.clear();
                o.nl();
                o.toks(t.to_token_stream());
                o.nl();
            }
            other => {
                o.nl();
                o.toks(other.to_token_stream());
                o.nl();
            }
        }
    }

    fn clone_impl(&mut self, o: &mut Out, file: &str, id: &Ident, g: &Generics) {
        if !g.params.is_empty() {
            return;
        }
        let key = format!("<{} as Clone>::clone", id);
        o.nl();
        o.raw(&format!("impl Clone for {} {{\n", id));
        let start = o.line;
        let external = self.opts.external.contains(&key);
        match self.clones.get(&id.to_string()).cloned().flatten() {
            Some(b) if !external => o.raw(&format!("fn clone(&self) -> (r: Self) ensures r == *self,\n{}\n", b)),
            _ => o.raw("#[verifier::external_body]\nfn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }\n"),
        }
        let end = o.line - 1;
        o.raw("}\n");
        self.infos.push(FnInfo { key, file: file.to_string(), src_line: id.span().start().line, start, sig_end: start, end, contracted: true, external, loops: 0, bare_loops: 0, calls: vec![] });
    }

    fn emit_module(&mut self, o: &mut Out, m: &Module) {
        if !m.path.is_empty() {
            o.nl();
            o.raw(&format!("pub mod {} {{\n", m.path.last().unwrap()));
            o.raw("use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vrt::*;\n#[allow(unused_imports)] use crate::spec::*;\nbroadcast use crate::vrt::string_to_string;\n");
        } else {
            o.raw("use crate::vrt::*;\nuse crate::spec::*;\nbroadcast use crate::vrt::string_to_string;\n");
        }
        let mut uses_done: BTreeSet<String> = BTreeSet::new();
        for it in &m.items {
            if let Item::Use(_) = it {
                let t = it.to_token_stream().to_string();
                if !uses_done.insert(t) {
                    continue;
                }
            }
            self.emit_item(o, m, it);
        }
        for c in &m.children {
            self.emit_module(o, c);
        }
        if !m.path.is_empty() {
            o.nl();
            o.raw("}\n");
        }
    }
}

/// std operator and formatting traits are replaced by the prelude's
fn clean_use(t: &UseTree, dropped: &dyn Fn(&str) -> bool) -> Option<UseTree> {
    fn go(t: &UseTree, prefix: &str, dropped: &dyn Fn(&str) -> bool) -> Option<UseTree> {
        match t {
            UseTree::Path(p) => {
                let np = format!("{}{}::", prefix, p.ident);
                let sub = go(&p.tree, &np, dropped)?;
                let mut p = p.clone();
                *p.tree = sub;
                Some(UseTree::Path(p))
            }
            UseTree::Group(g) => {
                let mut g2 = g.clone();
                g2.items.clear();
                for x in &g.items {
                    if let Some(y) = go(x, prefix, dropped) {
                        g2.items.push(y);
                    }
                }
                if g2.items.is_empty() {
                    None
                } else {
                    Some(UseTree::Group(g2))
                }
            }
            UseTree::Name(n) => {
                let full = format!("{}{}", prefix, n.ident);
                if full.starts_with("std::ops::") || full.starts_with("core::ops::") || full.contains("f64::consts::") || full == "std::vec" || full == "std::vec::self" || dropped(&full) {
                    None
                } else {
                    Some(t.clone())
                }
            }
            UseTree::Glob(_) => {
                if prefix.starts_with("std::ops::") || prefix.contains("f64::consts::") {
                    None
                } else {
                    Some(t.clone())
                }
            }
            UseTree::Rename(_) => Some(t.clone()),
        }
    }
    go(t, "", dropped)
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn emit(k: &Krate, ov: &Overlay, opts: &Opts, report: &Report) -> (String, String) {
    let mut o = Out { s: String::new(), line: 1, indent: 0, bol: true, loops: BTreeMap::new() };
    let mut cx = Ctx { ov, opts, report, infos: vec![], lost_roles: vec![], probed: vec![], modules: vec![], clones: clone_bodies(&k.root) };
    visit_modules(&k.root, &mut |m| cx.modules.push(m.path.join("::")));
    o.raw("#![allow(unused, non_snake_case, non_camel_case_types, dead_code, ambiguous_glob_reexports, ambiguous_import_visibilities)]\nuse vstd::prelude::*;\nverus! {\n");
    let mut types = vec![];
    visit_modules(&k.root, &mut |m| {
        for it in &m.items {
            let n = match it {
                Item::Struct(s) => s.ident.to_string(),
                Item::Enum(s) => s.ident.to_string(),
                Item::Trait(s) => s.ident.to_string(),
                _ => continue,
            };
            let mut p = vec!["crate".to_string()];
            p.extend(m.path.iter().cloned());
            p.push(n);
            types.push(p.join("::"));
        }
    });
    o.raw("pub mod vrt {\nuse vstd::prelude::*;\n");
    let pstart = o.line;
    o.raw(&ov.prelude);
    o.raw(if opts.strict { &ov.prelude_strict } else { &ov.prelude_partial });
    o.raw("}\n");
    let pend = o.line;
    o.raw("pub mod spec {\nuse vstd::prelude::*;\nuse crate::vrt::*;\n");
    for t in &types {
        o.raw(&format!("pub use {};\n", t));
    }
    let mut raws = vec![];
    // `//@ raw NAME` goes into a module of its own (verified in parallel); nothing in `spec` may refer to it
    let mut mods: Vec<&str> = vec![""];
    for (_, _, m) in &ov.raw {
        if !mods.contains(&m.as_str()) {
            mods.push(m);
        }
    }
    for m in mods {
        if !m.is_empty() {
            o.raw(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::vrt::*;\nuse crate::spec::*;\n", m));
        }
        for (name, txt, _) in ov.raw.iter().filter(|r| r.2 == m) {
            let s = o.line;
            o.raw(txt);
            o.nl();
            raws.push((name.clone(), s, o.line));
        }
        o.raw("}\n");
    }
    cx.emit_module(&mut o, &k.root);
    o.raw("\n}\nfn main() {}\n");
    let mut j = String::from("{\n\"fns\": [\n");
    for (i, f) in cx.infos.iter().enumerate() {
        let calls: Vec<String> = f.calls.iter().map(|c| jstr(c)).collect();
        j.push_str(&format!(
            "{{\"key\": {}, \"file\": {}, \"src_line\": {}, \"start\": {}, \"sig_end\": {}, \"end\": {}, \"contracted\": {}, \"external\": {}, \"loops\": {}, \"bare_loops\": {}, \"calls\": [{}]}}{}\n",
            jstr(&f.key), jstr(&f.file), f.src_line, f.start, f.sig_end, f.end, f.contracted, f.external, f.loops, f.bare_loops, calls.join(","),
            if i + 1 == cx.infos.len() { "" } else { "," }
        ));
    }
    j.push_str("],\n\"raw\": [\n");
    for (i, (n, s, e)) in raws.iter().enumerate() {
        j.push_str(&format!("{{\"at\": {}, \"start\": {}, \"end\": {}}}{}\n", jstr(n), s, e, if i + 1 == raws.len() { "" } else { "," }));
    }
    let set = |s: &BTreeSet<String>| s.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",");
    let mp = |s: &BTreeMap<String, String>| s.iter().map(|(a, b)| format!("{}: {}", jstr(a), jstr(b))).collect::<Vec<_>>().join(",");
    j.push_str(&format!(
        "],\n\"prelude\": [{}, {}],\n\"inlined\": [{}],\n\"dropped\": [{}],\n\"opaque\": {{{}}},\n\"lost\": {{{}}},\n\"lost_roles\": [{}],\n\"probed\": [{}],\n\"display\": {{{}}}\n}}\n",
        pstart,
        pend,
        set(&report.inlined),
        set(&report.dropped),
        mp(&report.opaque),
        mp(&report.lost),
        cx.lost_roles.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
        cx.probed.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
        mp(&report.display),
    ));
    let _ = proc_macro2::Span::call_site().span();
    (o.s, j)
}
