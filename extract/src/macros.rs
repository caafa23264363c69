//! Expansion of the crate's own `macro_rules!` macros: what reaches the verifier
//! is the code the invocation stands for.  (Hygiene of local names is not modelled:
//! a macro whose names clash with those at the call site may be misread only where
//! rustc would keep them apart.)
use crate::load::*;
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use syn::parse::{ParseStream, Parser};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug)]
enum M {
    Tok(String),
    Group(Delimiter, Vec<M>),
    Var(String, String),
    Rep(Vec<M>, Option<String>, char),
}

#[derive(Clone, Debug)]
enum B {
    One(TokenStream),
    Many(Vec<B>),
}
type Map = BTreeMap<String, B>;

struct Rule {
    pat: Vec<M>,
    body: TokenStream,
}

fn pattern(ts: TokenStream) -> Option<Vec<M>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1)? {
                TokenTree::Ident(n) => {
                    if v.get(i + 2)?.to_string() != ":" {
                        return None;
                    }
                    out.push(M::Var(n.to_string(), v.get(i + 3)?.to_string()));
                    i += 4;
                }
                TokenTree::Group(g) => {
                    let inner = pattern(g.stream())?;
                    let mut j = i + 2;
                    let is_op = |t: &TokenTree| matches!(t.to_string().as_str(), "*" | "+" | "?");
                    let mut sep = None;
                    if !is_op(v.get(j)?) {
                        sep = Some(v[j].to_string());
                        j += 1;
                    }
                    let op = v.get(j)?.to_string().chars().next()?;
                    if !matches!(op, '*' | '+' | '?') {
                        return None;
                    }
                    out.push(M::Rep(inner, sep, op));
                    i = j + 1;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                out.push(M::Group(g.delimiter(), pattern(g.stream())?));
                i += 1;
            }
            t => {
                out.push(M::Tok(t.to_string()));
                i += 1;
            }
        }
    }
    Some(out)
}

fn names(p: &[M], out: &mut Vec<String>) {
    for m in p {
        match m {
            M::Var(n, _) => out.push(n.clone()),
            M::Rep(x, _, _) | M::Group(_, x) => names(x, out),
            M::Tok(_) => {}
        }
    }
}

fn fragment(kind: &str, input: ParseStream) -> Result<TokenStream> {
    Ok(match kind {
        "ty" => input.parse::<Type>()?.to_token_stream(),
        "ident" => {
            let t: TokenTree = input.parse()?;
            match t {
                TokenTree::Ident(i) => i.to_token_stream(),
                _ => return Err(input.error("ident")),
            }
        }
        "expr" => {
            let e = input.parse::<Expr>()?;
            match e {
                Expr::Path(_) | Expr::Lit(_) | Expr::Paren(_) => e.to_token_stream(),
                e => quote!((#e)),
            }
        }
        "literal" => {
            if input.peek(Token![-]) {
                let m: Token![-] = input.parse()?;
                let l: Lit = input.parse()?;
                quote!(#m #l)
            } else {
                input.parse::<Lit>()?.to_token_stream()
            }
        }
        "path" => input.parse::<syn::Path>()?.to_token_stream(),
        "block" => input.parse::<Block>()?.to_token_stream(),
        "pat" => Pat::parse_multi_with_leading_vert(input)?.to_token_stream(),
        "tt" => input.parse::<TokenTree>()?.to_token_stream(),
        "item" => input.parse::<Item>()?.to_token_stream(),
        "vis" => input.parse::<Visibility>()?.to_token_stream(),
        "lifetime" => input.parse::<Lifetime>()?.to_token_stream(),
        _ => return Err(input.error("fragment")),
    })
}

fn matches(p: &[M], input: ParseStream, out: &mut Map) -> Result<()> {
    for m in p {
        match m {
            M::Tok(s) => {
                let t: TokenTree = input.parse()?;
                if t.to_string() != *s {
                    return Err(input.error("token"));
                }
            }
            M::Group(d, inner) => {
                let t: TokenTree = input.parse()?;
                match t {
                    TokenTree::Group(g) if g.delimiter() == *d => {
                        let mut sub = Map::new();
                        (|i: ParseStream| matches(inner, i, &mut sub)).parse2(g.stream())?;
                        out.extend(sub);
                    }
                    _ => return Err(input.error("group")),
                }
            }
            M::Var(n, k) => {
                let t = fragment(k, input)?;
                out.insert(n.clone(), B::One(t));
            }
            M::Rep(inner, sep, op) => {
                let mut vs = vec![];
                names(inner, &mut vs);
                let mut acc: BTreeMap<String, Vec<B>> = vs.iter().map(|n| (n.clone(), vec![])).collect();
                let mut n = 0;
                while !input.is_empty() {
                    let f = input.fork();
                    if n > 0 {
                        if let Some(s) = sep {
                            match f.parse::<TokenTree>() {
                                Ok(t) if t.to_string() == *s => {}
                                _ => break,
                            }
                        }
                    }
                    let mut sub = Map::new();
                    if matches(inner, &f, &mut sub).is_err() {
                        break;
                    }
                    // consume the same tokens from the input
                    let left = f.cursor().token_stream().into_iter().count();
                    while input.cursor().token_stream().into_iter().count() > left {
                        input.parse::<TokenTree>()?;
                    }
                    for (k, v) in sub {
                        acc.entry(k).or_default().push(v);
                    }
                    n += 1;
                    if *op == '?' {
                        break;
                    }
                }
                if *op == '+' && n == 0 {
                    return Err(input.error("repetition"));
                }
                for (k, v) in acc {
                    out.insert(k, B::Many(v));
                }
            }
        }
    }
    Ok(())
}

fn transcribe(ts: TokenStream, map: &Map) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => match &v[i + 1] {
                TokenTree::Ident(n) if n == "crate" => {
                    out.extend(quote!(crate));
                    i += 2;
                }
                TokenTree::Ident(n) => {
                    match map.get(&n.to_string())? {
                        B::One(t) => out.extend(t.clone()),
                        B::Many(_) => return None,
                    }
                    i += 2;
                }
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    let mut j = i + 2;
                    let is_op = |t: &TokenTree| matches!(t.to_string().as_str(), "*" | "+" | "?");
                    let mut sep: Option<TokenTree> = None;
                    if !is_op(v.get(j)?) {
                        sep = Some(v[j].clone());
                        j += 1;
                    }
                    let mut used = vec![];
                    vars(g.stream(), &mut used);
                    let len = used
                        .iter()
                        .filter_map(|n| match map.get(n) {
                            Some(B::Many(x)) => Some(x.len()),
                            _ => None,
                        })
                        .max()?;
                    for k in 0..len {
                        let mut m2 = map.clone();
                        for n in &used {
                            if let Some(B::Many(x)) = map.get(n) {
                                m2.insert(n.clone(), x.get(k)?.clone());
                            }
                        }
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.extend(std::iter::once(s.clone()));
                            }
                        }
                        out.extend(transcribe(g.stream(), &m2)?);
                    }
                    i = j + 1;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), transcribe(g.stream(), map)?);
                ng.set_span(g.span());
                out.extend(std::iter::once(TokenTree::Group(ng)));
                i += 1;
            }
            t => {
                out.extend(std::iter::once(t.clone()));
                i += 1;
            }
        }
    }
    Some(out)
}

fn vars(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                    out.push(n.to_string());
                }
            }
            TokenTree::Group(g) => vars(g.stream(), out),
            _ => {}
        }
    }
}

fn rules(ts: TokenStream) -> Option<Vec<Rule>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let p = match &v[i] {
            TokenTree::Group(g) => pattern(g.stream())?,
            _ => return None,
        };
        if v.get(i + 1)?.to_string() != "=" || v.get(i + 2)?.to_string() != ">" {
            return None;
        }
        let body = match v.get(i + 3)? {
            TokenTree::Group(g) => g.stream(),
            _ => return None,
        };
        out.push(Rule { pat: p, body });
        i += 4;
        if i < v.len() && v[i].to_string() == ";" {
            i += 1;
        }
    }
    Some(out)
}

struct Expand<'a> {
    table: &'a HashMap<String, Vec<Rule>>,
    changed: bool,
}

impl<'a> Expand<'a> {
    fn expand(&mut self, m: &Macro) -> Option<TokenStream> {
        let n = m.path.segments.last()?.ident.to_string();
        let rs = self.table.get(&n)?;
        for r in rs {
            let mut map = Map::new();
            let ok = (|i: ParseStream| matches(&r.pat, i, &mut map)).parse2(m.tokens.clone()).is_ok();
            if ok {
                let t = transcribe(r.body.clone(), &map)?;
                self.changed = true;
                return Some(t);
            }
        }
        None
    }
}

impl<'a> VisitMut for Expand<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(t) = self.expand(&m.mac) {
                if let Ok(x) = parse2::<Expr>(t.clone()) {
                    *e = parse_quote!((#x));
                } else if let Ok(b) = parse2::<Block>(quote!({ #t })) {
                    *e = parse_quote!(#b);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for s in stmts {
            if let Stmt::Macro(m) = &s {
                if let Some(t) = self.expand(&m.mac) {
                    if let Ok(mut v) = Block::parse_within.parse2(t.clone()) {
                        if m.semi_token.is_some() {
                            if let Some(Stmt::Expr(_, x @ None)) = v.last_mut() {
                                *x = Some(Default::default());
                            }
                        }
                        b.stmts.extend(v);
                        continue;
                    }
                }
            }
            b.stmts.push(s);
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_impl_mut(&mut self, im: &mut ItemImpl) {
        let items = std::mem::take(&mut im.items);
        for it in items {
            if let ImplItem::Macro(m) = &it {
                if let Some(t) = self.expand(&m.mac) {
                    if let Ok(x) = parse2::<ItemImpl>(quote!(impl X { #t })) {
                        im.items.extend(x.items);
                        continue;
                    }
                }
            }
            im.items.push(it);
        }
        visit_mut::visit_item_impl_mut(self, im);
    }
}

pub fn run(k: &mut Krate) {
    let mut table: HashMap<String, Vec<Rule>> = HashMap::new();
    visit_modules(&k.root, &mut |m| {
        for it in &m.items {
            if let Item::Macro(d) = it {
                if let (Some(id), true) = (&d.ident, d.mac.path.is_ident("macro_rules")) {
                    if let Some(r) = rules(d.mac.tokens.clone()) {
                        table.insert(id.to_string(), r);
                    }
                }
            }
        }
    });
    if table.is_empty() {
        return;
    }
    for _ in 0..16 {
        let mut changed = false;
        visit_modules_mut(&mut k.root, &mut |m| {
            let mut e = Expand { table: &table, changed: false };
            let items = std::mem::take(&mut m.items);
            for it in items {
                if let Item::Macro(d) = &it {
                    if d.ident.is_none() {
                        if let Some(t) = e.expand(&d.mac) {
                            if let Ok(f) = parse2::<File>(t) {
                                m.items.extend(f.items);
                                continue;
                            }
                        }
                    }
                }
                m.items.push(it);
            }
            for it in &mut m.items {
                e.visit_item_mut(it);
            }
            changed |= e.changed;
        });
        if !changed {
            break;
        }
    }
    visit_modules_mut(&mut k.root, &mut |m| {
        m.items.retain(|it| !matches!(it, Item::Macro(d) if d.ident.as_ref().map_or(false, |i| table.contains_key(&i.to_string()))));
        // test-only items a macro produced
        m.items.retain(|it| !crate::load::cfg_test(crate::load::attrs_of(it)));
    });
}
