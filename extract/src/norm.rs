//! Syntactic normalisation of constructs the verifier does not model.
//! Every rewrite here is meaning preserving and listed in DESIGN.md.
use crate::load::*;
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Opt,
    Res,
}

fn head_kind(t: &Type) -> Option<Kind> {
    if let Type::Path(p) = t {
        match p.path.segments.last()?.ident.to_string().as_str() {
            "Option" => return Some(Kind::Opt),
            "Result" => return Some(Kind::Res),
            _ => {}
        }
    }
    None
}

pub struct Kinds {
    pub by_name: HashMap<String, Option<Kind>>,
}

impl Kinds {
    fn add(&mut self, name: String, k: Option<Kind>) {
        match self.by_name.get(&name) {
            None => {
                self.by_name.insert(name, k);
            }
            Some(old) if *old == k => {}
            _ => {
                self.by_name.insert(name, None);
            }
        }
    }
    pub fn collect(k: &Krate) -> Kinds {
        let mut ks = Kinds { by_name: HashMap::new() };
        visit_modules(&k.root, &mut |m| {
            for it in &m.items {
                match it {
                    Item::Fn(f) => {
                        if let ReturnType::Type(_, t) = &f.sig.output {
                            ks.add(f.sig.ident.to_string(), head_kind(t));
                        }
                    }
                    Item::Impl(im) => {
                        let own = im.trait_.is_none().then(|| impl_key(im));
                        let mut out: Option<Kind> = None;
                        for x in &im.items {
                            if let ImplItem::Type(t) = x {
                                if t.ident == "Output" {
                                    out = head_kind(&t.ty);
                                }
                            }
                        }
                        for x in &im.items {
                            if let ImplItem::Fn(f) = x {
                                if let ReturnType::Type(_, t) = &f.sig.output {
                                    let k = if t.to_token_stream().to_string().replace(' ', "") == "Self::Output" { out } else { head_kind(t) };
                                    ks.add(f.sig.ident.to_string(), k);
                                    if let Some(o) = &own {
                                        ks.add(format!("{}::{}", o, f.sig.ident), k);
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        });
        for n in ["pop", "get", "first", "last", "checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem", "checked_neg", "checked_abs", "checked_pow", "ok", "and_then_opt", "pop_back", "pop_front", "next", "as_ref_opt"] {
            ks.by_name.insert(n.to_string(), Some(Kind::Opt));
        }
        for n in ["try_from", "try_into", "ok_or", "ok_or_else", "map_err", "parse", "or_else_res"] {
            ks.by_name.insert(n.to_string(), Some(Kind::Res));
        }
        ks
    }
    pub fn of(&self, e: &Expr, locals: &HashMap<String, Kind>) -> Option<Kind> {
        match e {
            Expr::Paren(p) => self.of(&p.expr, locals),
            Expr::Group(p) => self.of(&p.expr, locals),
            Expr::Reference(p) => self.of(&p.expr, locals),
            Expr::Path(p) => {
                let s = p.path.segments.last()?.ident.to_string();
                if s == "None" {
                    return Some(Kind::Opt);
                }
                if p.path.segments.len() == 1 {
                    return locals.get(&s).copied();
                }
                None
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = p.path.segments.last()?.ident.to_string();
                    match s.as_str() {
                        "Some" => return Some(Kind::Opt),
                        "Ok" | "Err" => return Some(Kind::Res),
                        "into" => {
                            // Into::<Option<..>>::into(..)
                            let t = p.path.to_token_stream().to_string().replace(' ', "");
                            if t.contains("Into::<Option") {
                                return Some(Kind::Opt);
                            }
                            return None;
                        }
                        _ => {}
                    }
                    let n = p.path.segments.len();
                    if n >= 2 {
                        let q = format!("{}::{}", p.path.segments[n - 2].ident, s);
                        if let Some(k) = self.by_name.get(&q) {
                            return *k;
                        }
                    }
                    return self.by_name.get(&s).copied().flatten();
                }
                None
            }
            Expr::MethodCall(m) => {
                let s = m.method.to_string();
                match s.as_str() {
                    "map" | "and_then" | "clone" | "copied" | "cloned" | "as_ref" | "or" | "or_else" | "filter" => self.of(&m.receiver, locals),
                    _ => self.by_name.get(&s).copied().flatten(),
                }
            }
            Expr::Match(m) => m.arms.iter().find_map(|a| self.of(&a.body, locals)),
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.of(e, locals),
                _ => None,
            },
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.of(e, locals),
                _ => None,
            },
            _ => None,
        }
    }
}

struct Macros<'a> {
    kinds: &'a Kinds,
    locals: HashMap<String, Kind>,
    fresh: usize,
}

fn exprs(m: &Macro) -> Option<Vec<Expr>> {
    let p = Punctuated::<Expr, Token![,]>::parse_terminated;
    p.parse2(m.tokens.clone()).ok().map(|x| x.into_iter().collect())
}

fn expand_matches(m: &Macro) -> Option<Expr> {
    // matches!(e, pat [if guard])
    let f = |input: syn::parse::ParseStream| -> Result<Expr> {
        let e: Expr = input.parse()?;
        let _: Token![,] = input.parse()?;
        let p = Pat::parse_multi_with_leading_vert(input)?;
        let g: Option<Expr> = if input.peek(Token![if]) {
            let _: Token![if] = input.parse()?;
            Some(input.parse()?)
        } else {
            None
        };
        if input.peek(Token![,]) {
            let _: Token![,] = input.parse()?;
        }
        Ok(match g {
            None => parse_quote!(match #e { #p => true, _ => false }),
            Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
        })
    };
    f.parse2(m.tokens.clone()).ok()
}

/// format!("..{}..", a) -> concatenation of the literal pieces and the shown arguments
pub fn expand_format(m: &Macro) -> Option<Expr> {
    let args = exprs(m)?;
    let lit = match args.first()? {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let mut pos: Vec<Expr> = vec![];
    let mut named: HashMap<String, Expr> = HashMap::new();
    for a in &args[1..] {
        match a {
            Expr::Assign(x) => {
                named.insert(x.left.to_token_stream().to_string(), (*x.right).clone());
            }
            x => pos.push(x.clone()),
        }
    }
    let mut parts: Vec<Expr> = vec![];
    let mut buf = String::new();
    let mut it = lit.chars().peekable();
    let mut next = 0;
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                buf.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                buf.push('}');
            }
            '{' => {
                let mut spec = String::new();
                for d in it.by_ref() {
                    if d == '}' {
                        break;
                    }
                    spec.push(d);
                }
                let (name, fmt) = match spec.split_once(':') {
                    Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
                    None => (spec.trim().to_string(), String::new()),
                };
                let arg: Expr = if name.is_empty() {
                    let a = pos.get(next)?.clone();
                    next += 1;
                    a
                } else if let Ok(i) = name.parse::<usize>() {
                    pos.get(i)?.clone()
                } else if let Some(x) = named.get(&name) {
                    x.clone()
                } else {
                    parse_str(&name).ok()?
                };
                if !buf.is_empty() {
                    parts.push(parse_quote!(crate::vrt::slit(#buf)));
                    buf.clear();
                }
                if fmt.is_empty() {
                    parts.push(parse_quote!((#arg).vshow()));
                } else {
                    parts.push(parse_quote!((#arg).vshow_fmt(#fmt)));
                }
            }
            c => buf.push(c),
        }
    }
    if !buf.is_empty() || parts.is_empty() {
        parts.push(parse_quote!(crate::vrt::slit(#buf)));
    }
    let mut x = parts.pop()?;
    while let Some(p) = parts.pop() {
        x = parse_quote!(crate::vrt::scat(#p, #x));
    }
    Some(x)
}

/// body of Display::fmt whose every outcome is one write!(f, ..) -> the String written
fn fmt_block(b: &Block, f: &str) -> Option<Block> {
    if uses_ident(b.to_token_stream(), "for") || uses_ident(b.to_token_stream(), "while") || uses_ident(b.to_token_stream(), "loop") {
        let mut b = b.clone();
        let n = b.stmts.len();
        if n == 0 || b.stmts[..n - 1].iter().any(|s| uses_ident(s.to_token_stream(), f)) {
            return None;
        }
        let last = match b.stmts.pop()? {
            Stmt::Expr(e @ (Expr::Macro(_) | Expr::MethodCall(_)), None) => fmt_tail(&e, f)?,
            Stmt::Macro(m) if m.semi_token.is_none() => fmt_tail(&Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac }), f)?,
            _ => return None,
        };
        b.stmts.push(Stmt::Expr(last, None));
        return Some(b);
    }
    let mut b = b.clone();
    let n = b.stmts.len();
    if n == 0 {
        return None;
    }
    for s in &b.stmts[..n - 1] {
        if uses_ident(s.to_token_stream(), f) || uses_ident(s.to_token_stream(), "return") {
            return None;
        }
    }
    let last = match b.stmts.pop()? {
        Stmt::Expr(e, None) => fmt_tail(&e, f)?,
        Stmt::Expr(Expr::Return(r), Some(_)) => fmt_tail(&*r.expr?, f)?,
        Stmt::Macro(m) if m.semi_token.is_none() => fmt_tail(&Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac }), f)?,
        _ => return None,
    };
    b.stmts.push(Stmt::Expr(last, None));
    Some(b)
}

/// any other body: what is written so far is kept in a local string
fn fmt_accumulate(b: &Block, f: &str) -> Option<Block> {
    let mut a = Acc { f: f.to_string(), bad: false };
    let mut s = a.tail_stmts(&b.stmts)?;
    if a.bad || s.iter().any(|x| uses_ident(x.to_token_stream(), f)) {
        return None;
    }
    s.insert(0, parse_quote!(let mut __o = crate::vrt::sempty();));
    s.push(Stmt::Expr(parse_quote!(__o), None));
    Some(Block { brace_token: Default::default(), stmts: s })
}

struct Acc {
    f: String,
    bad: bool,
}
impl Acc {
    /// the text of one write, if `e` is one
    fn text(&self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::Macro(m) if m.mac.path.is_ident("write") => fmt_tail(e, &self.f),
            Expr::MethodCall(m) if m.method == "write_fmt" && m.receiver.to_token_stream().to_string() == self.f && m.args.len() == 1 => match &m.args[0] {
                Expr::Macro(x) if x.mac.path.is_ident("format_args") => {
                    let t = &x.mac.tokens;
                    Some(parse_quote!(format!(#t)))
                }
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "write_char" && m.receiver.to_token_stream().to_string() == self.f && m.args.len() == 1 => {
                if let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &m.args[0] {
                    let s = c.value().to_string();
                    return Some(parse_quote!(crate::vrt::slit(#s)));
                }
                None
            }
            Expr::MethodCall(m) if m.method == "write_str" || m.method == "fmt" => fmt_tail(e, &self.f),
            Expr::Call(c) if c.func.to_token_stream().to_string().replace(' ', "").ends_with("Display::fmt") && c.args.len() == 2 && c.args[1].to_token_stream().to_string() == self.f => {
                let r = match &c.args[0] {
                    Expr::Reference(r) => (*r.expr).clone(),
                    e => e.clone(),
                };
                Some(parse_quote!((#r).vshow()))
            }
            Expr::Paren(p) => self.text(&p.expr),
            _ => None,
        }
    }
    fn append(&self, e: &Expr) -> Option<Stmt> {
        let t = self.text(e)?;
        Some(parse_quote!(__o = crate::vrt::scat(__o, #t);))
    }
    fn touches(&self, ts: proc_macro2::TokenStream) -> bool {
        uses_ident(ts.clone(), &self.f) || uses_ident(ts, "return")
    }
    fn stmts(&mut self, v: &[Stmt]) -> Option<Vec<Stmt>> {
        let mut out = vec![];
        for s in v {
            out.extend(self.stmt(s)?);
        }
        Some(out)
    }
    fn block(&mut self, b: &Block) -> Option<Block> {
        Some(Block { brace_token: Default::default(), stmts: self.stmts(&b.stmts)? })
    }
    fn stmt(&mut self, s: &Stmt) -> Option<Vec<Stmt>> {
        if !self.touches(s.to_token_stream()) {
            return Some(vec![s.clone()]);
        }
        match s {
            Stmt::Macro(m) => Some(vec![self.append(&Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }))?]),
            Stmt::Local(l) => {
                // let _ = write!(..);
                if let (Pat::Wild(_), Some(i)) = (&l.pat, &l.init) {
                    return Some(vec![self.append(&i.expr)?]);
                }
                // let p = match e { A => return .., B => v };
                let mut l = l.clone();
                let i = l.init.as_mut()?;
                if let Some((_, d)) = &mut i.diverge {
                    if self.touches(i.expr.to_token_stream()) {
                        return None;
                    }
                    let v = self.effect(d)?;
                    **d = parse_quote!({ #(#v)* });
                    return Some(vec![Stmt::Local(l)]);
                }
                let out = |a: &mut Acc, e: &Expr| -> Option<Expr> {
                    if !a.touches(e.to_token_stream()) {
                        return Some(e.clone());
                    }
                    let last = match e {
                        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))),
                        e => matches!(e, Expr::Return(_)),
                    };
                    if !last {
                        return None;
                    }
                    let v = a.effect(e)?;
                    Some(parse_quote!({ #(#v)* }))
                };
                match &mut *i.expr {
                    Expr::Match(m) => {
                        if self.touches(m.expr.to_token_stream()) {
                            return None;
                        }
                        for a in &mut m.arms {
                            *a.body = out(self, &a.body)?;
                            a.comma = Some(Default::default());
                        }
                    }
                    Expr::If(f) => {
                        if self.touches(f.cond.to_token_stream()) {
                            return None;
                        }
                        let tb = &f.then_branch;
                        let t = out(self, &parse_quote!(#tb))?;
                        f.then_branch = parse_quote!({ #t });
                        let e = &mut f.else_branch.as_mut()?.1;
                        let x = out(self, e)?;
                        **e = parse_quote!({ #x });
                    }
                    _ => return None,
                }
                Some(vec![Stmt::Local(l)])
            }
            Stmt::Expr(e, _) => self.effect(e),
            _ => None,
        }
    }
    fn effect(&mut self, e: &Expr) -> Option<Vec<Stmt>> {
        match e {
            Expr::Try(t) => {
                if let Some(s) = self.append(&t.expr) {
                    return Some(vec![s]);
                }
                // (if c { write } else { write })?;
                self.tail(&t.expr)
            }
            Expr::Return(r) => {
                let mut v = self.tail(r.expr.as_ref()?)?;
                v.push(parse_quote!(return __o;));
                Some(v)
            }
            Expr::Paren(p) => self.effect(&p.expr),
            Expr::Block(b) => {
                let b = self.block(&b.block)?;
                Some(vec![parse_quote!(#b)])
            }
            Expr::If(i) => {
                if self.touches(i.cond.to_token_stream()) {
                    return None;
                }
                let mut i = i.clone();
                i.then_branch = self.block(&i.then_branch)?;
                if let Some((_, e)) = &mut i.else_branch {
                    let v = self.effect(e)?;
                    **e = parse_quote!({ #(#v)* });
                }
                Some(vec![Stmt::Expr(Expr::If(i), Some(Default::default()))])
            }
            Expr::Match(m) => {
                if self.touches(m.expr.to_token_stream()) {
                    return None;
                }
                let mut m = m.clone();
                for a in &mut m.arms {
                    let v = if self.touches(a.body.to_token_stream()) {
                        self.effect(&a.body)?
                    } else {
                        let b = &a.body;
                        vec![parse_quote!(#b;)]
                    };
                    *a.body = parse_quote!({ #(#v)* });
                    a.comma = Some(Default::default());
                }
                Some(vec![Stmt::Expr(Expr::Match(m), Some(Default::default()))])
            }
            Expr::ForLoop(l) => {
                if self.touches(l.expr.to_token_stream()) {
                    return None;
                }
                let mut l = l.clone();
                l.body = self.block(&l.body)?;
                Some(vec![Stmt::Expr(Expr::ForLoop(l), None)])
            }
            Expr::While(l) => {
                if self.touches(l.cond.to_token_stream()) {
                    return None;
                }
                let mut l = l.clone();
                l.body = self.block(&l.body)?;
                Some(vec![Stmt::Expr(Expr::While(l), None)])
            }
            _ => None,
        }
    }
    fn tail_stmts(&mut self, v: &[Stmt]) -> Option<Vec<Stmt>> {
        let n = v.len();
        if n == 0 {
            return None;
        }
        let mut out = self.stmts(&v[..n - 1])?;
        match &v[n - 1] {
            Stmt::Expr(e, None) => out.extend(self.tail(e)?),
            Stmt::Macro(m) if m.semi_token.is_none() => out.extend(self.tail(&Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }))?),
            s @ Stmt::Expr(Expr::Return(_), _) => out.extend(self.stmt(s)?),
            _ => return None,
        }
        Some(out)
    }
    /// an expression of type fmt::Result -> statements that write the same
    fn tail(&mut self, e: &Expr) -> Option<Vec<Stmt>> {
        if let Some(s) = self.append(e) {
            return Some(vec![s]);
        }
        match e {
            Expr::Call(c) if c.to_token_stream().to_string().replace(' ', "") == "Ok(())" => Some(vec![]),
            Expr::Paren(p) => self.tail(&p.expr),
            Expr::Return(_) => self.effect(e),
            Expr::Block(b) => {
                let v = self.tail_stmts(&b.block.stmts)?;
                Some(vec![parse_quote!({ #(#v)* })])
            }
            Expr::If(i) => {
                if self.touches(i.cond.to_token_stream()) {
                    return None;
                }
                let c = &i.cond;
                let t = self.tail_stmts(&i.then_branch.stmts)?;
                let el = self.tail(&i.else_branch.as_ref()?.1)?;
                let x: Expr = parse_quote!(if #c { #(#t)* } else { #(#el)* });
                Some(vec![Stmt::Expr(x, Some(Default::default()))])
            }
            Expr::Match(m) => {
                if self.touches(m.expr.to_token_stream()) {
                    return None;
                }
                let mut m = m.clone();
                for a in &mut m.arms {
                    let v = self.tail(&a.body)?;
                    *a.body = parse_quote!({ #(#v)* });
                    a.comma = Some(Default::default());
                }
                Some(vec![Stmt::Expr(Expr::Match(m), Some(Default::default()))])
            }
            _ => None,
        }
    }
}

fn uses_ident(ts: proc_macro2::TokenStream, f: &str) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == f,
        proc_macro2::TokenTree::Group(g) => uses_ident(g.stream(), f),
        _ => false,
    })
}

fn fmt_tail(e: &Expr, f: &str) -> Option<Expr> {
    match e {
        Expr::Macro(m) if m.mac.path.is_ident("write") => {
            let a = exprs(&m.mac)?;
            if a.first()?.to_token_stream().to_string() != f {
                return None;
            }
            let rest = &a[1..];
            let mac: Macro = parse_quote!(format!(#(#rest),*));
            Some(Expr::Macro(ExprMacro { attrs: vec![], mac }))
        }
        Expr::MethodCall(m) if m.method == "write_str" && m.receiver.to_token_stream().to_string() == f && m.args.len() == 1 => {
            let a = &m.args[0];
            Some(parse_quote!(crate::vrt::slit(#a)))
        }
        Expr::MethodCall(m) if m.method == "fmt" && m.args.len() == 1 && m.args[0].to_token_stream().to_string() == f => {
            let r = &m.receiver;
            Some(parse_quote!((#r).vshow()))
        }
        Expr::Call(c) if c.func.to_token_stream().to_string().replace(' ', "").ends_with("Display::fmt") && c.args.len() == 2 && c.args[1].to_token_stream().to_string() == f => {
            let r = match &c.args[0] {
                Expr::Reference(r) => (*r.expr).clone(),
                e => e.clone(),
            };
            Some(parse_quote!((#r).vshow()))
        }
        Expr::Paren(p) => fmt_tail(&p.expr, f),
        Expr::Block(b) => {
            let x = fmt_block(&b.block, f)?;
            Some(parse_quote!(#x))
        }
        Expr::If(i) => {
            if uses_ident(i.cond.to_token_stream(), f) {
                return None;
            }
            let mut i = i.clone();
            i.then_branch = fmt_block(&i.then_branch, f)?;
            let (t, el) = i.else_branch.take()?;
            i.else_branch = Some((t, Box::new(fmt_tail(&el, f)?)));
            Some(Expr::If(i))
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            for a in &mut m.arms {
                *a.body = fmt_tail(&a.body, f)?;
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m))
        }
        _ => None,
    }
}

/// Display impls become `VShow` impls producing the text that is written
pub fn display(k: &mut Krate) -> std::collections::BTreeMap<String, String> {
    let mut rep = std::collections::BTreeMap::new();
    let mut errs: Vec<String> = vec![];
    visit_modules(&k.root, &mut |m| {
        for it in &m.items {
            if let Item::Impl(im) = it {
                if let Some((_, p, _)) = &im.trait_ {
                    if trait_key(p) == "Error" {
                        errs.push(ty_key(&im.self_ty));
                    }
                }
            }
        }
    });
    visit_modules_mut(&mut k.root, &mut |m| {
        let items = std::mem::take(&mut m.items);
        for it in items {
            if let Item::Impl(im) = &it {
                if let Some((_, p, _)) = &im.trait_ {
                    if trait_key(p) == "Error" {
                        continue;
                    }
                    if trait_key(p) == "Display" {
                        let tk = ty_key(&im.self_ty);
                        let ty = &im.self_ty;
                        if errs.contains(&tk) {
                            rep.insert(tk, "dropped (error type)".to_string());
                            continue;
                        }
                        if !im.generics.params.is_empty() {
                            rep.insert(tk, "dropped (generic)".to_string());
                            continue;
                        }
                        let mut done = None;
                        for x in &im.items {
                            if let ImplItem::Fn(f) = x {
                                if f.sig.ident == "fmt" {
                                    if let Some(FnArg::Typed(t)) = f.sig.inputs.iter().nth(1) {
                                        let fname = t.pat.to_token_stream().to_string();
                                        if let Some(b) = fmt_block(&f.block, &fname).or_else(|| fmt_accumulate(&f.block, &fname)) {
                                            let id = Ident::new("vshow", f.sig.ident.span());
                                            let st = &b.stmts;
                                            let x: ItemImpl = parse_quote!(impl crate::vrt::VShow for #ty { fn #id(&self) -> String { #(#st)* } });
                                            done = Some(x);
                                        }
                                    }
                                }
                            }
                        }
                        match done {
                            Some(x) => {
                                rep.insert(tk, "verified as the String it writes".to_string());
                                m.items.push(Item::Impl(x));
                            }
                            None => {
                                rep.insert(tk, "not convertible: unknown text".to_string());
                                let x: ItemImpl = parse_quote!(impl crate::vrt::VShow for #ty { fn vshow(&self) -> String { crate::vrt::any_string() } });
                                m.items.push(Item::Impl(x));
                            }
                        }
                        continue;
                    }
                }
            }
            m.items.push(it);
        }
    });
    rep
}

struct HasRet(bool);
impl<'ast> syn::visit::Visit<'ast> for HasRet {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}

pub fn has_ret(e: &Expr) -> bool {
    let mut h = HasRet(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}

impl<'a> Macros<'a> {
    /// callable argument -> (pattern, body) for one bound value; Err if not a simple callable
    fn apply1(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                if has_ret(&c.body) {
                    return None;
                }
                let p = match c.inputs.first().unwrap() {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                Some((p, (*c.body).clone()))
            }
            Expr::Path(_) => {
                self.fresh += 1;
                let id = quote::format_ident!("__m{}", self.fresh);
                Some((parse_quote!(#id), parse_quote!(#f(#id))))
            }
            _ => None,
        }
    }
    fn apply0(&mut self, f: &Expr) -> Option<Expr> {
        match f {
            Expr::Closure(c) if c.inputs.is_empty() => {
                if has_ret(&c.body) {
                    None
                } else {
                    Some((*c.body).clone())
                }
            }
            Expr::Path(_) => Some(parse_quote!(#f())),
            _ => None,
        }
    }
    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let args: Vec<&Expr> = m.args.iter().collect();
        let r = &m.receiver;
        let k = self.kinds.of(r, &self.locals).or_else(|| {
            let arity = |e: &Expr| match e {
                Expr::Closure(c) => Some(if c.inputs.is_empty() { Kind::Opt } else { Kind::Res }),
                _ => None,
            };
            match (name.as_str(), args.len()) {
                ("or_else", 1) | ("unwrap_or_else", 1) => arity(args[0]),
                ("map_or_else", 2) => arity(args[0]),
                ("and_then", 1) => match args[0] {
                    Expr::Closure(c) => self.kinds.of(&c.body, &HashMap::new()),
                    _ => None,
                },
                _ => None,
            }
        });
        match (name.as_str(), args.len()) {
            ("map_err", 1) => {
                let (p, b) = self.apply1(args[0])?;
                Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }))
            }
            ("map", 1) => {
                let (p, b) = self.apply1(args[0])?;
                match k? {
                    Kind::Opt => Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None })),
                    Kind::Res => Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })),
                }
            }
            ("and_then", 1) => {
                let (p, b) = self.apply1(args[0])?;
                match k? {
                    Kind::Opt => Some(parse_quote!(match #r { Some(#p) => #b, None => None })),
                    Kind::Res => Some(parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) })),
                }
            }
            ("or_else", 1) => match k? {
                Kind::Opt => {
                    let b = self.apply0(args[0])?;
                    Some(parse_quote!(match #r { Some(__v) => Some(__v), None => #b }))
                }
                Kind::Res => {
                    let (p, b) = self.apply1(args[0])?;
                    Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => #b }))
                }
            },
            ("unwrap_or_else", 1) => match k? {
                Kind::Opt => {
                    let b = self.apply0(args[0])?;
                    Some(parse_quote!(match #r { Some(__v) => __v, None => #b }))
                }
                Kind::Res => {
                    let (p, b) = self.apply1(args[0])?;
                    Some(parse_quote!(match #r { Ok(__v) => __v, Err(#p) => #b }))
                }
            },
            ("unwrap_or", 1) => {
                let d = args[0];
                self.fresh += 1;
                let id = quote::format_ident!("__d{}", self.fresh);
                match k? {
                    Kind::Opt => Some(parse_quote!({ let #id = #d; match #r { Some(__v) => __v, None => #id } })),
                    Kind::Res => Some(parse_quote!({ let #id = #d; match #r { Ok(__v) => __v, Err(_) => #id } })),
                }
            }
            ("map_or", 2) => {
                let d = args[0];
                let (p, b) = self.apply1(args[1])?;
                match k? {
                    Kind::Opt => Some(parse_quote!(match #r { Some(#p) => #b, None => #d })),
                    Kind::Res => Some(parse_quote!(match #r { Ok(#p) => #b, Err(_) => #d })),
                }
            }
            ("map_or_else", 2) => {
                let (p, b) = self.apply1(args[1])?;
                match k? {
                    Kind::Opt => {
                        let d = self.apply0(args[0])?;
                        Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
                    }
                    Kind::Res => {
                        let (ep, d) = self.apply1(args[0])?;
                        Some(parse_quote!(match #r { Ok(#p) => #b, Err(#ep) => #d }))
                    }
                }
            }
            ("is_some_and", 1) => {
                let (p, b) = self.apply1(args[0])?;
                Some(parse_quote!(match #r { Some(#p) => #b, None => false }))
            }
            ("is_ok_and", 1) => {
                let (p, b) = self.apply1(args[0])?;
                Some(parse_quote!(match #r { Ok(#p) => #b, Err(_) => false }))
            }
            ("ok_or_else", 1) => {
                let b = self.apply0(args[0])?;
                Some(parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) }))
            }
            ("then", 1) => {
                let b = self.apply0(args[0])?;
                Some(parse_quote!(if #r { Some(#b) } else { None }))
            }
            ("then_some", 1) => {
                let d = args[0];
                self.fresh += 1;
                let id = quote::format_ident!("__d{}", self.fresh);
                Some(parse_quote!({ let __c = #r; let #id = #d; if __c { Some(#id) } else { None } }))
            }
            ("expect", 1) => Some(parse_quote!(#r.unwrap())),
            _ => None,
        }
    }
}

/// a function ending in `loop { .. break v; .. }` returns `v` there
fn break_values(b: &mut Block) {
    struct B;
    impl VisitMut for B {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Break(ExprBreak { label: None, expr: Some(v), .. }) = e {
                let v = v.clone();
                *e = parse_quote!(return #v);
            }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    if let Some(Stmt::Expr(Expr::Loop(l), None)) = b.stmts.last_mut() {
        if l.label.is_none() {
            B.visit_block_mut(&mut l.body);
        }
    }
}

impl<'a> VisitMut for Macros<'a> {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        break_values(&mut f.block);
        self.locals.clear();
        visit_mut::visit_item_fn_mut(self, f);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        break_values(&mut f.block);
        self.locals.clear();
        visit_mut::visit_impl_item_fn_mut(self, f);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let (pat, ty) = match &l.pat {
            Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
            p => (p, None),
        };
        if let Pat::Ident(i) = pat {
            let k = ty.and_then(head_kind).or_else(|| l.init.as_ref().and_then(|x| self.kinds.of(&x.expr, &self.locals)));
            match k {
                Some(k) => {
                    self.locals.insert(i.ident.to_string(), k);
                }
                None => {
                    self.locals.remove(&i.ident.to_string());
                }
            }
        }
    }
    fn visit_fn_arg_mut(&mut self, a: &mut FnArg) {
        if let FnArg::Typed(t) = a {
            if let (Pat::Ident(i), Some(k)) = (&*t.pat, head_kind(&t.ty)) {
                self.locals.insert(i.ident.to_string(), k);
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let semi = m.semi_token;
            let mac = m.mac.clone();
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac });
            *s = Stmt::Expr(e, semi);
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // expand macros first so that nested expressions are visited
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            match name.as_str() {
                "vec" => {
                    if let Some(v) = exprs(&m.mac) {
                        let n = quote::format_ident!("vec{}", v.len());
                        *e = parse_quote!(crate::vrt::#n(#(#v),*));
                    }
                }
                "matches" => {
                    if let Some(x) = expand_matches(&m.mac) {
                        *e = Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) });
                    }
                }
                "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "println" | "eprintln" | "print" | "eprint" => {
                    *e = parse_quote!(());
                }
                "assert" => {
                    if let Some(v) = exprs(&m.mac) {
                        let c = &v[0];
                        *e = parse_quote!(if !(#c) { crate::vrt::rt_panic(); });
                    }
                }
                "format" => {
                    if let Some(x) = expand_format(&m.mac) {
                        *e = x;
                    }
                }
                "todo" | "unimplemented" | "panic" | "unreachable" => {
                    *e = parse_quote!(crate::vrt::rt_panic());
                }
                _ => {}
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if let Some(x) = self.combinator(m) {
                *e = match x {
                    Expr::Match(_) | Expr::If(_) => Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) }),
                    y => y,
                };
            }
        }
    }
}

/// `dyn Trait` payloads of error values are erased
struct DynErase {
    fields: Vec<String>,
}
impl VisitMut for DynErase {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::TraitObject(_) = t {
            *t = parse_quote!(crate::vrt::DynErr);
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        visit_mut::visit_expr_struct_mut(self, s);
        for f in s.fields.iter_mut() {
            if let Member::Named(n) = &f.member {
                if self.fields.contains(&n.to_string()) && f.expr.to_token_stream().to_string() != "None" {
                    let x = &f.expr;
                    f.expr = parse_quote!(crate::vrt::erase(#x));
                }
            }
        }
    }
}

fn dyn_erase(k: &mut Krate) {
    let mut fields = vec![];
    visit_modules(&k.root, &mut |m| {
        for it in &m.items {
            if let Item::Struct(s) = it {
                for f in &s.fields {
                    if uses_ident(f.ty.to_token_stream(), "dyn") {
                        if let Some(i) = &f.ident {
                            fields.push(i.to_string());
                        }
                    }
                }
            }
        }
    });
    visit_modules_mut(&mut k.root, &mut |m| {
        let mut v = DynErase { fields: fields.clone() };
        for it in &mut m.items {
            v.visit_item_mut(it);
        }
    });
}

pub fn run(k: &mut Krate) {
    dyn_erase(k);
    let kinds = Kinds::collect(k);
    visit_modules_mut(&mut k.root, &mut |m| {
        let mut v = Macros { kinds: &kinds, locals: HashMap::new(), fresh: 0 };
        for it in &mut m.items {
            if let Item::Impl(im) = it {
                if external_impl(im) {
                    continue;
                }
            }
            v.visit_item_mut(it);
        }
    });
}

/// impls that are kept as plain Rust (not verified): formatting and Error
pub fn external_impl(im: &ItemImpl) -> bool {
    match &im.trait_ {
        Some((_, p, _)) => {
            let k = trait_key(p);
            k == "Display" || k == "Debug" || k == "Error"
        }
        None => false,
    }
}

// ---------------------------------------------------------------- arithmetic

struct Arith {
    consts: Vec<String>,
}

fn is_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Paren(p) => is_lit(&p.expr),
        Expr::Group(p) => is_lit(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && is_lit(&u.expr),
        _ => false,
    }
}

fn is_float_lit(e: &Expr) -> bool {
    if let Expr::Call(c) = e {
        if c.func.to_token_stream().to_string().ends_with("f64_int_lit") {
            return true;
        }
    }
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Float(_) => true,
            Lit::Int(i) => i.suffix() == "f64",
            _ => false,
        },
        Expr::Paren(p) => is_float_lit(&p.expr),
        Expr::Unary(u) => is_float_lit(&u.expr),
        _ => false,
    }
}

/// unsuffixed literal: has no definite type to call a method on
fn is_bare_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) => i.suffix().is_empty(),
            Lit::Float(f) => f.suffix().is_empty(),
            _ => false,
        },
        Expr::Paren(p) => is_bare_lit(&p.expr),
        Expr::Group(p) => is_bare_lit(&p.expr),
        Expr::Unary(u) => is_bare_lit(&u.expr),
        _ => false,
    }
}

fn is_char_lit(e: &Expr) -> Option<String> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => Some(c.value().to_string()),
        _ => None,
    }
}

impl VisitMut for Arith {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) => {
                let (name, m, assign) = match b.op {
                    BinOp::Add(_) => ("Add", "add", false),
                    BinOp::Sub(_) => ("Sub", "sub", false),
                    BinOp::Mul(_) => ("Mul", "mul", false),
                    BinOp::Div(_) => ("Div", "div", false),
                    BinOp::Rem(_) => ("Rem", "rem", false),
                    BinOp::AddAssign(_) => ("Add", "add", true),
                    BinOp::SubAssign(_) => ("Sub", "sub", true),
                    BinOp::MulAssign(_) => ("Mul", "mul", true),
                    BinOp::DivAssign(_) => ("Div", "div", true),
                    BinOp::RemAssign(_) => ("Rem", "rem", true),
                    BinOp::Lt(_) => ("Cmp", "lt_", false),
                    BinOp::Le(_) => ("Cmp", "le_", false),
                    BinOp::Gt(_) => ("Cmp", "gt_", false),
                    BinOp::Ge(_) => ("Cmp", "ge_", false),
                    BinOp::Eq(_) if is_float_lit(&b.left) || is_float_lit(&b.right) => ("Cmp", "eq_", false),
                    BinOp::Ne(_) if is_float_lit(&b.left) || is_float_lit(&b.right) => ("Cmp", "ne_", false),
                    _ => return,
                };
                let l = unparen(&b.left);
                let r = unparen(&b.right);
                let t = quote::format_ident!("{}", name);
                let m = quote::format_ident!("{}", m);
                *e = if assign {
                    parse_quote!(#l = crate::vrt::#t::#m(#l, #r))
                } else {
                    parse_quote!(crate::vrt::#t::#m(#l, #r))
                };
            }
            Expr::Unary(u) => {
                if matches!(u.op, UnOp::Neg(_)) && !is_lit(&u.expr) {
                    let x = unparen(&u.expr);
                    *e = parse_quote!(crate::vrt::Neg::neg(#x));
                }
            }
            Expr::MethodCall(m) if m.args.len() == 1 && m.method == "push" && is_char_lit(&m.args[0]).is_some() => {
                let s = is_char_lit(&m.args[0]).unwrap_or_default();
                let x = &m.receiver;
                *e = parse_quote!(#x.push_str(#s));
            }
            Expr::MethodCall(m) if m.args.len() == 2 && (m.method == "insert" || m.method == "insert_str") && matches!(&*m.receiver, Expr::Path(_)) && m.args[0].to_token_stream().to_string() == "0" => {
                let x = &m.receiver;
                if let Some(s) = is_char_lit(&m.args[1]) {
                    *e = parse_quote!(#x = crate::vrt::scat(crate::vrt::slit(#s), #x));
                } else if m.method == "insert_str" {
                    let s = &m.args[1];
                    *e = parse_quote!(#x = crate::vrt::scat(crate::vrt::slit(#s), #x));
                }
            }
            Expr::MethodCall(m) if (m.method == "concat" && m.args.is_empty() || m.method == "join" && m.args.len() == 1 && m.args[0].to_token_stream().to_string() == "\"\"") && matches!(&*m.receiver, Expr::Array(_)) => {
                if let Expr::Array(a) = &*m.receiver {
                    let mut x: Option<Expr> = None;
                    for p in a.elems.iter().rev() {
                        let s: Expr = parse_quote!((#p).vshow());
                        x = Some(match x {
                            None => s,
                            Some(r) => parse_quote!(crate::vrt::scat(#s, #r)),
                        });
                    }
                    if let Some(x) = x {
                        *e = x;
                    }
                }
            }
            Expr::Call(c) if c.func.to_token_stream().to_string() == "String :: with_capacity" && c.args.len() == 1 => {
                *e = parse_quote!(crate::vrt::sempty());
            }
            Expr::Cast(c) => {
                if is_bare_lit(&c.expr) {
                    return;
                }
                let t = c.ty.to_token_stream().to_string();
                if ["f64", "i64", "u64", "i128", "u128", "usize", "u32", "i32"].contains(&t.as_str()) {
                    let tr = quote::format_ident!("As_{}", t);
                    let m = quote::format_ident!("as_{}_", t);
                    let x = unparen(&c.expr);
                    *e = parse_quote!(crate::vrt::#tr::#m(#x));
                }
            }
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                let t = f.base10_digits().to_string();
                if let Ok(v) = t.parse::<f64>() {
                    if v == v.trunc() && v.abs() < 1e15 {
                        let i = proc_macro2::Literal::i64_suffixed(v as i64);
                        *e = parse_quote!(crate::vrt::f64_int_lit(#i));
                    }
                }
            }
            // checked conversion followed by unwrap: out of range is an overflow panic
            Expr::MethodCall(m) if ((m.method == "unwrap" && m.args.is_empty()) || m.method == "expect") && try_from_target(&m.receiver).is_some() => {
                let (t, a) = try_from_target(&m.receiver).unwrap();
                let f = quote::format_ident!("checked_as_{}", t);
                *e = parse_quote!(crate::vrt::#f(#a));
            }
            // conversions: the prelude's From/Into have the same shape as std's
            Expr::MethodCall(m) if m.method == "into" && m.args.is_empty() => {
                let r = &m.receiver;
                *e = parse_quote!(crate::vrt::Into::into(#r));
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if p.qself.is_none() && p.path.segments.len() >= 2 && c.args.len() == 1 {
                        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        let n = segs.len();
                        let tf = segs[n - 1] == "try_from" && segs[n - 2] != "TryFrom";
                        if tf || segs[n - 1] == "from" && segs[n - 2] != "From" {
                            let mut q = p.path.clone();
                            q.segments.pop();
                            q.segments.pop_punct();
                            let a = &c.args[0];
                            *e = if tf {
                                parse_quote!(<#q as crate::vrt::TryFrom<_>>::try_from(#a))
                            } else {
                                parse_quote!(<#q as crate::vrt::From<_>>::from(#a))
                            };
                        }
                    }
                }
            }
            Expr::Path(p) if p.qself.is_none() => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let full = segs.join("::");
                let last = segs.last().unwrap().clone();
                let is_const = full.contains("consts::") || (segs.len() == 1 && self.consts.contains(&last));
                if is_const {
                    let f = quote::format_ident!("f64_{}", last);
                    *e = parse_quote!(crate::vrt::#f());
                }
            }
            _ => {}
        }
    }
}

fn try_from_target(e: &Expr) -> Option<(String, Expr)> {
    if let Expr::Call(c) = unparen(e) {
        if let Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = segs.len();
            if let Some(q) = &p.qself {
                let t = q.ty.to_token_stream().to_string();
                if segs[n - 1] == "try_from" && ["i64", "u64", "i128", "u128", "usize", "u32", "i32"].contains(&t.as_str()) && c.args.len() == 1 {
                    return Some((t, c.args[0].clone()));
                }
                return None;
            }
            if n >= 2 && segs[n - 1] == "try_from" && ["i64", "u64", "i128", "u128", "usize", "u32", "i32"].contains(&segs[n - 2].as_str()) && c.args.len() == 1 {
                return Some((segs[n - 2].clone(), c.args[0].clone()));
            }
        }
    }
    None
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        e => e,
    }
}

fn const_imports(u: &UseTree, inside: bool, out: &mut Vec<String>) {
    match u {
        UseTree::Path(p) => const_imports(&p.tree, inside || p.ident == "consts", out),
        UseTree::Group(g) => g.items.iter().for_each(|t| const_imports(t, inside, out)),
        UseTree::Name(n) if inside => out.push(n.ident.to_string()),
        UseTree::Glob(_) if inside => out.extend(["PI", "E"].iter().map(|s| s.to_string())),
        _ => {}
    }
}

pub fn arith(k: &mut Krate) {
    visit_modules_mut(&mut k.root, &mut |m| {
        let mut consts = vec![];
        for it in &m.items {
            if let Item::Use(u) = it {
                const_imports(&u.tree, false, &mut consts);
            }
        }
        let mut ar = Arith { consts };
        for it in &mut m.items {
            match it {
                Item::Fn(f) => ar.visit_block_mut(&mut f.block),
                Item::Impl(im) if !external_impl(im) => {
                    for x in &mut im.items {
                        if let ImplItem::Fn(f) = x {
                            ar.visit_block_mut(&mut f.block)
                        }
                    }
                }
                _ => {}
            }
        }
    });
}

#[allow(dead_code)]
pub fn toks<T: ToTokens>(t: &T) -> String {
    quote!(#t).to_string()
}
