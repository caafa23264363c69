//! Loading the module tree, and stable keys for functions.
use quote::ToTokens;
use std::path::{Path, PathBuf};
use syn::*;

pub struct Module {
    pub path: Vec<String>,
    pub file: String,
    pub items: Vec<Item>,
    pub children: Vec<Module>,
}

pub struct Krate {
    pub root: Module,
}

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s == "#[test]" || s.starts_with("#[cfg(test") || s.starts_with("#[cfg(all(test")
    })
}

pub fn cfg_test(attrs: &[Attribute]) -> bool {
    is_cfg_test(attrs)
}

pub fn attrs_of(it: &Item) -> &[Attribute] {
    match it {
        Item::Fn(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Const(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        _ => &[],
    }
}

/// "enabled when the verification hooks are on" is never used by this crate;
/// cfg attributes other than test are reported by leaving the item in place.
fn load_items(path: &[String], file: &Path, dir: &Path, items: Vec<Item>) -> std::result::Result<Module, String> {
    let mut m = Module { path: path.to_vec(), file: file.display().to_string(), items: vec![], children: vec![] };
    for it in items {
        if is_cfg_test(attrs_of(&it)) {
            continue;
        }
        match it {
            Item::Mod(md) => {
                let name = md.ident.to_string();
                let mut p = path.to_vec();
                p.push(name.clone());
                if let Some((_, its)) = md.content {
                    let sub = load_items(&p, file, &dir.join(&name), its)?;
                    m.children.push(sub);
                } else {
                    let explicit = md.attrs.iter().find_map(|a| {
                        if a.path().is_ident("path") {
                            if let Meta::NameValue(nv) = &a.meta {
                                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                                    return Some(s.value());
                                }
                            }
                        }
                        None
                    });
                    let cand: Vec<PathBuf> = match explicit {
                        Some(e) => vec![file.parent().unwrap().join(e)],
                        None => vec![dir.join(format!("{}.rs", name)), dir.join(&name).join("mod.rs")],
                    };
                    let f = cand.iter().find(|f| f.exists()).ok_or(format!("module {} not found", name))?;
                    let src = std::fs::read_to_string(f).map_err(|e| e.to_string())?;
                    let parsed = syn::parse_file(&src).map_err(|e| format!("{}: {}", f.display(), e))?;
                    let sub = load_items(&p, f, &dir.join(&name), parsed.items)?;
                    m.children.push(sub);
                }
            }
            Item::Fn(ref f) if path.is_empty() && f.sig.ident == "main" => {}
            other => m.items.push(other),
        }
    }
    Ok(m)
}

pub fn load(main: &str) -> std::result::Result<Krate, String> {
    let p = Path::new(main);
    let src = std::fs::read_to_string(p).map_err(|e| format!("{}: {}", main, e))?;
    let parsed = syn::parse_file(&src).map_err(|e| format!("{}: {}", main, e))?;
    let root = load_items(&[], p, p.parent().unwrap(), parsed.items)?;
    Ok(Krate { root })
}

/// Compact text of a type without whitespace, lifetimes or module paths.
pub fn ty_key(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let mut r = s.ident.to_string();
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                let v: Vec<String> = a
                    .args
                    .iter()
                    .filter_map(|x| match x {
                        GenericArgument::Type(t) => Some(ty_key(t)),
                        _ => None,
                    })
                    .collect();
                if !v.is_empty() {
                    r.push_str(&format!("<{}>", v.join(",")));
                }
            }
            r
        }
        Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, ty_key(&r.elem)),
        Type::Paren(p) => ty_key(&p.elem),
        Type::Group(p) => ty_key(&p.elem),
        other => other.to_token_stream().to_string().replace(' ', ""),
    }
}

pub fn trait_key(p: &syn::Path) -> String {
    ty_key(&Type::Path(TypePath { qself: None, path: p.clone() }))
}

pub fn impl_key(im: &ItemImpl) -> String {
    match &im.trait_ {
        Some((_, p, _)) => format!("<{} as {}>", ty_key(&im.self_ty), trait_key(p)),
        None => ty_key(&im.self_ty),
    }
}

pub fn visit_modules<'a>(m: &'a Module, f: &mut dyn FnMut(&'a Module)) {
    f(m);
    for c in &m.children {
        visit_modules(c, f);
    }
}

pub fn visit_modules_mut(m: &mut Module, f: &mut dyn FnMut(&mut Module)) {
    f(m);
    for c in &mut m.children {
        visit_modules_mut(c, f);
    }
}
