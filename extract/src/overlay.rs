//! Overlay files: contracts, ghost code, invariants and raw Verus text.
//!
//! Directives start a line with `//@ `:
//!   raw                      -> raw text appended to the crate (inside verus!)
//!   prelude                  -> raw text of module `vrt` (trusted run-time prelude); `prelude strict` for --strict
//!   fn KEY [(a, b)] [-> r]   -> contract text (requires/ensures/decreases)
//!   attr                     -> attribute lines for the last fn
//!   entry                    -> ghost statements at the start of the body of the last fn
//!   loop N [kind]            -> invariant text of the N-th loop (kind: for|while|loop|any)
//!   loopbody N [kind]        -> ghost statements at the start of the loop body
//!   loopend N [kind]         -> ghost statements at the end of the loop body
//!   (kind with `?`: the loop may be absent, as when a recursion takes its place)
//!   role NAME = KIND SUB [|| KIND SUB ..]  (the first that is found), e.g. letinit SUB  -> ${NAME} stands for the local whose initialiser contains SUB
//!   (a role NAME? need not be there)
//!   in trait NAME | in impl KEY -> extra items for that trait/impl
//!   external KEY             -> function kept as external_body with the contract given before
//!   dropimpl TRAITNAME       -> impls of this trait are not extracted
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct LoopOv {
    pub kind: String,
    pub inv: String,
    pub body: String,
    pub end: String,
}

#[derive(Default, Clone, Debug)]
pub struct FnOv {
    pub key: String,
    pub params: Option<Vec<String>>,
    pub ret: String,
    pub ret_ty: Option<String>,
    pub exit: String,
    pub contract: String,
    pub attrs: String,
    pub entry: String,
    pub loops: BTreeMap<usize, Vec<LoopOv>>,
    pub roles: Vec<(String, Vec<(String, String)>)>,
    pub external: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Overlay {
    pub raw: Vec<(String, String, String)>,
    pub prelude: String,
    pub prelude_strict: String,
    pub prelude_partial: String,
    pub fns: BTreeMap<String, FnOv>,
    pub in_items: BTreeMap<String, String>,
    pub drop_impls: Vec<String>,
    pub inline: Vec<String>,
}

pub fn load(dir: &str) -> Result<Overlay, String> {
    let mut ov = Overlay::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "vrs")).collect();
    files.sort();
    for f in files {
        let src = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
        parse(&src, &f.display().to_string(), &mut ov)?;
    }
    Ok(ov)
}

enum Sec {
    None,
    Raw(usize),
    Prelude(u8),
    Exit,
    Contract,
    Attr,
    Entry,
    Inv(usize, String),
    Body(usize, String),
    End(usize, String),
    In(String),
}

fn lp<'a>(f: &'a mut FnOv, n: usize, kind: &str) -> &'a mut LoopOv {
    let v = f.loops.entry(n).or_default();
    if let Some(i) = v.iter().position(|l| l.kind == kind) {
        &mut v[i]
    } else {
        v.push(LoopOv { kind: kind.to_string(), ..Default::default() });
        v.last_mut().unwrap()
    }
}

fn parse(src: &str, file: &str, ov: &mut Overlay) -> Result<(), String> {
    let mut sec = Sec::None;
    let mut cur = String::new();
    for (ln, line) in src.lines().enumerate() {
        if let Some(d) = line.strip_prefix("//@ ") {
            let d = d.trim();
            let (word, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            let nk = || -> (usize, String) {
                let (n, k) = rest.split_once(' ').unwrap_or((rest, "any"));
                (n.parse().unwrap_or(0), k.trim().to_string())
            };
            match word {
                "raw" => {
                    ov.raw.push((format!("{}:{}", file, ln + 1), String::new(), rest.to_string()));
                    sec = Sec::Raw(ov.raw.len() - 1);
                }
                "prelude" => sec = Sec::Prelude(match rest { "strict" => 1, "partial" => 2, _ => 0 }),
                "fn" => {
                    let (head, ret) = match rest.rsplit_once(" -> ") {
                        Some((h, r)) => (h.trim(), r.trim().to_string()),
                        None => (rest, "res".to_string()),
                    };
                    let (ret, ret_ty) = match ret.split_once(':') {
                        Some((a, b)) => (a.trim().to_string(), Some(b.trim().to_string())),
                        None => (ret, None),
                    };
                    let (key, params) = match head.find(" (") {
                        Some(i) => {
                            let p = head[i + 2..].trim_end_matches(')');
                            (head[..i].trim().to_string(), Some(p.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty() && s.split(":").next().unwrap().trim() != "self").collect()))
                        }
                        None => (head.to_string(), None),
                    };
                    if ov.fns.contains_key(&key) {
                        return Err(format!("{}:{}: duplicate fn {}", file, ln + 1, key));
                    }
                    cur = key.clone();
                    ov.fns.insert(key.clone(), FnOv { key: key.clone(), params, ret, ret_ty, ..Default::default() });
                    sec = Sec::Contract;
                }
                "attr" => sec = Sec::Attr,
                "entry" => sec = Sec::Entry,
                "exit" => sec = Sec::Exit,
                "loop" => {
                    let (n, k) = nk();
                    sec = Sec::Inv(n, k)
                }
                "loopbody" => {
                    let (n, k) = nk();
                    sec = Sec::Body(n, k)
                }
                "loopend" => {
                    let (n, k) = nk();
                    sec = Sec::End(n, k)
                }
                "role" => {
                    let (name, spec) = rest.split_once('=').ok_or(format!("{}:{}: role", file, ln + 1))?;
                    let alts = spec
                        .split("||")
                        .map(|a| {
                            let (kind, arg) = a.trim().split_once(' ').unwrap_or((a.trim(), ""));
                            (kind.to_string(), arg.trim().replace(' ', ""))
                        })
                        .collect();
                    ov.fns.get_mut(&cur).ok_or("role outside fn")?.roles.push((name.trim().to_string(), alts));
                }
                "in" => sec = Sec::In(rest.to_string()),
                "external" => {
                    ov.fns.get_mut(&cur).ok_or("external outside fn")?.external = true;
                }
                "dropimpl" => {
                    ov.drop_impls.push(rest.to_string());
                    sec = Sec::None;
                }
                _ => return Err(format!("{}:{}: unknown directive {}", file, ln + 1, word)),
            }
            continue;
        }
        let put = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &sec {
            Sec::None => {}
            Sec::Raw(i) => put(&mut ov.raw[*i].1),
            Sec::Prelude(s) => put(match *s { 1 => &mut ov.prelude_strict, 2 => &mut ov.prelude_partial, _ => &mut ov.prelude }),
            Sec::Exit => put(&mut ov.fns.get_mut(&cur).unwrap().exit),
            Sec::In(k) => put(ov.in_items.entry(k.clone()).or_default()),
            Sec::Contract => put(&mut ov.fns.get_mut(&cur).unwrap().contract),
            Sec::Attr => put(&mut ov.fns.get_mut(&cur).unwrap().attrs),
            Sec::Entry => put(&mut ov.fns.get_mut(&cur).unwrap().entry),
            Sec::Inv(n, k) => put(&mut lp(ov.fns.get_mut(&cur).unwrap(), *n, k).inv),
            Sec::Body(n, k) => put(&mut lp(ov.fns.get_mut(&cur).unwrap(), *n, k).body),
            Sec::End(n, k) => put(&mut lp(ov.fns.get_mut(&cur).unwrap(), *n, k).end),
        }
    }
    Ok(())
}
