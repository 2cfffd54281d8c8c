//! Expansion of the file's own `macro_rules!` (named by `expand:`), by their definition in the file.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::parse::Parser;
use syn::visit_mut::VisitMut;

#[derive(Clone)]
enum Cap {
    One(TokenStream),
    Many(Vec<HashMap<String, Cap>>),
}
type Caps = HashMap<String, Cap>;

fn toks(t: TokenStream) -> Vec<TokenTree> {
    t.into_iter().collect()
}
fn punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
fn frag(kind: &str, input: &[TokenTree]) -> Option<(TokenStream, Vec<TokenTree>)> {
    let ts: TokenStream = input.iter().cloned().collect();
    fn go<T: syn::parse::Parse + quote::ToTokens>(ts: TokenStream) -> Option<(TokenStream, Vec<TokenTree>)> {
        (|i: syn::parse::ParseStream| {
            let e: T = i.parse()?;
            let rest: TokenStream = i.parse()?;
            Ok((e.to_token_stream(), toks(rest)))
        })
        .parse2(ts)
        .ok()
    }
    match kind {
        "expr" => go::<syn::Expr>(ts).map(|(e, r)| {
            let g = if toks(e.clone()).len() == 1 { e } else { TokenTree::Group(Group::new(Delimiter::Parenthesis, e)).into() };
            (g, r)
        }),
        "ident" => go::<syn::Ident>(ts),
        "ty" => go::<syn::Type>(ts),
        "literal" => go::<syn::Lit>(ts),
        "path" => go::<syn::Path>(ts),
        "block" => go::<syn::Block>(ts),
        "tt" => input.split_first().map(|(a, r)| (a.clone().into(), r.to_vec())),
        _ => None,
    }
}
/// names of the metavariables of a matcher
fn vars(pat: &[TokenTree], out: &mut Vec<String>) {
    for (i, t) in pat.iter().enumerate() {
        match t {
            TokenTree::Ident(n) if i > 0 && punct(pat.get(i - 1), '$') => out.push(n.to_string()),
            TokenTree::Group(g) => vars(&toks(g.stream()), out),
            _ => {}
        }
    }
}
/// matches a prefix of the input; returns the rest
fn matcher(pat: &[TokenTree], mut inp: Vec<TokenTree>, caps: &mut Caps) -> Option<Vec<TokenTree>> {
    let mut i = 0;
    while i < pat.len() {
        if punct(pat.get(i), '$') {
            match pat.get(i + 1)? {
                TokenTree::Ident(n) => {
                    let TokenTree::Ident(k) = pat.get(i + 3)? else { return None };
                    let (c, r) = frag(&k.to_string(), &inp)?;
                    caps.insert(n.to_string(), Cap::One(c));
                    inp = r;
                    i += 4;
                    continue;
                }
                TokenTree::Group(g) => {
                    let inner = toks(g.stream());
                    let mut j = i + 2;
                    let is_op = |t: Option<&TokenTree>| punct(t, '*') || punct(t, '+') || punct(t, '?');
                    let sep = if is_op(pat.get(j)) { None } else { let s = pat.get(j)?.clone(); j += 1; Some(s) };
                    let max1 = punct(pat.get(j), '?');
                    let mut all = vec![];
                    loop {
                        if max1 && all.len() == 1 {
                            break;
                        }
                        let mut cur = inp.clone();
                        if !all.is_empty() {
                            if let Some(s) = &sep {
                                match cur.first() {
                                    Some(t) if t.to_string() == s.to_string() => { cur.remove(0); }
                                    _ => break,
                                }
                            }
                        }
                        let mut c = Caps::new();
                        let before = cur.len();
                        match matcher(&inner, cur, &mut c) {
                            Some(r) if r.len() < before => { inp = r; all.push(c); }
                            _ => break,
                        }
                    }
                    let mut vs = vec![];
                    vars(&inner, &mut vs);
                    for v in vs {
                        caps.insert(v, Cap::Many(all.clone()));
                    }
                    i = j + 1;
                    continue;
                }
                _ => return None,
            }
        }
        match (&pat[i], inp.first()?) {
            (TokenTree::Group(p), TokenTree::Group(q)) if p.delimiter() == q.delimiter() => {
                let rest = matcher(&toks(p.stream()), toks(q.stream()), caps)?;
                if !rest.is_empty() {
                    return None;
                }
            }
            (p, q) if p.to_string() == q.to_string() => {}
            _ => return None,
        }
        inp.remove(0);
        i += 1;
    }
    Some(inp)
}
fn subst(body: &[TokenTree], caps: &Caps) -> Option<TokenStream> {
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < body.len() {
        if punct(body.get(i), '$') {
            match body.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    match caps.get(&n.to_string())? {
                        Cap::One(t) => out.extend(t.clone()),
                        Cap::Many(_) => return None,
                    }
                    i += 2;
                    continue;
                }
                Some(TokenTree::Group(g)) => {
                    let inner = toks(g.stream());
                    let mut j = i + 2;
                    let is_op = |t: Option<&TokenTree>| punct(t, '*') || punct(t, '+') || punct(t, '?');
                    let sep = if is_op(body.get(j)) { None } else { let s = body.get(j)?.clone(); j += 1; Some(s) };
                    let mut vs = vec![];
                    vars_used(&inner, &mut vs);
                    let reps = vs.iter().find_map(|v| match caps.get(v) { Some(Cap::Many(m)) => Some(m.clone()), _ => None })?;
                    for (k, r) in reps.iter().enumerate() {
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.push(s.clone());
                            }
                        }
                        let mut c = caps.clone();
                        c.extend(r.clone());
                        out.extend(subst(&inner, &c)?);
                    }
                    i = j + 1;
                    continue;
                }
                _ => return None,
            }
        }
        match &body[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst(&toks(g.stream()), caps)?);
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    Some(out.into_iter().collect())
}
fn vars_used(body: &[TokenTree], out: &mut Vec<String>) {
    vars(body, out)
}

type Defs = HashMap<String, Vec<(Vec<TokenTree>, Vec<TokenTree>)>>;
fn expand(defs: &Defs, mac: &syn::Macro) -> Option<TokenStream> {
    let rules = defs.get(&mac.path.get_ident()?.to_string())?;
    for (p, b) in rules {
        let mut caps = Caps::new();
        if let Some(rest) = matcher(p, toks(mac.tokens.clone()), &mut caps) {
            if rest.is_empty() {
                return subst(b, &caps);
            }
        }
    }
    None
}
struct Find<'a> { names: &'a [String], defs: Defs }
impl<'a> VisitMut for Find<'a> {
    fn visit_item_macro_mut(&mut self, m: &mut syn::ItemMacro) {
        let Some(n) = &m.ident else { return };
        if !self.names.contains(&n.to_string()) || self.defs.contains_key(&n.to_string()) {
            return;
        }
        let t = toks(m.mac.tokens.clone());
        let mut rules = vec![];
        let mut i = 0;
        while i + 3 < t.len() {
            if let (TokenTree::Group(p), TokenTree::Group(b)) = (&t[i], &t[i + 3]) {
                rules.push((toks(p.stream()), toks(b.stream())));
            }
            i += 4;
            if punct(t.get(i), ';') {
                i += 1;
            }
        }
        self.defs.insert(n.to_string(), rules);
    }
}
struct Do<'a> { defs: &'a Defs }
impl<'a> VisitMut for Do<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if let Some(t) = expand(self.defs, &m.mac) {
                if let Ok(mut x) = syn::parse2::<syn::Expr>(t.clone()) {
                    // `{{ .. }}` leaves one block around the body
                    while let syn::Expr::Block(b) = &x {
                        if b.label.is_none() && b.block.stmts.len() == 1 {
                            if let syn::Stmt::Expr(y, None) = &b.block.stmts[0] {
                                x = y.clone();
                                continue;
                            }
                        }
                        break;
                    }
                    *e = x;
                } else if let Ok(b) = syn::parse2::<syn::Block>(TokenTree::Group(Group::new(Delimiter::Brace, t)).into()) {
                    *e = syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b });
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}
pub fn run(f: &mut syn::File, names: &[String]) {
    if names.is_empty() {
        return;
    }
    let mut find = Find { names, defs: Defs::new() };
    find.visit_file_mut(f);
    let defs = find.defs;
    let mut items = vec![];
    for it in std::mem::take(&mut f.items) {
        if let syn::Item::Macro(m) = &it {
            if m.ident.is_none() {
                if let Some(t) = expand(&defs, &m.mac) {
                    if let Ok(x) = syn::parse2::<syn::File>(t) {
                        items.extend(x.items);
                        continue;
                    }
                }
            }
        }
        items.push(it);
    }
    f.items = items;
    Do { defs: &defs }.visit_file_mut(f);
}
