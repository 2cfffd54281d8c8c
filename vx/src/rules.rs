//! Rewrite rules: `rule: PATTERN => REPLACEMENT` over expressions with `$x` metavariables,
//! `type: Name => Template` over types (`@0` = first generic argument), `macro: name => EXPR`,
//! `chain: Root::* => EXPR` (a method chain rooted at a call/macro of that path),
//! `dropstmt: PATTERN`.
use crate::{err, Directive, VxErr, R};
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};

#[derive(Clone, Default)]
pub struct Rules {
    pub exprs: Vec<(syn::Expr, syn::Expr)>,
    pub types: Vec<(String, String)>,
    pub macros: Vec<(String, syn::Expr)>,
    pub chains: Vec<(String, syn::Expr)>,
    pub drops: Vec<syn::Expr>,
    pub droplets: Vec<String>,
    pub pats: Vec<(syn::Pat, syn::Pat)>,
}

fn mv(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '$' {
            o.push_str("__mv_");
        } else {
            o.push(c);
        }
    }
    o
}

fn parse_expr(s: &str) -> R<syn::Expr> {
    syn::parse_str::<syn::Expr>(&mv(s)).map_err(|e| VxErr(format!("bad rule expr `{s}`: {e}")))
}

fn split_rule(s: &str) -> R<(&str, &str)> {
    s.split_once(" ==> ")
        .ok_or_else(|| VxErr(format!("rule without ==>: {s}")))
}

impl Rules {
    pub fn add(&mut self, d: &Directive) -> R<()> {
        for (k, v) in &d.entries {
            match k.as_str() {
                "rule" => {
                    let (a, b) = split_rule(v)?;
                    self.exprs.push((parse_expr(a)?, parse_expr(b)?));
                }
                "type" => {
                    let (a, b) = split_rule(v)?;
                    self.types.push((a.trim().into(), b.trim().into()));
                }
                "macro" => {
                    let (a, b) = split_rule(v)?;
                    self.macros.push((a.trim().into(), parse_expr(b)?));
                }
                "chain" => {
                    let (a, b) = split_rule(v)?;
                    self.chains.push((a.trim().into(), parse_expr(b)?));
                }
                "droplet" => self.droplets.push(v.trim().into()),
                "dropstmt" => self.drops.push(parse_expr(v)?),
                "pat" => {
                    let (a, b) = split_rule(v)?;
                    use syn::parse::Parser;
                    let p = |s: &str| {
                        syn::Pat::parse_single
                            .parse_str(&mv(s))
                            .map_err(|e| VxErr(format!("bad pat rule {s}: {e}")))
                    };
                    self.pats.push((p(a)?, p(b)?));
                }
                _ => {}
            }
        }
        Ok(())
    }
    pub fn with(&self, d: &Directive) -> R<Rules> {
        let mut local = Rules::default();
        local.add(d)?;
        // local rules first
        let mut r = local;
        r.exprs.extend(self.exprs.iter().cloned());
        r.types.extend(self.types.iter().cloned());
        r.macros.extend(self.macros.iter().cloned());
        r.chains.extend(self.chains.iter().cloned());
        r.drops.extend(self.drops.iter().cloned());
        r.droplets.extend(self.droplets.iter().cloned());
        r.pats.extend(self.pats.iter().cloned());
        Ok(r)
    }
    pub fn apply_block(&self, b: &mut syn::Block) {
        Ap { r: self }.visit_block_mut(b);
    }
    pub fn apply_item(&self, i: &mut syn::Item) {
        Ap { r: self }.visit_item_mut(i);
    }
    pub fn apply_type(&self, t: &mut syn::Type) {
        Ap { r: self }.visit_type_mut(t);
    }
}

struct Ap<'a> {
    r: &'a Rules,
}

type B = HashMap<String, Bound>;
#[derive(Clone)]
enum Bound {
    E(syn::Expr),
    P(syn::Pat),
    T(syn::Type),
    I(syn::Ident),
}

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn is_mv_ident(i: &syn::Ident) -> Option<String> {
    let s = i.to_string();
    s.strip_prefix("__mv_").map(|s| s.to_string())
}

fn bind(b: &mut B, k: String, v: Bound) -> bool {
    if let Some(o) = b.get(&k) {
        let s = |x: &Bound| match x {
            Bound::E(e) => ts(e),
            Bound::P(p) => ts(p),
            Bound::T(t) => ts(t),
            Bound::I(i) => i.to_string(),
        };
        return s(o) == s(&v);
    }
    b.insert(k, v);
    true
}

pub fn strip_paren(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => strip_paren(&p.expr),
        syn::Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

fn m_ty(p: &syn::Type, t: &syn::Type, b: &mut B) -> bool {
    if let syn::Type::Path(tp) = p {
        if let Some(i) = tp.path.get_ident() {
            if let Some(k) = is_mv_ident(i) {
                return bind(b, k, Bound::T(t.clone()));
            }
        }
    }
    if let syn::Type::Infer(_) = p {
        return true;
    }
    match (p, t) {
        (syn::Type::Path(a), syn::Type::Path(c)) => m_path(&a.path, &c.path, b),
        (syn::Type::Reference(a), syn::Type::Reference(c)) => m_ty(&a.elem, &c.elem, b),
        _ => ts(p) == ts(t),
    }
}

fn m_path(p: &syn::Path, t: &syn::Path, b: &mut B) -> bool {
    if p.segments.len() != t.segments.len() {
        return false;
    }
    p.segments.iter().zip(&t.segments).all(|(x, y)| {
        let idok = if let Some(k) = is_mv_ident(&x.ident) {
            bind(b, k, Bound::I(y.ident.clone()))
        } else {
            x.ident == y.ident
        };
        idok && m_pargs(&x.arguments, &y.arguments, b)
    })
}

fn m_pargs(p: &syn::PathArguments, t: &syn::PathArguments, b: &mut B) -> bool {
    use syn::PathArguments::*;
    match (p, t) {
        (None, None) => true,
        (None, AngleBracketed(_)) => true, // pattern without generics matches any
        (AngleBracketed(x), AngleBracketed(y)) => m_ab(x, y, b),
        _ => ts(p) == ts(t),
    }
}

fn m_ab(
    x: &syn::AngleBracketedGenericArguments,
    y: &syn::AngleBracketedGenericArguments,
    b: &mut B,
) -> bool {
    x.args.len() == y.args.len()
        && x.args.iter().zip(&y.args).all(|(x, y)| match (x, y) {
            (syn::GenericArgument::Type(x), syn::GenericArgument::Type(y)) => m_ty(x, y, b),
            _ => ts(x) == ts(y),
        })
}

fn m_pat(p: &syn::Pat, t: &syn::Pat, b: &mut B) -> bool {
    if let syn::Pat::Ident(i) = p {
        if i.subpat.is_none() {
            if let Some(k) = is_mv_ident(&i.ident) {
                return bind(b, k, Bound::P(t.clone()));
            }
        }
    }
    use syn::Pat::*;
    match (p, t) {
        (TupleStruct(x), TupleStruct(y)) => {
            m_path(&x.path, &y.path, b)
                && x.elems.len() == y.elems.len()
                && x.elems.iter().zip(&y.elems).all(|(x, y)| m_pat(x, y, b))
        }
        (Tuple(x), Tuple(y)) => {
            x.elems.len() == y.elems.len() && x.elems.iter().zip(&y.elems).all(|(x, y)| m_pat(x, y, b))
        }
        (Reference(x), Reference(y)) => m_pat(&x.pat, &y.pat, b),
        (Path(x), Path(y)) => m_path(&x.path, &y.path, b),
        (Struct(x), Struct(y)) => {
            m_path(&x.path, &y.path, b)
                && x.fields.len() == y.fields.len()
                && x.fields
                    .iter()
                    .zip(&y.fields)
                    .all(|(x, y)| ts(&x.member) == ts(&y.member) && m_pat(&x.pat, &y.pat, b))
        }
        _ => ts(p) == ts(t),
    }
}

fn m_opt(p: &Option<Box<syn::Expr>>, t: &Option<Box<syn::Expr>>, b: &mut B) -> bool {
    match (p, t) {
        (None, None) => true,
        (Some(x), Some(y)) => m(x, y, b),
        _ => false,
    }
}

fn m_args<'a>(
    p: impl ExactSizeIterator<Item = &'a syn::Expr>,
    t: impl ExactSizeIterator<Item = &'a syn::Expr>,
    b: &mut B,
) -> bool {
    p.len() == t.len() && p.zip(t).all(|(x, y)| m(x, y, b))
}

fn has_mv(s: &str) -> bool {
    s.contains("__mv_")
}

pub(crate) fn macro_args(m: &syn::Macro) -> Option<Vec<syn::Expr>> {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
    p.parse2(m.tokens.clone()).ok().map(|p| p.into_iter().collect())
}

/// `format!("a{x}b{:b}", y)` becomes `vcat(vcat(vcat(vlit("a"), vdisp(&(x))), vlit("b")), vbin(&(y)))`
fn fmt_expand(mac: &syn::Macro) -> Option<syn::Expr> {
    let args = macro_args(mac)?;
    let lit = match args.first()? {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(),
        _ => return None,
    };
    let mut named: Vec<(String, syn::Expr)> = vec![];
    let mut pos = vec![];
    for a in args.iter().skip(1) {
        if let syn::Expr::Assign(x) = a {
            named.push((ts(&x.left), (*x.right).clone()));
        } else {
            pos.push(a.clone());
        }
    }
    let mut next = 0;
    let mut pieces: Vec<syn::Expr> = vec![];
    let mut cur = String::new();
    let flush = |cur: &mut String, pieces: &mut Vec<syn::Expr>| {
        if !cur.is_empty() {
            let l = syn::LitStr::new(cur, proc_macro2::Span::call_site());
            pieces.push(syn::parse_quote!(vlit(#l)));
            cur.clear();
        }
    };
    let ch: Vec<char> = lit.chars().collect();
    let mut i = 0;
    while i < ch.len() {
        if ch[i] == '{' && ch.get(i + 1) == Some(&'{') {
            cur.push('{');
            i += 2;
        } else if ch[i] == '}' && ch.get(i + 1) == Some(&'}') {
            cur.push('}');
            i += 2;
        } else if ch[i] == '{' {
            let end = i + ch[i..].iter().position(|c| *c == '}')?;
            let body: String = ch[i + 1..end].iter().collect();
            i = end + 1;
            flush(&mut cur, &mut pieces);
            let (name, spec) = body.split_once(':').unwrap_or((&body, ""));
            let name = name.trim();
            let arg: syn::Expr = if name.is_empty() {
                next += 1;
                pos.get(next - 1)?.clone()
            } else if let Ok(k) = name.parse::<usize>() {
                pos.get(k)?.clone()
            } else if let Some((_, x)) = named.iter().find(|(n, _)| n == name) {
                x.clone()
            } else {
                syn::parse_str(name).ok()?
            };
            let f: syn::Expr = match spec {
                "" => syn::parse_quote!(vdisp),
                "b" => syn::parse_quote!(vbin),
                "x" => syn::parse_quote!(vhex),
                _ => return None,
            };
            pieces.push(syn::parse_quote!(#f(&(#arg))));
        } else {
            cur.push(ch[i]);
            i += 1;
        }
    }
    flush(&mut cur, &mut pieces);
    if next != pos.len() && next != 0 {
        return None;
    }
    let mut it = pieces.into_iter();
    let Some(first) = it.next() else { return syn::parse_str("vlit(\"\")").ok() };
    Some(it.fold(first, |a, p| syn::parse_quote!(vcat(#a, #p))))
}

fn m(p: &syn::Expr, t: &syn::Expr, b: &mut B) -> bool {
    use syn::Expr::*;
    let p = strip_paren(p);
    if let Path(x) = p {
        if let Some(i) = x.path.get_ident() {
            if let Some(k) = is_mv_ident(i) {
                return bind(b, k, Bound::E(t.clone()));
            }
        }
    }
    let t = strip_paren(t);
    match (p, t) {
        (Path(x), Path(y)) => m_path(&x.path, &y.path, b) && x.qself.is_some() == y.qself.is_some(),
        (MethodCall(x), MethodCall(y)) => {
            let idok = if let Some(k) = is_mv_ident(&x.method) {
                bind(b, k, Bound::I(y.method.clone()))
            } else {
                x.method == y.method
            };
            idok && m(&x.receiver, &y.receiver, b)
                && match (&x.turbofish, &y.turbofish) {
                    (None, _) => true,
                    (Some(a), Some(c)) => m_ab(a, c, b),
                    _ => false,
                }
                && m_args(x.args.iter(), y.args.iter(), b)
        }
        (Call(x), Call(y)) => m(&x.func, &y.func, b) && m_args(x.args.iter(), y.args.iter(), b),
        (Field(x), Field(y)) => {
            let idok = match (&x.member, &y.member) {
                (syn::Member::Named(a), syn::Member::Named(c)) => {
                    if let Some(k) = is_mv_ident(a) {
                        bind(b, k, Bound::I(c.clone()))
                    } else {
                        a == c
                    }
                }
                (a, c) => ts(a) == ts(c),
            };
            idok && m(&x.base, &y.base, b)
        }
        (Unary(x), Unary(y)) => ts(&x.op) == ts(&y.op) && m(&x.expr, &y.expr, b),
        (Binary(x), Binary(y)) => {
            ts(&x.op) == ts(&y.op) && m(&x.left, &y.left, b) && m(&x.right, &y.right, b)
        }
        (Reference(x), Reference(y)) => {
            x.mutability.is_some() == y.mutability.is_some() && m(&x.expr, &y.expr, b)
        }
        (Try(x), Try(y)) => m(&x.expr, &y.expr, b),
        (Index(x), Index(y)) => m(&x.expr, &y.expr, b) && m(&x.index, &y.index, b),
        (Cast(x), Cast(y)) => m(&x.expr, &y.expr, b) && m_ty(&x.ty, &y.ty, b),
        (Range(x), Range(y)) => {
            ts(&x.limits) == ts(&y.limits) && m_opt(&x.start, &y.start, b) && m_opt(&x.end, &y.end, b)
        }
        (Return(x), Return(y)) => m_opt(&x.expr, &y.expr, b),
        (Tuple(x), Tuple(y)) => m_args(x.elems.iter(), y.elems.iter(), b),
        (Array(x), Array(y)) => m_args(x.elems.iter(), y.elems.iter(), b),
        (Assign(x), Assign(y)) => m(&x.left, &y.left, b) && m(&x.right, &y.right, b),
        (Closure(x), Closure(y)) => {
            let (xi, yi): (Vec<_>, Vec<_>) = (x.inputs.iter().collect(), y.inputs.iter().collect());
            xi.len() == yi.len()
                && xi.iter().zip(&yi).all(|(x, y)| m_pat(x, y, b))
                && m(&x.body, &y.body, b)
        }
        (Macro(x), Macro(y)) => {
            if ts(&x.mac.path) != ts(&y.mac.path) {
                return false;
            }
            if !has_mv(&x.mac.tokens.to_string()) {
                return x.mac.tokens.to_string() == y.mac.tokens.to_string();
            }
            match (macro_args(&x.mac), macro_args(&y.mac)) {
                (Some(a), Some(c)) => m_args(a.iter(), c.iter(), b),
                _ => false,
            }
        }
        (Struct(x), Struct(y)) => {
            m_path(&x.path, &y.path, b)
                && x.fields.len() == y.fields.len()
                && x.fields.iter().all(|f| {
                    y.fields
                        .iter()
                        .find(|g| ts(&g.member) == ts(&f.member))
                        .map(|g| m(&f.expr, &g.expr, b))
                        .unwrap_or(false)
                })
        }
        (Block(x), Block(y)) => ts(x) == ts(y),
        (Let(x), Let(y)) => m_pat(&x.pat, &y.pat, b) && m(&x.expr, &y.expr, b),
        (If(x), If(y)) => {
            // a branch that is only a metavariable matches any branch
            let any = matches!(&x.then_branch.stmts[..], [syn::Stmt::Expr(Path(p), None)] if p.path.get_ident().and_then(is_mv_ident).is_some());
            m(&x.cond, &y.cond, b)
                && (any || ts(&x.then_branch) == ts(&y.then_branch))
                && match (&x.else_branch, &y.else_branch) {
                    (None, None) => true,
                    (Some(a), Some(c)) => ts(&a.1) == ts(&c.1),
                    _ => false,
                }
        }
        _ => ts(p) == ts(t),
    }
}

struct Subst<'a>(&'a B);
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(k) = is_mv_ident(i) {
                    match self.0.get(&k) {
                        Some(Bound::E(x)) => {
                            *e = paren_if(x.clone());
                            return;
                        }
                        Some(Bound::I(x)) => {
                            *e = syn::parse_quote!(#x);
                            return;
                        }
                        Some(Bound::T(x)) => {
                            *e = syn::parse_quote!(#x);
                            return;
                        }
                        _ => {}
                    }
                }
            }
        }
        if let syn::Expr::Macro(m) = e {
            if has_mv(&m.mac.tokens.to_string()) {
                if let Some(mut args) = macro_args(&m.mac) {
                    for a in &mut args {
                        self.visit_expr_mut(a);
                    }
                    m.mac.tokens = quote::quote!(#(#args),*);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        if let Some(k) = is_mv_ident(i) {
            if let Some(Bound::I(x)) = self.0.get(&k) {
                *i = x.clone();
            }
        }
    }
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::Ident(i) = p {
            if let Some(k) = is_mv_ident(&i.ident) {
                if let Some(Bound::P(x)) = self.0.get(&k) {
                    *p = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            if let Some(i) = p.path.get_ident() {
                if let Some(k) = is_mv_ident(i) {
                    if let Some(Bound::T(x)) = self.0.get(&k) {
                        *t = x.clone();
                        return;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn paren_if(e: syn::Expr) -> syn::Expr {
    use syn::Expr::*;
    match &e {
        Path(_) | MethodCall(_) | Call(_) | Field(_) | Lit(_) | Paren(_) | Macro(_) | Index(_) | Block(_)
        | Tuple(_) | Try(_) | Array(_) => e,
        _ => syn::parse_quote!((#e)),
    }
}

fn chain_root(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::MethodCall(m) => chain_root(&m.receiver),
        syn::Expr::Call(c) => match &*c.func {
            syn::Expr::Path(p) => Some(
                p.path
                    .segments
                    .iter()
                    .map(|s| s.ident.to_string())
                    .collect::<Vec<_>>()
                    .join("::"),
            ),
            _ => None,
        },
        _ => None,
    }
}

impl<'a> Ap<'a> {
    fn try_rules(&self, e: &mut syn::Expr) -> bool {
        if let Some(root) = chain_root(e) {
            for (pat, rep) in &self.r.chains {
                let hit = match pat.strip_suffix("::*") {
                    Some(pre) => root.rsplit_once("::").map(|(a, _)| a == pre).unwrap_or(false),
                    None => &root == pat,
                };
                if hit {
                    *e = rep.clone();
                    return true;
                }
            }
        }
        if let syn::Expr::Macro(mm) = e {
            let name = ts(&mm.mac.path);
            for (n, rep) in &self.r.macros {
                if *n == name {
                    if ts(rep) == "__vfmt" {
                        match fmt_expand(&mm.mac) {
                            Some(r) => {
                                *e = r;
                                return true;
                            }
                            None => continue,
                        }
                    }
                    let mut b = B::new();
                    if has_mv(&ts(rep)) {
                        let Some(args) = macro_args(&mm.mac) else { continue };
                        for (i, a) in args.into_iter().enumerate() {
                            b.insert(format!("{}", i + 1), Bound::E(a));
                        }
                    }
                    let mut r = rep.clone();
                    Subst(&b).visit_expr_mut(&mut r);
                    *e = r;
                    return true;
                }
            }
        }
        for (p, rep) in &self.r.exprs {
            let mut b = B::new();
            if m(p, e, &mut b) {
                let mut r = rep.clone();
                Subst(&b).visit_expr_mut(&mut r);
                *e = r;
                return true;
            }
        }
        false
    }
}

impl<'a> VisitMut for Ap<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // outermost first, up to a few times, then children, then once more
        let mut n = 0;
        while n < 4 && self.try_rules(e) {
            n += 1;
        }
        // look inside macros whose arguments are expressions (vec!, matches! handled elsewhere)
        if let syn::Expr::Macro(mm) = e {
            if ts(&mm.mac.path) == "vec" {
                if let Some(mut args) = macro_args(&mm.mac) {
                    for a in &mut args {
                        self.visit_expr_mut(a);
                    }
                    mm.mac.tokens = quote::quote!(#(#args),*);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let mut n = 0;
        while n < 4 && self.try_rules(e) {
            n += 1;
        }
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        // the else block of a `let .. else` must diverge syntactically
        if let Some((_, e)) = l.init.as_mut().and_then(|i| i.diverge.as_mut()) {
            if let syn::Expr::Block(b) = &mut **e {
                if let Some(syn::Stmt::Expr(x, semi)) = b.block.stmts.last_mut() {
                    if matches!(ts(x).replace(" ", "").as_str(), "vdiverge()" | "vpanic()") {
                        *x = syn::parse_quote!(return #x);
                        *semi = Some(Default::default());
                    }
                }
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let drops = &self.r.drops;
        b.stmts.retain(|s| {
            let e = match s {
                syn::Stmt::Expr(e, _) => e.clone(),
                syn::Stmt::Macro(m) => syn::Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() }),
                syn::Stmt::Local(l) => {
                    return !matches!(&l.pat, syn::Pat::Ident(i) if self.r.droplets.iter().any(|d| i.ident == d));
                }
                _ => return true,
            };
            !drops.iter().any(|d| {
                if let (syn::Expr::Macro(x), syn::Expr::Macro(y)) = (d, &e) {
                    if x.mac.tokens.is_empty() {
                        return ts(&x.mac.path) == ts(&y.mac.path);
                    }
                }
                let mut bb = B::new();
                m(d, &e, &mut bb)
            })
        });
        for s in &mut b.stmts {
            if let syn::Stmt::Macro(mm) = s {
                let mut e = syn::Expr::Macro(syn::ExprMacro { attrs: vec![], mac: mm.mac.clone() });
                let before = ts(&e);
                self.visit_expr_mut(&mut e);
                if ts(&e) != before {
                    let semi = mm.semi_token;
                    *s = syn::Stmt::Expr(e, semi);
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        for (a, c) in &self.r.pats {
            let mut b = B::new();
            if m_pat(a, p, &mut b) {
                let mut r = c.clone();
                Subst(&b).visit_pat_mut(&mut r);
                *p = r;
                break;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t {
            let last = p.path.segments.last().unwrap();
            let nm = last.ident.to_string();
            for (a, c) in &self.r.types {
                if *a == nm {
                    let args: Vec<String> = match &last.arguments {
                        syn::PathArguments::AngleBracketed(x) => x.args.iter().map(|a| ts(a)).collect(),
                        _ => vec![],
                    };
                    let mut s = c.clone();
                    for (i, a) in args.iter().enumerate() {
                        s = s.replace(&format!("@{i}"), a);
                    }
                    if let Ok(n) = syn::parse_str::<syn::Type>(&s) {
                        *t = n;
                    }
                    return;
                }
            }
        }
    }
}

#[allow(unused)]
fn _e() -> R<()> {
    err("")
}
