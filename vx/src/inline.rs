//! Inlining of helper functions that carry no contract: a function of the same source file that
//! the extracted function calls and that the script does not mention is beta-reduced at its call
//! sites (arguments bound by `let`, early `return Err(..)`/`?` only where the call is itself
//! followed by `?` or is in tail position).
use crate::{find_fn, FoundFn, VxErr, R};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

struct Rets(usize, usize, usize); // returns, returns of Err, question marks
impl<'a> Visit<'a> for Rets {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        self.0 += 1;
        if let Some(e) = &r.expr {
            if let Expr::Call(c) = &**e {
                if let Expr::Path(p) = &*c.func {
                    if p.path.is_ident("Err") {
                        self.1 += 1;
                    }
                }
            }
        }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'a syn::ExprTry) {
        self.2 += 1;
        syn::visit::visit_expr_try(self, r);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

struct Inl<'a> {
    file: &'a syn::File,
    self_ty: Option<String>,
    known: &'a BTreeSet<String>,
    me: String,
    depth: usize,
    notes: Vec<String>,
    err: Option<VxErr>,
    did: bool,
    under_try: bool,
}

fn consts<'a>(f: &'a syn::File, name: &str) -> Option<&'a syn::Expr> {
    for it in crate::items(&f.items) {
        if let syn::Item::Const(c) = it {
            if c.ident == name {
                return Some(&c.expr);
            }
        }
    }
    None
}

impl<'a> Inl<'a> {
    fn lookup(&self, path: &str, method: bool) -> Option<FoundFn> {
        let short = path.rsplit("::").next().unwrap();
        if self.known.contains(short) || short == self.me {
            return None;
        }
        let mut cands = vec![];
        if method {
            if let Some(t) = &self.self_ty {
                cands.push(format!("{t}::{short}"));
            }
        } else {
            cands.push(path.replace("Self::", &format!("{}::", self.self_ty.clone().unwrap_or_default())));
            if !path.contains("::") {
                cands.push(path.to_string());
            }
        }
        for c in cands {
            if let Ok(f) = find_fn(self.file, &c) {
                return Some(f);
            }
        }
        None
    }

    fn expand(&mut self, f: FoundFn, recv: Option<&Expr>, args: Vec<Expr>, tail: bool) -> Option<Expr> {
        let mut f = f;
        crate::DropAttrs.visit_block_mut(&mut f.block);
        let mut r = Rets(0, 0, 0);
        r.visit_block(&f.block);
        let ok = (r.0 == 0 && r.2 == 0) || tail || (self.under_try && r.0 == r.1);
        if !ok {
            return None;
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut it = args.into_iter();
        // bind to temporaries first to avoid capture
        let mut binds: Vec<(syn::Pat, Expr)> = vec![];
        for p in &f.sig.inputs {
            match p {
                syn::FnArg::Receiver(_) => {
                    let rcv = match recv {
                        Some(r) => r.clone(),
                        None => it.next()?,
                    };
                    match &rcv {
                        Expr::Path(p) if p.path.is_ident("self") => {}
                        _ => return None,
                    }
                }
                syn::FnArg::Typed(t) => binds.push(((*t.pat).clone(), it.next()?)),
            }
        }
        let names: Vec<String> = binds.iter().flat_map(|(p, _)| crate::desugar::pat_idents(p)).collect();
        let captured = binds.iter().any(|(_, e)| {
            struct U<'b>(&'b [String], bool);
            impl<'b, 'ast> Visit<'ast> for U<'b> {
                fn visit_ident(&mut self, i: &'ast syn::Ident) {
                    if self.0.iter().any(|n| i == n) {
                        self.1 = true;
                    }
                }
            }
            let mut u = U(&names, false);
            u.visit_expr(e);
            u.1
        });
        if captured && binds.len() > 1 {
            for (i, (p, e)) in binds.iter().enumerate() {
                if let syn::Pat::Ident(pi) = p {
                    if let Expr::Path(x) = e {
                        if x.path.get_ident() == Some(&pi.ident) {
                            continue;
                        }
                    }
                }
                let t = quote::format_ident!("__arg{}", i);
                lets.push(parse_quote!(let #t = #e;));
            }
            for (i, (p, e)) in binds.iter().enumerate() {
                if let syn::Pat::Ident(pi) = p {
                    if let Expr::Path(x) = e {
                        if x.path.get_ident() == Some(&pi.ident) {
                            continue;
                        }
                    }
                }
                let t = quote::format_ident!("__arg{}", i);
                lets.push(parse_quote!(let #p = #t;));
            }
        } else {
            for (p, e) in binds {
                lets.push(parse_quote!(let #p = #e;));
            }
        }
        let st = &f.block.stmts;
        self.did = true;
        self.notes.push(format!("inlined helper {}", f.sig.ident));
        Some(parse_quote!({ #(#lets)* #(#st)* }))
    }

    fn call_target(&self, e: &Expr) -> Option<(FoundFn, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let path = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                    let f = self.lookup(&path, false)?;
                    return Some((f, None, c.args.iter().cloned().collect()));
                }
                None
            }
            Expr::MethodCall(m) => {
                let f = self.lookup(&m.method.to_string(), true)?;
                Some((f, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
}

impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some((f, r, a)) = self.call_target(&t.expr) {
                self.under_try = true;
                let x = self.expand(f, r.as_ref(), a, false);
                self.under_try = false;
                if let Some(x) = x {
                    *t.expr = x;
                }
            }
        } else if let Some((f, r, a)) = self.call_target(e) {
            if let Some(x) = self.expand(f, r.as_ref(), a, false) {
                *e = x;
            }
        }
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                let s = i.to_string();
                if s.len() > 1 && s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) && !self.known.contains(&s) {
                    if let Some(c) = consts(self.file, &s) {
                        *e = parse_quote!((#c));
                        self.did = true;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn tail_inline(v: &mut Inl, e: &mut Expr) {
    if let Some((f, r, a)) = v.call_target(e) {
        if let Some(x) = v.expand(f, r.as_ref(), a, true) {
            *e = x;
        }
        return;
    }
    match e {
        Expr::Block(b) => tail_block(v, &mut b.block),
        Expr::Match(m) => {
            for a in &mut m.arms {
                tail_inline(v, &mut a.body)
            }
        }
        Expr::If(i) => {
            tail_block(v, &mut i.then_branch);
            if let Some((_, e)) = &mut i.else_branch {
                tail_inline(v, e)
            }
        }
        _ => {}
    }
}
fn tail_block(v: &mut Inl, b: &mut syn::Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        tail_inline(v, e)
    }
}

pub fn inline_block(
    file: &syn::File,
    f: &mut FoundFn,
    known: &BTreeSet<String>,
    notes: &mut Vec<String>,
    me: &str,
) -> R<()> {
    let self_ty = f.self_ty.as_ref().map(crate::ty_last);
    for depth in 0..4 {
        let mut v = Inl {
            file,
            self_ty: self_ty.clone(),
            known,
            me: me.to_string(),
            depth,
            notes: vec![],
            err: None,
            did: false,
            under_try: false,
        };
        tail_block(&mut v, &mut f.block);
        v.visit_block_mut(&mut f.block);
        let _ = (v.depth, &v.err);
        notes.extend(v.notes);
        if !v.did {
            break;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- local closures
/// `let f = |a, b| body;` whose only uses are calls `f(x, y)`: beta-reduced at the call sites.
/// Closure-valued arguments (`&|l, r| ..`) are substituted first, so nested applications reduce too.
/// Refused (left alone) when the body returns, or when an identifier it captures is bound again elsewhere.
pub fn closures(b: &mut syn::Block, notes: &mut Vec<String>) {
    for _ in 0..8 {
        let mut v = ClosFind { done: false, notes: vec![] };
        v.visit_block_mut(b);
        notes.extend(v.notes);
        if !v.done { break }
    }
}
struct ClosFind { done: bool, notes: Vec<String> }
fn closure_of(e: &Expr) -> Option<&syn::ExprClosure> {
    match e {
        Expr::Closure(c) => Some(c),
        Expr::Reference(r) => closure_of(&r.expr),
        Expr::Paren(r) => closure_of(&r.expr),
        _ => None,
    }
}
struct Uses<'a>(&'a str, usize, usize); // all mentions, call mentions
impl<'a, 'b> Visit<'b> for Uses<'a> {
    fn visit_ident(&mut self, i: &'b syn::Ident) { if i == self.0 { self.1 += 1 } }
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if let Expr::Path(p) = &*c.func { if p.path.is_ident(self.0) { self.2 += 1 } }
        syn::visit::visit_expr_call(self, c)
    }
    fn visit_macro(&mut self, m: &'b syn::Macro) {
        for t in m.tokens.clone() { if t.to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == self.0) { self.1 += 1000 } }
    }
}
struct SubstCalls<'a> { name: &'a str, c: &'a syn::ExprClosure, n: usize }
impl<'a> VisitMut for SubstCalls<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(call) = e {
            if let Expr::Path(p) = &*call.func {
                if p.path.is_ident(self.name) && call.args.len() == self.c.inputs.len() {
                    if let Some(x) = beta(self.c, call.args.iter().cloned().collect()) { *e = x; self.n += 1 }
                }
            }
        }
    }
}
fn beta(c: &syn::ExprClosure, args: Vec<Expr>) -> Option<Expr> {
    let mut body: Expr = (*c.body).clone();
    let mut lets: Vec<Stmt> = vec![]; let mut lets2: Vec<Stmt> = vec![];
    let pats: Vec<syn::Pat> = c.inputs.iter().map(|p| match p { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
    let names: Vec<String> = pats.iter().flat_map(crate::desugar::pat_idents).collect();
    for (i, (p, a)) in pats.iter().zip(args).enumerate() {
        if let (syn::Pat::Ident(pi), Some(cl)) = (p, closure_of(&a)) {
            let nm = pi.ident.to_string();
            let mut u = Uses(&nm, 0, 0); u.visit_expr(&body);
            if u.1 != u.2 { return None }
            let mut s = SubstCalls { name: &nm, c: cl, n: 0 };
            s.visit_expr_mut(&mut body);
            continue;
        }
        if let (syn::Pat::Ident(pi), Expr::Path(x)) = (p, &a) { if pi.mutability.is_none() && x.path.is_ident(&pi.ident) { continue } }
        struct M<'b>(&'b [String], bool);
        impl<'b, 'c> Visit<'c> for M<'b> { fn visit_ident(&mut self, i: &'c syn::Ident) { if self.0.iter().any(|n| i == n) { self.1 = true } } }
        let mut m = M(&names, false); m.visit_expr(&a);
        if m.1 {
            let t = quote::format_ident!("__carg{}", i);
            lets.push(parse_quote!(let #t = #a;)); lets2.push(parse_quote!(let #p = #t;));
        } else { lets2.push(parse_quote!(let #p = #a;)) }
    }
    if lets.is_empty() && lets2.is_empty() { return Some(match body { Expr::Block(_) => body, b => parse_quote!({ #b }) }) }
    Some(parse_quote!({ #(#lets)* #(#lets2)* #body }))
}
/// calls of the form `f(..)?`, and mentions inside of closures
struct Tried<'a>(&'a str, usize, usize);
fn call_of(e: &Expr, n: &str) -> bool { matches!(e, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(n))) }
impl<'a, 'b> Visit<'b> for Tried<'a> {
    fn visit_expr_try(&mut self, t: &'b syn::ExprTry) {
        if call_of(&t.expr, self.0) { self.1 += 1 }
        syn::visit::visit_expr_try(self, t)
    }
    fn visit_expr_closure(&mut self, c: &'b syn::ExprClosure) {
        let mut u = Uses(self.0, 0, 0); u.visit_expr_closure(c); self.2 += u.1;
        syn::visit::visit_expr_closure(self, c)
    }
}
struct DropTry<'a>(&'a str);
impl<'a> VisitMut for DropTry<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e { if call_of(&t.expr, self.0) { *e = (*t.expr).clone() } }
    }
}
impl VisitMut for ClosFind {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        if self.done { return }
        for i in 0..b.stmts.len() {
            let Stmt::Local(l) = &b.stmts[i] else { continue };
            let pat = match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p };
            let syn::Pat::Ident(pi) = pat else { continue };
            let Some(init) = &l.init else { continue };
            let Some(c) = closure_of(&init.expr) else { continue };
            let c = c.clone(); let name = pi.ident.to_string();
            let mut r = Rets(0, 0, 0); r.visit_expr(&c.body);
            let mut u = Uses(&name, 0, 0);
            for s in &b.stmts[i + 1..] { u.visit_stmt(s) }
            // `f(x)?` of a closure that ends in `Ok(e)`: a failure inside leaves the function either way
            let mut c = c;
            let mut tries = false;
            if r.2 > 0 && r.0 == 0 {
                let mut t = Tried(&name, 0, 0);
                for s in &b.stmts[i + 1..] { t.visit_stmt(s) }
                if t.1 != u.2 || t.2 > 0 { continue }
                let Expr::Block(cb) = &mut *c.body else { continue };
                let Some(Stmt::Expr(Expr::Call(k), None)) = cb.block.stmts.last().cloned() else { continue };
                if !matches!(&*k.func, Expr::Path(p) if p.path.is_ident("Ok")) || k.args.len() != 1 { continue }
                let n = cb.block.stmts.len() - 1;
                cb.block.stmts[n] = Stmt::Expr(k.args[0].clone(), None);
                tries = true;
            } else if r.0 + r.2 > 0 { continue }
            let mut own = Uses(&name, 0, 0); own.visit_expr(&c.body);
            if u.2 == 0 || u.1 != u.2 || own.1 > 0 { continue }
            // captured identifiers must not be re-bound after the closure
            let params: Vec<String> = c.inputs.iter().flat_map(|p| crate::desugar::pat_idents(match p { syn::Pat::Type(t) => &t.pat, p => p })).collect();
            struct Ids(std::collections::BTreeSet<String>);
            impl<'c> Visit<'c> for Ids { fn visit_expr_path(&mut self, p: &'c syn::ExprPath) { if let Some(i) = p.path.get_ident() { self.0.insert(i.to_string()); } } }
            let mut ids = Ids(Default::default()); ids.visit_expr(&c.body);
            struct Binds(std::collections::BTreeSet<String>);
            impl<'c> Visit<'c> for Binds { fn visit_pat(&mut self, p: &'c syn::Pat) { self.0.extend(crate::desugar::pat_idents(p)); syn::visit::visit_pat(self, p) } }
            let mut bs = Binds(Default::default());
            for s in &b.stmts[i + 1..] { bs.visit_stmt(s) }
            let mut inner = Binds(Default::default());
            inner.visit_expr(&c.body);
            let params: Vec<String> = params.into_iter().chain(inner.0).collect();
            if ids.0.iter().any(|x| !params.contains(x) && bs.0.contains(x)) { continue }
            if tries { let mut d = DropTry(&name); for st in b.stmts[i + 1..].iter_mut() { d.visit_stmt_mut(st) } }
            let mut s = SubstCalls { name: &name, c: &c, n: 0 };
            for st in b.stmts[i + 1..].iter_mut() { s.visit_stmt_mut(st) }
            if s.n != u.2 { continue }
            self.notes.push(format!("inlined local closure {name}"));
            b.stmts.remove(i);
            self.done = true;
            return;
        }
    }
}
