//! Built-in desugarings into the subset Verus accepts. Each one is the textbook expansion of the
//! Rust construct: `for` and iterator chains over slices/vectors/ranges become indexed `while`
//! loops, closures passed to iterator adaptors are inlined (beta-reduced), `matches!` becomes
//! `match`, let-chains become nested matches, slice patterns become length tests.
use crate::{err, Directive, VxErr, R};
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

pub fn pat_heads(p: &Pat) -> Vec<String> {
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(pat_heads).collect(),
        Pat::Path(p) => vec![p.path.to_token_stream().to_string().replace(' ', "")],
        Pat::TupleStruct(p) => vec![p.path.to_token_stream().to_string().replace(' ', "")],
        Pat::Struct(p) => vec![p.path.to_token_stream().to_string().replace(' ', "")],
        Pat::Ident(i) => match &i.subpat {
            Some((_, s)) => pat_heads(s),
            None => vec![i.ident.to_string()],
        },
        Pat::Reference(r) => pat_heads(&r.pat),
        Pat::Paren(r) => pat_heads(&r.pat),
        Pat::Tuple(t) => {
            let v: Vec<String> = t
                .elems
                .iter()
                .map(|p| pat_heads(p).first().cloned().unwrap_or("_".into()))
                .collect();
            vec![format!("({})", v.join(","))]
        }
        Pat::Wild(_) => vec!["_".into()],
        p => vec![p.to_token_stream().to_string().replace(' ', "")],
    }
}

pub fn pat_idents(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            let s = i.ident.to_string();
            let c = s.chars().next().unwrap();
            if !c.is_uppercase() && !self.0.contains(&s) {
                self.0.push(s);
            }
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}

pub fn find_let(b: &syn::Block, name: &str) -> Option<Stmt> {
    struct V<'a>(&'a str, Option<Stmt>);
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_stmt(&mut self, s: &'ast Stmt) {
            if self.1.is_some() {
                return;
            }
            if let Stmt::Local(l) = s {
                if pat_idents(&l.pat).iter().any(|x| x == self.0) {
                    self.1 = Some(s.clone());
                    return;
                }
            }
            syn::visit::visit_stmt(self, s);
        }
    }
    let mut v = V(name, None);
    v.visit_block(b);
    v.1
}

#[derive(Clone, Debug)]
enum Src {
    Ref(Expr),
    Own(Expr),
    Mut(Expr),
    Range(Option<Expr>, Expr, bool),
}

#[derive(Clone, Debug)]
enum Ad {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    Enumerate,
    Cloned,
    Copied,
    Rev,
    Skip(Expr),
    Take(Expr),
    TakeWhile(Expr),
    Zip(Box<(Src, Vec<Ad>)>),
    FlatMap(Expr),
    ZipLongest(Expr),
}

#[derive(Clone, Debug)]
enum Sink {
    Collect(Option<String>),
    CollectTry,
    Sum(Option<syn::Type>),
    Product(Option<syn::Type>),
    Fold(Expr, Expr),
    Any(Expr),
    All(Expr),
    Find(Expr),
    FindMap(Expr),
    Position(Expr),
    Count,
    Max,
    Min,
    ForEach(Expr),
    For(Pat, syn::Block, Option<syn::Label>),
    /// a nested loop of a flattened chain: element variable, body, condition to go on
    Inner(syn::Ident, syn::Block, Option<Expr>),
}

pub struct Desugar {
    n: usize,
    byref: bool,
    err: Option<String>,
    noiter: bool,
    zero: Option<String>,
    rets_ok: bool,
}

fn id(s: &str, n: usize) -> syn::Ident {
    format_ident!("__vx{}u{}x", s, n)
}

impl Desugar {
    pub fn new(d: &Directive) -> Self {
        Desugar {
            n: 0,
            byref: d.get("byref").is_some(),
            err: None,
            noiter: d.get("noiter").is_some(),
            rets_ok: false,
            zero: d.get("sumzero").map(|s| s.trim().to_string()),
        }
    }
    pub fn block(&mut self, b: &mut syn::Block) -> R<()> {
        self.inline_iters(b);
        self.visit_block_mut(b);
        match self.err.take() {
            Some(e) => err(e),
            None => Ok(()),
        }
    }
    /// `let it = <iterator chain>;` used exactly once afterwards: the (lazy) chain is moved to its use
    fn inline_iters(&self, b: &mut syn::Block) {
        struct V<'a>(&'a Desugar);
        impl VisitMut for V<'_> {
            fn visit_block_mut(&mut self, b: &mut syn::Block) {
                let mut k = 0;
                while k < b.stmts.len() {
                    let hit = match &b.stmts[k] {
                        Stmt::Local(l) => match (&l.pat, &l.init) {
                            (Pat::Ident(p), Some(i)) if p.by_ref.is_none() && i.diverge.is_none() && (p.mutability.is_none() || one_next(&b.stmts[k + 1..], &p.ident)) => match &*i.expr {
                                Expr::MethodCall(_) if self.0.chain(&i.expr).is_some() => Some((p.ident.clone(), (*i.expr).clone())),
                                _ => None,
                            },
                            _ => None,
                        },
                        _ => None,
                    };
                    if let Some((x, e)) = hit {
                        struct C<'b>(&'b syn::Ident, usize, Option<Expr>);
                        impl VisitMut for C<'_> {
                            fn visit_expr_mut(&mut self, e: &mut Expr) {
                                if let Expr::Path(p) = e {
                                    if p.path.is_ident(self.0) {
                                        self.1 += 1;
                                        if let Some(r) = &self.2 {
                                            *e = r.clone();
                                        }
                                        return;
                                    }
                                }
                                visit_mut::visit_expr_mut(self, e);
                            }
                        }
                        let mut c = C(&x, 0, None);
                        for s in b.stmts[k + 1..].iter_mut() {
                            c.visit_stmt_mut(s);
                        }
                        if c.1 == 1 {
                            let mut c = C(&x, 0, Some(e));
                            for s in b.stmts[k + 1..].iter_mut() {
                                c.visit_stmt_mut(s);
                            }
                            b.stmts.remove(k);
                            continue;
                        }
                    }
                    k += 1;
                }
                visit_mut::visit_block_mut(self, b);
            }
        }
        V(self).visit_block_mut(b);
    }
    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    /// Parse an iterator expression into source + adaptors (None if it is not one).
    fn chain(&self, e: &Expr) -> Option<(Src, Vec<Ad>)> {
        match e {
            Expr::Paren(p) => self.chain(&p.expr),
            Expr::Range(r) => {
                let end = r.end.as_ref()?;
                Some((
                    Src::Range(
                        r.start.as_ref().map(|e| (**e).clone()),
                        (**end).clone(),
                        matches!(r.limits, syn::RangeLimits::Closed(_)),
                    ),
                    vec![],
                ))
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let a = || m.args.first().cloned();
                let simple = |ad: Ad| -> Option<(Src, Vec<Ad>)> {
                    let (s, mut v) = self.chain(&m.receiver)?;
                    v.push(ad);
                    Some((s, v))
                };
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => Some((Src::Ref((*m.receiver).clone()), vec![])),
                    ("iter_mut", 0) => Some((Src::Mut((*m.receiver).clone()), vec![])),
                    ("into_iter", 0) => {
                        if let Some(c) = self.chain(&m.receiver) {
                            return Some(c);
                        }
                        match &*m.receiver {
                            Expr::Reference(r) => Some((Src::Ref((*r.expr).clone()), vec![])),
                            e if self.byref => Some((Src::Ref(e.clone()), vec![])),
                            e => Some((Src::Own(e.clone()), vec![])),
                        }
                    }
                    ("map", 1) => simple(Ad::Map(a()?)),
                    ("filter", 1) => simple(Ad::Filter(a()?)),
                    ("filter_map", 1) => simple(Ad::FilterMap(a()?)),
                    ("zip_longest", 1) => simple(Ad::ZipLongest(a()?)),
                    ("flat_map", 1) => simple(Ad::FlatMap(a()?)),
                    ("flatten", 0) => {
                        let (s, mut v) = self.chain(&m.receiver)?;
                        match v.pop() {
                            Some(Ad::Map(f)) => v.push(Ad::FlatMap(f)),
                            o => {
                                v.extend(o);
                                v.push(Ad::FlatMap(parse_quote!(|__f| __f)));
                            }
                        }
                        Some((s, v))
                    }
                    ("enumerate", 0) => simple(Ad::Enumerate),
                    ("cloned", 0) => simple(Ad::Cloned),
                    ("copied", 0) => simple(Ad::Copied),
                    ("rev", 0) => simple(Ad::Rev),
                    ("skip", 1) => simple(Ad::Skip(a()?)),
                    ("take", 1) => simple(Ad::Take(a()?)),
                    ("take_while", 1) => simple(Ad::TakeWhile(a()?)),
                    ("zip", 1) => {
                        let other = a()?;
                        let o = self.chain(&other).or_else(|| self.bare(&other))?;
                        simple(Ad::Zip(Box::new(o)))
                    }
                    _ => None,
                }
            }
            Expr::Block(b) if b.block.stmts.len() == 1 => {
                if let Stmt::Expr(e, None) = &b.block.stmts[0] {
                    self.chain(e)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn bare(&self, e: &Expr) -> Option<(Src, Vec<Ad>)> {
        match e {
            Expr::Reference(r) if r.mutability.is_some() => Some((Src::Mut((*r.expr).clone()), vec![])),
            Expr::Reference(r) => Some((Src::Ref((*r.expr).clone()), vec![])),
            Expr::Paren(p) => self.bare(&p.expr),
            e if self.byref => Some((Src::Ref(e.clone()), vec![])),
            e => Some((Src::Own(e.clone()), vec![])),
        }
    }

    fn sink(&self, m: &syn::ExprMethodCall) -> Option<Sink> {
        let a = |i: usize| m.args.iter().nth(i).cloned();
        let tf = || -> Option<syn::Type> {
            let t = m.turbofish.as_ref()?;
            match t.args.first()? {
                syn::GenericArgument::Type(t) => Some(t.clone()),
                _ => None,
            }
        };
        Some(match (m.method.to_string().as_str(), m.args.len()) {
            ("collect", 0) | ("collect_vec", 0) => {
                let head = tf().map(|t| match &t {
                    syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => String::new(),
                });
                let infer = || match &*m.receiver {
                    Expr::MethodCall(r) if r.method == "map" && r.args.len() == 1 => match &r.args[0] {
                        Expr::Closure(c) => tail_result(&c.body).then(|| "Result".to_string()),
                        _ => None,
                    },
                    _ => None,
                };
                Sink::Collect(head.or_else(infer))
            }
            ("sum", 0) => Sink::Sum(tf()),
            ("product", 0) => Sink::Product(tf()),
            ("fold", 2) => Sink::Fold(a(0)?, a(1)?),
            ("any", 1) => Sink::Any(a(0)?),
            ("all", 1) => Sink::All(a(0)?),
            ("find", 1) => Sink::Find(a(0)?),
            // the first element of a chain (an iterator held in a variable is not one)
            ("next", 0) if self.chain(&m.receiver).is_some() => Sink::Find(parse_quote!(|_| true)),
            ("find_map", 1) => Sink::FindMap(a(0)?),
            ("position", 1) => Sink::Position(a(0)?),
            ("count", 0) => Sink::Count,
            ("max", 0) => Sink::Max,
            ("min", 0) => Sink::Min,
            ("for_each", 1) => Sink::ForEach(a(0)?),
            _ => return None,
        })
    }

    /// apply a closure (or function path) to argument expressions
    fn apply(&mut self, f: &Expr, args: Vec<Expr>) -> Expr {
        match f {
            Expr::Closure(c) if c.inputs.len() == args.len() => {
                let mut stmts: Vec<Stmt> = vec![];
                for (p, a) in c.inputs.iter().zip(args) {
                    stmts.extend(let_pat(p, a));
                }
                let body = &c.body;
                if !self.rets_ok && has_ret(body) {
                    self.err = Some("UNSUPPORTED return or ? inside an iterator closure".into());
                }
                parse_quote!({ #(#stmts)* #body })
            }
            Expr::Paren(p) => self.apply(&p.expr, args),
            f => parse_quote!(#f(#(#args),*)),
        }
    }

    fn gen(&mut self, src: Src, mut ads: Vec<Ad>, sink: Sink) -> Option<Expr> {
        // a final rev() over a non 1:1 chain that is collected: collect, then reverse
        if matches!(ads.last(), Some(Ad::Rev))
            && matches!(&sink, Sink::Collect(h) if matches!(h.as_deref(), None | Some("") | Some("Vec")))
            && ads.iter().any(|a| matches!(a, Ad::FlatMap(_) | Ad::Filter(_) | Ad::FilterMap(_)))
        {
            ads.pop();
            let e = self.gen(src, ads, sink)?;
            return Some(parse_quote!(vrev(#e)));
        }
        let n = self.fresh();
        let (s, i, acc, e) = (id("s", n), id("i", n), id("acc", n), id("e", n));
        let mut pre: Vec<Stmt> = vec![];
        // ---- source-level (one-to-one) positions
        let mut len: Expr;
        let is_range = matches!(src, Src::Range(..));
        let mut inv: Vec<String> = vec![];
        match &src {
            Src::Ref(x) => {
                let x = strip_ref(x);
                let o = id("o", n);
                if matches!(x, Expr::Path(_) | Expr::Field(_) | Expr::Index(_) | Expr::Unary(_)) {
                    pre.push(parse_quote!(let #s = (#x).vself();));
                } else {
                    pre.push(parse_quote!(let #o = #x;));
                    pre.push(parse_quote!(let #s = #o.vself();));
                }
                len = parse_quote!(#s.len());
            }
            Src::Own(x) => {
                let o = id("o", n);
                pre.push(parse_quote!(let #o = #x;));
                pre.push(parse_quote!(let #s = #o.vself();));
                len = parse_quote!(#s.len());
            }
            Src::Mut(x) => {
                if !matches!(sink, Sink::For(..) | Sink::Inner(..)) {
                    self.err = Some("UNSUPPORTED iter_mut chain".into());
                    return None;
                }
                let x = strip_ref(x);
                pre.push(parse_quote!(let #s = &mut #x;));
                len = parse_quote!(#s.len());
            }
            Src::Range(a, b, closed) => {
                let a = a.clone()?;
                if *closed {
                    pre.push(parse_quote!(let #s = (#a, #b + 1);));
                } else {
                    pre.push(parse_quote!(let #s = (#a, #b);));
                }
                len = parse_quote!(#s.1);
            }
        }
        // current position variable
        let mut rev = false;
        let mut elem: Option<Expr> = None; // materialised element
        let mut body: Vec<Stmt> = vec![];
        let mut start: Expr = if is_range { parse_quote!(#s.0) } else { parse_quote!(0) };
        // prefix of adaptors that affect positions
        let mut rest: Vec<Ad> = vec![];
        let mut one_to_one = true;
        let mut zips: Vec<(syn::Ident, Src, Vec<Ad>)> = vec![];
        let mut seq: Vec<Ad> = vec![];
        for ad in ads {
            match &ad {
                Ad::Rev => {
                    if !one_to_one || rev || seq.iter().any(|a| matches!(a, Ad::Skip(_))) {
                        self.err = Some("UNSUPPORTED rev".into());
                        return None;
                    }
                    rev = true;
                    seq.push(ad);
                }
                Ad::Skip(x) if one_to_one && seq.iter().all(|a| matches!(a, Ad::Map(_) | Ad::Cloned | Ad::Copied | Ad::Rev | Ad::Enumerate | Ad::Take(_))) && !is_range => {
                    let l = len.clone();
                    start = parse_quote!({ let __k: usize = #x; if __k < #l { __k } else { #l } });
                    seq.push(ad);
                }
                Ad::Take(x) if one_to_one && !is_range => {
                    let k = format_ident!("__vxlimu{}x", n);
                    let l = len.clone();
                    pre.push(parse_quote!(let #k: usize = { let __k: usize = #x; if __k < #l { __k } else { #l } };));
                    if rev || seq.iter().any(|a| matches!(a, Ad::Skip(_))) {
                        self.err = Some("UNSUPPORTED take after rev/skip".into());
                        return None;
                    }
                    len = parse_quote!(#k);
                    seq.push(ad);
                }
                Ad::Skip(_) | Ad::Take(_) => {
                    self.err = Some("UNSUPPORTED skip/take position".into());
                    return None;
                }
                Ad::Filter(_) | Ad::FilterMap(_) | Ad::TakeWhile(_) | Ad::FlatMap(_) => {
                    one_to_one = false;
                    seq.push(ad);
                }
                Ad::Enumerate | Ad::Zip(_) | Ad::ZipLongest(_) if seq.iter().any(|a| matches!(a, Ad::Skip(_))) => {
                    self.err = Some("UNSUPPORTED enumerate/zip after skip".into());
                    return None;
                }
                _ => seq.push(ad),
            }
        }
        let _ = &mut rest;
        // zip bound
        if let Some(p) = seq.iter().position(|a| matches!(a, Ad::ZipLongest(_))) {
            let Ad::ZipLongest(o) = &seq[p] else { unreachable!() };
            if p != 0 || rev || !matches!(src, Src::Ref(_)) || seq.iter().any(|a| matches!(a, Ad::Zip(_))) || !matches!(o, Expr::Reference(_)) {
                self.err = Some("UNSUPPORTED zip_longest shape".into());
                return None;
            }
            let zs = id("z", n);
            let o = strip_ref(o);
            pre.push(parse_quote!(let #zs = (#o).vself();));
            let k = format_ident!("__vxlimu{}x", n);
            let l = len.clone();
            pre.push(parse_quote!(let #k: usize = if #l < #zs.len() { #zs.len() } else { #l };));
            len = parse_quote!(#k);
        }
        for ad in &seq {
            if let Ad::Zip(z) = ad {
                if !matches!(z.0, Src::Ref(_) | Src::Own(_)) {
                    self.err = Some("UNSUPPORTED zip source".into());
                    return None;
                }
                let zn = self.fresh();
                let zs = id("z", zn);
                match &z.0 {
                    Src::Ref(x) => {
                        let x = strip_ref(x);
                        pre.push(parse_quote!(let #zs = (#x).vself();))
                    }
                    Src::Own(x) => pre.push(parse_quote!(let #zs = #x;)),
                    _ => unreachable!(),
                }
                let k = format_ident!("__vxlimu{}x", zn);
                let l = len.clone();
                pre.push(parse_quote!(let #k: usize = if #l < #zs.len() { #l } else { #zs.len() };));
                len = parse_quote!(#k);
                zips.push((zs, z.0.clone(), z.1.clone()));
            }
        }
        let idx: Expr = if rev {
            if is_range {
                parse_quote!((#s.1 - 1 - (#i - 1 - #s.0)))
            } else {
                let l = len.clone();
                parse_quote!((#l - 1 - (#i - 1)))
            }
        } else {
            parse_quote!((#i - 1))
        };
        let first: Expr = match &src {
            Src::Ref(_) => parse_quote!(&#s[#idx]),
            Src::Own(_) => parse_quote!((&#s[#idx]).vclone()),
            Src::Mut(_) => parse_quote!(&mut #s[#idx]),
            Src::Range(..) => idx.clone(),
        };
        let mut cur: Expr = first;
        let mut zipi = 0;
        let mut seen_rev = false;
        let mut counter: Option<syn::Ident> = None;
        let mut opens: Vec<(Vec<Stmt>, Wrap)> = vec![];
        enum Wrap {
            If(Expr),
            Some(Expr, syn::Ident),
            Nested(Src, Vec<Ad>, syn::Ident),
        }
        let mut filtered = false;
        for ad in seq {
            match ad {
                Ad::Rev => seen_rev = true,
                Ad::ZipLongest(o) => {
                    let zs = id("z", n);
                    let _ = &o;
                    cur = parse_quote!(if #idx < #s.len() { if #idx < #zs.len() { EitherOrBoth::Both(#cur, &#zs[#idx]) } else { EitherOrBoth::Left(#cur) } } else { EitherOrBoth::Right(&#zs[#idx]) });
                }
                Ad::Skip(_) | Ad::Take(_) => {}
                Ad::Map(f) => {
                    let k = id("e", self.fresh());
                    let v = self.apply(&f, vec![cur.clone()]);
                    body.push(parse_quote!(let #k = #v;));
                    cur = parse_quote!(#k);
                }
                Ad::Cloned => cur = parse_quote!((#cur).vclone()),
                Ad::Copied => cur = parse_quote!(*#cur),
                Ad::Enumerate => {
                    let ix: Expr = if filtered {
                        let c = counter.clone().unwrap_or_else(|| format_ident!("__vxcntu{}x", n));
                        if counter.is_none() {
                            pre.push(parse_quote!(let mut #c: usize = 0;));
                            counter = Some(c.clone());
                        }
                        body.push(parse_quote!(#c = #c + 1;));
                        parse_quote!((#c - 1))
                    } else if rev && !seen_rev && is_range {
                        parse_quote!((#idx - #s.0))
                    } else if rev && !seen_rev {
                        idx.clone()
                    } else if is_range {
                        parse_quote!((#i - 1 - #s.0))
                    } else {
                        parse_quote!((#i - 1))
                    };
                    cur = parse_quote!((#ix, #cur));
                }
                Ad::Zip(_) => {
                    let (zs, zsrc, zads) = zips[zipi].clone();
                    zipi += 1;
                    let zidx: Expr = if rev && !seen_rev { idx.clone() } else { parse_quote!((#i - 1)) };
                    let mut zc: Expr = match zsrc {
                        Src::Ref(_) => parse_quote!(&#zs[#zidx]),
                        _ => parse_quote!((&#zs[#zidx]).vclone()),
                    };
                    for za in zads {
                        match za {
                            Ad::Map(f) => {
                                let k = id("e", self.fresh());
                                let v = self.apply(&f, vec![zc.clone()]);
                                body.push(parse_quote!(let #k = #v;));
                                zc = parse_quote!(#k);
                            }
                            Ad::Cloned => zc = parse_quote!((#zc).vclone()),
                            Ad::Copied => zc = parse_quote!(*#zc),
                            _ => {
                                self.err = Some("UNSUPPORTED adaptor in zip argument".into());
                                return None;
                            }
                        }
                    }
                    cur = parse_quote!((#cur, #zc));
                }
                Ad::Filter(f) => {
                    filtered = true;
                    let k = id("e", self.fresh());
                    body.push(parse_quote!(let #k = #cur;));
                    let c = self.apply(&f, vec![parse_quote!(&#k)]);
                    opens.push((std::mem::take(&mut body), Wrap::If(c)));
                    cur = parse_quote!(#k);
                }
                Ad::FilterMap(f) => {
                    filtered = true;
                    let k = id("e", self.fresh());
                    let c = self.apply(&f, vec![cur.clone()]);
                    opens.push((std::mem::take(&mut body), Wrap::Some(c, k.clone())));
                    cur = parse_quote!(#k);
                }
                Ad::TakeWhile(f) => {
                    if opens.iter().any(|(_, w)| matches!(w, Wrap::Nested(..))) {
                        self.err = Some("UNSUPPORTED take_while after flat_map".into());
                        return None;
                    }
                    let k = id("e", self.fresh());
                    body.push(parse_quote!(let #k = #cur;));
                    let c = self.apply(&f, vec![parse_quote!(&#k)]);
                    body.push(parse_quote!(if !#c { break; }));
                    cur = parse_quote!(#k);
                }
                Ad::FlatMap(f) => {
                    filtered = true;
                    let c = self.apply(&f, vec![cur.clone()]);
                    // inner value must itself be an iterator chain or a Vec expression
                    let mut inner = c.clone();
                    while let Expr::Block(b) = &inner {
                        let mut st = b.block.stmts.clone();
                        let last = st.pop();
                        body.extend(st);
                        inner = match last {
                            Some(Stmt::Expr(e, None)) => e,
                            _ => {
                                self.err = Some("UNSUPPORTED flat_map body".into());
                                return None;
                            }
                        };
                    }
                    let (s2, a2) = self.chain(&inner).or_else(|| self.bare(&inner))?;
                    let k = id("e", self.fresh());
                    opens.push((std::mem::take(&mut body), Wrap::Nested(s2, a2, k.clone())));
                    cur = parse_quote!(#k);
                }
            }
        }
        let _ = &mut elem;
        // ---- sink
        let mut extra_cond: Option<Expr> = None;
        let mut result: Option<Expr> = Some(parse_quote!(#acc));
        let mut label = None;
        match &sink {
            Sink::Collect(h) => match h.as_deref() {
                Some("Result") => {
                    pre.push(parse_quote!(let mut #acc = Vec::new();));
                    let er = id("err", n);
                    pre.push(parse_quote!(let mut #er = None;));
                    body.push(parse_quote!(match #cur { Ok(__v) => { #acc.push(__v); } Err(__x) => { #er = Some(__x); } }));
                    extra_cond = Some(parse_quote!(#er.is_none()));
                    result = Some(parse_quote!(match #er { None => Ok(#acc), Some(__x) => Err(__x) }));
                }
                Some("Option") => {
                    pre.push(parse_quote!(let mut #acc = Vec::new();));
                    let er = id("err", n);
                    pre.push(parse_quote!(let mut #er = false;));
                    body.push(parse_quote!(match #cur { Some(__v) => { #acc.push(__v); } None => { #er = true; } }));
                    extra_cond = Some(parse_quote!(!#er));
                    result = Some(parse_quote!(if #er { None } else { Some(#acc) }));
                }
                _ => {
                    pre.push(parse_quote!(let mut #acc = Vec::new();));
                    body.push(parse_quote!(#acc.push(#cur);));
                    if let Some(h) = h.as_deref() {
                        // other collections: built from the collected vector by a modelled function
                        if !h.is_empty() && h != "Vec" {
                            let f = format_ident!("vcollect_{}", h);
                            result = Some(parse_quote!(#f(#acc)));
                        }
                    }
                }
            },
            Sink::CollectTry => {
                pre.push(parse_quote!(let mut #acc = Vec::new();));
                body.push(parse_quote!(match #cur { Ok(__v) => { #acc.push(__v); } Err(__x) => { return Err(__x); } }));
            }
            Sink::Sum(t) => {
                let z: Expr = match (&self.zero, t) {
                    (Some(z), _) => syn::parse_str(z).ok()?,
                    (None, Some(t)) => {
                        let t2 = t.to_token_stream().to_string();
                        if matches!(t2.as_str(), "usize" | "u64" | "u32" | "i64" | "u128" | "i128") {
                            syn::parse_str(&format!("0{t2}")).ok()?
                        } else {
                            parse_quote!(#t::zero())
                        }
                    }
                    _ => parse_quote!(vzero()),
                };
                pre.push(parse_quote!(let mut #acc = #z;));
                body.push(parse_quote!(#acc = #acc + #cur;));
            }
            Sink::Product(t) => {
                let z: Expr = match t {
                    Some(t) => parse_quote!(#t::one()),
                    _ => parse_quote!(vone()),
                };
                pre.push(parse_quote!(let mut #acc = #z;));
                body.push(parse_quote!(#acc = #acc * #cur;));
            }
            Sink::Fold(init, f) => {
                pre.push(parse_quote!(let mut #acc = #init;));
                let v = self.apply(f, vec![parse_quote!(#acc), cur.clone()]);
                body.push(parse_quote!(#acc = #v;));
            }
            Sink::Any(f) => {
                pre.push(parse_quote!(let mut #acc = false;));
                let v = self.apply(f, vec![cur.clone()]);
                body.push(parse_quote!(if #v { #acc = true; }));
                extra_cond = Some(parse_quote!(!#acc));
            }
            Sink::All(f) => {
                pre.push(parse_quote!(let mut #acc = true;));
                let v = self.apply(f, vec![cur.clone()]);
                body.push(parse_quote!(if !(#v) { #acc = false; }));
                extra_cond = Some(parse_quote!(#acc));
            }
            Sink::Find(f) => {
                pre.push(parse_quote!(let mut #acc = None;));
                let k = id("e", self.fresh());
                body.push(parse_quote!(let #k = #cur;));
                let v = self.apply(f, vec![parse_quote!(&#k)]);
                body.push(parse_quote!(if #v { #acc = Some(#k); }));
                extra_cond = Some(parse_quote!(#acc.is_none()));
            }
            Sink::FindMap(f) => {
                pre.push(parse_quote!(let mut #acc = None;));
                let v = self.apply(f, vec![cur.clone()]);
                body.push(parse_quote!(#acc = #v;));
                extra_cond = Some(parse_quote!(#acc.is_none()));
            }
            Sink::Position(f) => {
                pre.push(parse_quote!(let mut #acc: Option<usize> = None;));
                let v = self.apply(f, vec![cur.clone()]);
                body.push(parse_quote!(if #v { #acc = Some(#i - 1); }));
                extra_cond = Some(parse_quote!(#acc.is_none()));
            }
            Sink::Count => {
                pre.push(parse_quote!(let mut #acc: usize = 0;));
                body.push(parse_quote!(let _ = #cur;));
                body.push(parse_quote!(#acc = #acc + 1;));
            }
            Sink::Max | Sink::Min => {
                pre.push(parse_quote!(let mut #acc = None;));
                let op: syn::BinOp = if matches!(sink, Sink::Max) { parse_quote!(<=) } else { parse_quote!(>) };
                body.push(parse_quote!(let #e = #cur;));
                // max keeps the last maximum, min keeps the first minimum
                body.push(parse_quote!(#acc = match #acc { None => Some(#e), Some(__o) => if __o #op #e { Some(#e) } else { Some(__o) } };));
            }
            Sink::ForEach(f) => {
                let v = self.apply(f, vec![cur.clone()]);
                body.push(parse_quote!({ #v; }));
                result = None;
            }
            Sink::Inner(p, b, c) => {
                body.push(parse_quote!(let #p = #cur;));
                body.extend(b.stmts.iter().cloned());
                extra_cond = c.clone();
                result = None;
            }
            Sink::For(p, b, l) => {
                body.extend(let_pat(p, cur.clone()));
                body.extend(b.stmts.iter().cloned());
                label = l.clone();
                result = None;
            }
        }
        let nested = opens.iter().any(|(_, w)| matches!(w, Wrap::Nested(..)));
        if (filtered && matches!(sink, Sink::Position(_))) || (nested && matches!(&sink, Sink::For(_, b, _) if has_break(b))) {
            self.err = Some("UNSUPPORTED position after filter / break out of flat_map".into());
            return None;
        }
        // close wrappers
        let mut inner = body;
        while let Some((before, w)) = opens.pop() {
            let mut b2 = before;
            match w {
                Wrap::If(c) => b2.push(parse_quote!(if #c { #(#inner)* })),
                Wrap::Some(c, k) => b2.push(parse_quote!(match #c { Some(#k) => { #(#inner)* } None => {} })),
                Wrap::Nested(s2, a2, kname) => {
                    let blk: syn::Block = parse_quote!({ #(#inner)* });
                    let ex = self.gen(s2, a2, Sink::Inner(kname, blk, extra_cond.clone()))?;
                    b2.push(Stmt::Expr(ex, Some(Default::default())));
                }
            }
            inner = b2;
        }
        let cond: Expr = match extra_cond {
            Some(c) => parse_quote!(#i < #len && #c),
            None => parse_quote!(#i < #len),
        };
        let marker = format!("{}", n);
        let lit = syn::LitStr::new(&marker, proc_macro2::Span::call_site());
        if is_range {
            inv.push(format!("__vxsu{n}x.0 <= __vxiu{n}x"));
        }
        let ity: Stmt = if is_range {
            parse_quote!(let mut #i = #start;)
        } else {
            parse_quote!(let mut #i: usize = #start;)
        };
        let w: Expr = parse_quote!(#label while #cond { __vx_auto!(#lit); #i = #i + 1; #(#inner)* });
        let out: Expr = match result {
            Some(r) => parse_quote!({ #(#pre)* #ity #w #r }),
            None => parse_quote!({ #(#pre)* #ity #w }),
        };
        let _ = rest;
        Some(out)
    }
}

/// does the expression evaluate to `Ok(..)` / `Err(..)` in some branch
fn tail_result(e: &Expr) -> bool {
    fn blk(b: &syn::Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(e, None)) if tail_result(e)) }
    match e {
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok") || p.path.is_ident("Err")),
        Expr::Block(b) => blk(&b.block),
        Expr::Paren(p) => tail_result(&p.expr),
        Expr::Match(m) => m.arms.iter().any(|a| tail_result(&a.body)),
        Expr::If(i) => blk(&i.then_branch) || i.else_branch.as_ref().is_some_and(|(_, e)| tail_result(e)),
        _ => false,
    }
}
/// `return` / `?` that would leave the closure
fn has_ret(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
/// an unlabelled `break` that would leave the loop
fn has_break(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) { self.0 |= b.label.is_none() }
        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
        fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

fn strip_ref(e: &Expr) -> Expr {
    match e {
        Expr::Reference(r) => (*r.expr).clone(),
        Expr::Paren(p) => strip_ref(&p.expr),
        e => e.clone(),
    }
}

/// `let PAT = EXPR` with `&x` patterns turned into dereferences
pub fn let_pat(p: &Pat, e: Expr) -> Vec<Stmt> {
    match p {
        Pat::Reference(r) => {
            let e2: Expr = match &e {
                Expr::Reference(x) => (*x.expr).clone(),
                e => parse_quote!(*#e),
            };
            let_pat(&r.pat, e2)
        }
        Pat::Type(t) => match (&*t.pat, &*t.ty) {
            (pat, _) => let_pat(pat, e),
        },
        Pat::Wild(_) => vec![parse_quote!(let _ = #e;)],
        Pat::Tuple(t) if matches!(&e, Expr::Tuple(x) if x.elems.len() == t.elems.len()) => {
            let Expr::Tuple(x) = &e else { unreachable!() };
            t.elems
                .iter()
                .zip(x.elems.iter())
                .flat_map(|(p, e)| let_pat(p, e.clone()))
                .collect()
        }
        p => vec![parse_quote!(let #p = #e;)],
    }
}

fn has_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => has_let(&b.left) || has_let(&b.right),
        Expr::Paren(p) => has_let(&p.expr),
        _ => false,
    }
}
fn flatten_and(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) && has_let(e) => {
            flatten_and(&b.left, out);
            flatten_and(&b.right, out);
        }
        e => out.push(e.clone()),
    }
}

fn slice_pat(p: &Pat) -> Option<&syn::PatSlice> {
    match p {
        Pat::Slice(s) => Some(s),
        Pat::Reference(r) => slice_pat(&r.pat),
        _ => None,
    }
}

impl VisitMut for Desugar {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.err.is_some() {
            return;
        }
        // `x op= e` on a local
        if let Expr::Binary(b) = e {
            let op: Option<syn::BinOp> = match b.op {
                syn::BinOp::AddAssign(_) => Some(parse_quote!(+)),
                syn::BinOp::SubAssign(_) => Some(parse_quote!(-)),
                syn::BinOp::MulAssign(_) => Some(parse_quote!(*)),
                _ => None,
            };
            if let (Some(op), Expr::Path(_)) = (op, &*b.left) {
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!(#l = #l #op (#r));
            }
        }
        // `while let`
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse_quote!(#lab loop { match #x { #p => #b, _ => break } });
            }
        }
        // let chains
        if let Expr::If(i) = e {
            if has_let(&i.cond) && !matches!(&*i.cond, Expr::Let(_)) {
                let mut cs = vec![];
                flatten_and(&i.cond, &mut cs);
                let then = &i.then_branch;
                let els: Expr = match &i.else_branch {
                    Some((_, e)) => (**e).clone(),
                    None => parse_quote!({}),
                };
                let mut acc: Expr = parse_quote!(#then);
                for c in cs.into_iter().rev() {
                    acc = match c {
                        Expr::Let(l) => {
                            let (p, x) = (&l.pat, &l.expr);
                            let (acc, els) = (as_block(&acc), as_block(&els));
                            parse_quote!(if let #p = #x #acc else #els)
                        }
                        c => build_if(&c, &acc, &els),
                    };
                }
                *e = acc;
            }
        }
        // matches!
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("matches") {
                let toks = m.mac.tokens.clone();
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e: Expr = i.parse()?;
                        let _: syn::Token![,] = i.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            let _: syn::Token![if] = i.parse()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _: Option<syn::Token![,]> = i.parse()?;
                        Ok(M(e, p, g))
                    }
                }
                match syn::parse2::<M>(toks) {
                    Ok(M(x, p, None)) => *e = parse_quote!(match #x { #p => true, _ => false }),
                    Ok(M(x, p, Some(g))) => *e = parse_quote!(match #x { #p if #g => true, _ => false }),
                    Err(x) => self.err = Some(format!("matches!: {x}")),
                }
            }
        }
        // an or-pattern with a guard: one arm per alternative
        if let Expr::Match(mt) = e {
            let arms = std::mem::take(&mut mt.arms);
            for a in arms {
                match (&a.pat, &a.guard) {
                    (Pat::Or(o), Some(_)) => {
                        for c in &o.cases {
                            let mut b = a.clone();
                            b.pat = c.clone();
                            b.comma = Some(Default::default());
                            mt.arms.push(b);
                        }
                    }
                    _ => mt.arms.push(a),
                }
            }
        }
        // slice patterns
        if let Expr::Match(mt) = e {
            if mt.arms.iter().any(|a| slice_pat(&a.pat).is_some()) {
                let scrut = &mt.expr;
                let n = self.fresh();
                let sv = id("sl", n);
                let mut acc: Option<Expr> = None;
                for a in mt.arms.iter().rev() {
                    let body = &a.body;
                    match slice_pat(&a.pat) {
                        Some(s) => {
                            let mut fixed: Vec<Stmt> = vec![];
                            let mut refut: Vec<(Pat, usize)> = vec![];
                            let mut rest = false;
                            let mut k = 0usize;
                            for p in &s.elems {
                                match p {
                                    Pat::Rest(_) => rest = true,
                                    Pat::Ident(i) if i.subpat.is_some() => {
                                        rest = true;
                                        let name = &i.ident;
                                        let kk = k;
                                        fixed.push(parse_quote!(let #name = vslice_from(#sv, #kk);));
                                    }
                                    p => {
                                        if rest {
                                            self.err = Some("UNSUPPORTED slice pattern".into());
                                            return;
                                        }
                                        let kk = k;
                                        match p {
                                            Pat::TupleStruct(_) | Pat::Struct(_) | Pat::Path(_) | Pat::Lit(_) => refut.push((p.clone(), kk)),
                                            p => fixed.extend(let_pat(p, parse_quote!(&#sv[#kk]))),
                                        }
                                        k += 1;
                                    }
                                }
                            }
                            let cond: Expr = if rest { parse_quote!(#sv.len() >= #k) } else { parse_quote!(#sv.len() == #k) };
                            let cond: Expr = match &a.guard {
                                Some(_) => {
                                    self.err = Some("UNSUPPORTED guard on slice pattern".into());
                                    return;
                                }
                                None => cond,
                            };
                            let mut inner: Expr = parse_quote!({ #(#fixed)* #body });
                            for (p, kk) in refut.into_iter().rev() {
                                let Some(els) = &acc else {
                                    self.err = Some("UNSUPPORTED slice pattern".into());
                                    return;
                                };
                                inner = parse_quote!(match &#sv[#kk] { #p => #inner, _ => #els });
                            }
                            acc = Some(match acc {
                                None => inner,
                                Some(x) => parse_quote!(if #cond { #inner } else { #x }),
                            });
                        }
                        None => {
                            let st = match &a.pat {
                                Pat::Wild(_) => vec![],
                                p => let_pat(p, parse_quote!(#sv)),
                            };
                            acc = Some(parse_quote!({ #(#st)* #body }));
                        }
                    }
                }
                *e = parse_quote!({ let #sv = #scrut; #acc });
            }
        }
        if !self.noiter {
            // `chain.collect::<Result<_, _>>()?`: the closure's early errors are the function's
            if let Expr::Try(t) = e {
                if let Expr::MethodCall(m) = &*t.expr {
                    if matches!(self.sink(m), Some(Sink::Collect(Some(ref h))) if h == "Result") {
                        if let Some((src, ads)) = self.chain(&m.receiver) {
                            self.rets_ok = true;
                            let x = self.gen(src, ads, Sink::CollectTry);
                            self.rets_ok = false;
                            if let Some(x) = x {
                                *e = x;
                            }
                        }
                    }
                }
            }
            // iterator sinks
            if let Expr::MethodCall(m) = e {
                if let Some(sink) = self.sink(m) {
                    if let Some((src, ads)) = self.chain(&m.receiver) {
                        if let Some(x) = self.gen(src, ads, sink) {
                            *e = x;
                        }
                    }
                }
            }
            if let Expr::ForLoop(f) = e {
                let c = self.chain(&f.expr).or_else(|| self.bare(&f.expr));
                if let Some((src, ads)) = c {
                    if let Some(x) = self.gen(src, ads, Sink::For((*f.pat).clone(), f.body.clone(), f.label.clone())) {
                        *e = x;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn as_block(e: &Expr) -> syn::Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.clone(),
        e => parse_quote!({ #e }),
    }
}
fn build_if(c: &Expr, acc: &Expr, els: &Expr) -> Expr {
    let acc = as_block(acc);
    let els = as_block(els);
    parse_quote!(if #c #acc else #els)
}

#[derive(Clone, Debug, Default)]
pub struct LoopInfo {
    pub mutated: Vec<String>,
    pub auto_inv: Vec<String>,
    pub auto_dec: Option<String>,
}

/// Number loops in source order; replace auto markers; compute the outer variables each mutates.
pub fn number_loops(b: &mut syn::Block) -> R<Vec<LoopInfo>> {
    struct N {
        infos: Vec<LoopInfo>,
        map: HashMap<String, usize>,
        err: Option<String>,
    }
    impl N {
        fn body(&mut self, cond: Option<&Expr>, b: &mut syn::Block) {
            let k = self.infos.len();
            let mut info = LoopInfo::default();
            let mut uid = None;
            if let Some(Stmt::Macro(m)) = b.stmts.first() {
                if m.mac.path.is_ident("__vx_auto") {
                    let s: syn::LitStr = syn::parse2(m.mac.tokens.clone()).unwrap();
                    uid = Some(s.value());
                }
            }
            if let Some(u) = uid {
                b.stmts.remove(0);
                self.map.insert(u.clone(), k);
                if let Some(c) = cond {
                    // i < LEN [&& ...]
                    let l = match c {
                        Expr::Binary(x) if matches!(x.op, syn::BinOp::And(_)) => (*x.left).clone(),
                        c => c.clone(),
                    };
                    if let Expr::Binary(x) = &l {
                        let i = x.left.to_token_stream().to_string();
                        let len = x.right.to_token_stream().to_string().replace(" . ", ".");
                        let len = len.replace(".len ()", "@.len()");
                        if len.ends_with(".1") || len.contains(". 1") {
                            let s = len.replace(' ', "");
                            let z = s.replace(".1", ".0");
                            info.auto_inv.push(format!("{z} <= {i}"));
                            info.auto_inv.push(format!("{i} <= {s} || {i} == {z}"));
                        } else {
                            info.auto_inv.push(format!("{i} <= {len}"));
                        }
                        info.auto_dec = Some(format!("{len} - {i}"));
                    }
                }
            }
            self.infos.push(info);
            let mk: Stmt = syn::parse_str(&format!("__vx_loop!({k});")).unwrap();
            let st: Stmt = syn::parse_str(&format!("__vx_at!(loop {k} start);")).unwrap();
            let en: Stmt = syn::parse_str(&format!("__vx_at!(loop {k} end);")).unwrap();
            // start goes after the index increment of generated loops
            let pos = if self.map.values().any(|v| *v == k) { 1 } else { 0 };
            b.stmts.insert(pos.min(b.stmts.len()), st);
            b.stmts.insert(0, mk);
            if let Some(last) = b.stmts.last_mut() {
                if let Stmt::Expr(e, semi @ None) = last {
                    if !matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)) {
                        *semi = Some(Default::default());
                    }
                }
            }
            b.stmts.push(en);
        }
    }
    impl VisitMut for N {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::While(w) => {
                    let c = (*w.cond).clone();
                    if has_let(&c) {
                        self.err = Some("UNSUPPORTED while let".into());
                    }
                    self.body(Some(&c), &mut w.body);
                }
                Expr::Loop(l) => self.body(None, &mut l.body),
                Expr::ForLoop(f) => self.body(None, &mut f.body),
                _ => {}
            }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            let mut out = vec![];
            for mut s in std::mem::take(&mut b.stmts) {
                let is_loop = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _));
                let k = self.infos.len();
                self.visit_stmt_mut(&mut s);
                if is_loop {
                    out.push(syn::parse_str(&format!("__vx_at!(loop {k} before);")).unwrap());
                    out.push(s);
                    out.push(syn::parse_str(&format!("__vx_at!(loop {k} after);")).unwrap());
                } else {
                    out.push(s);
                }
            }
            // a trailing `after` marker must not follow the tail expression loop of type !
            b.stmts = out;
        }
    }
    let mut n = N { infos: vec![], map: HashMap::new(), err: None };
    n.visit_block_mut(b);
    if let Some(e) = n.err {
        return err(e);
    }
    // rename generated identifiers
    let map = n.map.clone();
    let ren = |s: &str| -> String {
        // __vx<kind>u<uid>x  ->  v<kind><k>
        let mut out = String::new();
        let mut rest = s;
        while let Some(p) = rest.find("__vx") {
            out.push_str(&rest[..p]);
            let t = &rest[p + 4..];
            let end = t.find(|c: char| !(c.is_alphanumeric())).unwrap_or(t.len());
            let tok = &t[..end];
            let mut done = false;
            if let Some(u) = tok.rfind('u') {
                if let Some(num) = tok[u + 1..].strip_suffix('x') {
                    if !num.is_empty() && num.chars().all(|c| c.is_ascii_digit()) {
                        let kind = &tok[..u];
                        match map.get(num) {
                            Some(k) => out.push_str(&format!("v{kind}{k}")),
                            None => out.push_str(&format!("w{kind}{num}")),
                        }
                        done = true;
                    }
                }
            }
            if !done {
                out.push_str("__vx");
                out.push_str(tok);
            }
            rest = &t[end..];
        }
        out.push_str(rest);
        out
    };
    let txt = b.to_token_stream().to_string();
    let nb: syn::Block = syn::parse_str(&ren(&txt)).map_err(|e| VxErr(format!("internal rename: {e}")))?;
    *b = nb;
    for i in &mut n.infos {
        for s in &mut i.auto_inv {
            *s = ren(s);
        }
        i.auto_dec = i.auto_dec.as_ref().map(|s| ren(s));
    }
    // mutated variables
    let muts = {
        struct V(Vec<String>);
        impl<'a> Visit<'a> for V {
            fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
                if i.mutability.is_some() {
                    let s = i.ident.to_string();
                    if !self.0.contains(&s) {
                        self.0.push(s)
                    }
                }
            }
        }
        let mut v = V(vec![]);
        v.visit_block(b);
        v.0
    };
    let loops = {
        struct V(Vec<syn::Block>);
        impl<'a> Visit<'a> for V {
            fn visit_expr(&mut self, e: &'a Expr) {
                match e {
                    Expr::While(w) => self.0.push(w.body.clone()),
                    Expr::Loop(w) => self.0.push(w.body.clone()),
                    Expr::ForLoop(w) => self.0.push(w.body.clone()),
                    _ => {}
                }
                syn::visit::visit_expr(self, e);
            }
        }
        let mut v = V(vec![]);
        v.visit_block(b);
        v.0
    };
    for (k, l) in loops.iter().enumerate() {
        let inner_decl = {
            struct V(Vec<String>);
            impl<'a> Visit<'a> for V {
                fn visit_local(&mut self, l: &'a syn::Local) {
                    self.0.extend(pat_idents(&l.pat));
                    syn::visit::visit_local(self, l);
                }
            }
            let mut v = V(vec![]);
            v.visit_block(l);
            v.0
        };
        for m in &muts {
            if inner_decl.contains(m) || m == &format!("vi{k}") || m.starts_with("vi") && m[2..].chars().all(|c| c.is_ascii_digit()) {
                continue;
            }
            if is_mutated(l, m) {
                n.infos[k].mutated.push(m.clone());
            }
        }
    }
    Ok(n.infos)
}

fn root_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root_ident(&f.base),
        Expr::Index(f) => root_ident(&f.expr),
        Expr::Unary(f) => root_ident(&f.expr),
        Expr::Paren(f) => root_ident(&f.expr),
        _ => None,
    }
}

fn is_mutated(b: &syn::Block, name: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_expr(&mut self, e: &'ast Expr) {
            let hit = match e {
                Expr::Assign(a) => root_ident(&a.left).as_deref() == Some(self.0),
                Expr::Binary(a) => {
                    use syn::BinOp::*;
                    matches!(
                        a.op,
                        AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_)
                            | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)
                    ) && root_ident(&a.left).as_deref() == Some(self.0)
                }
                Expr::Reference(r) if r.mutability.is_some() => root_ident(&r.expr).as_deref() == Some(self.0),
                Expr::MethodCall(m) => {
                    root_ident(&m.receiver).as_deref() == Some(self.0)
                        && matches!(
                            m.method.to_string().as_str(),
                            "push" | "push_str" | "insert" | "extend" | "append" | "pop" | "remove" | "clear" | "truncate" | "reverse" | "push_back" | "push_front" | "vinsert" | "vpush" | "vextend"
                        )
                }
                _ => false,
            };
            if hit {
                self.1 = true;
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut v = V(name, false);
    v.visit_block(b);
    v.1
}

/// insert __vx_at! markers for `arm-start P`, `after-let x`, `before-call f`, `after-call f`
pub fn mark_anchors(b: &mut syn::Block, d: &Directive) -> R<()> {
    struct A {
        arms: Vec<(String, usize, String)>,
        lets: Vec<(String, usize, String)>,
        calls: Vec<(String, usize, String, bool)>,
    }
    let split = |s: &str| -> (String, usize) {
        match s.split_once('#') {
            Some((a, n)) => (a.to_string(), n.parse().unwrap_or(0)),
            None => (s.to_string(), 0),
        }
    };
    let esc = |s: &str| s.replace("::", "_cc_").replace('#', "_n_");
    let mut a = A { arms: vec![], lets: vec![], calls: vec![] };
    let mut seen = std::collections::BTreeSet::new();
    for (k, _) in &d.entries {
        if !seen.insert(k.clone()) {
            continue;
        }
        if let Some(x) = k.strip_prefix("arm-start ") {
            let (h, n) = split(x);
            a.arms.push((h, n, format!("__vx_at!(arm-start {});", esc(x))));
        } else if let Some(x) = k.strip_prefix("after-let ") {
            let (h, n) = split(x);
            let n = if x.contains('#') { n } else { usize::MAX };
            a.lets.push((h, n, format!("__vx_at!(after-let {});", esc(x))));
        } else if let Some(x) = k.strip_prefix("before-call ") {
            let (h, n) = split(x);
            a.calls.push((h, n, format!("__vx_at!(before-call {});", esc(x)), true));
        } else if let Some(x) = k.strip_prefix("after-call ") {
            let (h, n) = split(x);
            a.calls.push((h, n, format!("__vx_at!(after-call {});", esc(x)), false));
        }
    }
    struct V {
        a: A,
        acount: HashMap<String, usize>,
        ccount: HashMap<String, usize>,
        lcount: HashMap<String, usize>,
    }
    fn calls(s: &Stmt, f: &str) -> bool {
        struct C<'a>(&'a str, bool);
        impl<'a, 'ast> Visit<'ast> for C<'a> {
            fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
                if let Expr::Path(p) = &*c.func {
                    if p.path.segments.last().unwrap().ident == self.0 {
                        self.1 = true;
                    }
                }
                syn::visit::visit_expr_call(self, c);
            }
            fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
                if c.method == self.0 {
                    self.1 = true;
                }
                syn::visit::visit_expr_method_call(self, c);
            }
            fn visit_block(&mut self, _: &'ast syn::Block) {}
        }
        let mut c = C(f, false);
        c.visit_stmt(s);
        c.1
    }
    impl VisitMut for V {
        fn visit_arm_mut(&mut self, arm: &mut syn::Arm) {
            let heads = pat_heads(&arm.pat);
            let mut ins = vec![];
            for (h, n, mark) in &self.a.arms {
                if heads.iter().any(|x| x == h) {
                    let c = self.acount.entry(h.clone()).or_insert(0);
                    if *c == *n {
                        ins.push(mark.clone());
                    }
                    *c += 1;
                }
            }
            visit_mut::visit_arm_mut(self, arm);
            if !ins.is_empty() {
                let body = &arm.body;
                let ms: Vec<Stmt> = ins.iter().map(|m| syn::parse_str(m).unwrap()).collect();
                let nb: Expr = match &**body {
                    Expr::Block(b) if b.label.is_none() => {
                        let st = &b.block.stmts;
                        parse_quote!({ #(#ms)* #(#st)* })
                    }
                    e => parse_quote!({ #(#ms)* #e }),
                };
                *arm.body = nb;
            }
        }
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            let mut out = vec![];
            let n = b.stmts.len();
            for (ix, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
                let mut after = vec![];
                let mut before = vec![];
                if let Stmt::Local(l) = &s {
                    for x in pat_idents(&l.pat) {
                        let c = *self.lcount.entry(x.clone()).and_modify(|c| *c += 1).or_insert(0);
                        for (h, n, mark) in &self.a.lets {
                            if *h == x && (*n == usize::MAX || *n == c) {
                                after.push(mark.clone());
                            }
                        }
                    }
                }
                for (f, k, mark, bef) in &self.a.calls {
                    if calls(&s, f) {
                        let key = format!("{f}{bef}");
                        let c = self.ccount.entry(key).or_insert(0);
                        if *c == *k {
                            if *bef {
                                before.push(mark.clone())
                            } else {
                                after.push(mark.clone())
                            }
                        }
                        *c += 1;
                    }
                }
                self.visit_stmt_mut(&mut s);
                for m in before {
                    out.push(syn::parse_str(&m).unwrap());
                }
                let tail = ix + 1 == n && matches!(&s, Stmt::Expr(_, None));
                if tail && !after.is_empty() {
                    let Stmt::Expr(e, None) = &s else { unreachable!() };
                    out.push(parse_quote!(let __ret = #e;));
                    for m in after {
                        out.push(syn::parse_str(&m).unwrap());
                    }
                    out.push(Stmt::Expr(parse_quote!(__ret), None));
                } else {
                    out.push(s);
                    for m in after {
                        out.push(syn::parse_str(&m).unwrap());
                    }
                }
            }
            b.stmts = out;
        }
    }
    let mut v = V { a, acount: HashMap::new(), ccount: HashMap::new(), lcount: HashMap::new() };
    v.visit_block_mut(b);
    Ok(())
}

/// the variable's only use is one `x.next()`, outside loops and closures
fn one_next(rest: &[Stmt], x: &syn::Ident) -> bool {
    struct V<'a>(&'a syn::Ident, usize, usize);
    impl<'a> syn::visit::Visit<'a> for V<'_> {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {
                    let n = self.2;
                    syn::visit::visit_expr(self, e);
                    self.2 = n;
                }
                Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident(self.0)) => {
                    self.1 += 1;
                    self.2 += 1;
                }
                Expr::Path(p) if p.path.is_ident(self.0) => self.1 += 1,
                Expr::Macro(m) if m.mac.tokens.clone().into_iter().any(|t| matches!(&t, proc_macro2::TokenTree::Ident(i) if i == self.0)) => self.1 += 2,
                _ => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut v = V(x, 0, 0);
    for s in rest {
        syn::visit::Visit::visit_stmt(&mut v, s);
    }
    v.1 == 1 && v.2 == 1
}
