//! vx: mechanical extraction of Rust functions from /repo into a Verus file.
//!
//! usage: vx <script.rs> <repo-root> <out.rs> <report.json>
//!
//! The script is Verus text with directives between `/*@` and `@*/`. Each directive names an item
//! of the real source; the item is parsed with syn, transformed by the rules listed in the script
//! (plus the built-in desugarings in desugar.rs), and printed with the contract text attached.
mod desugar;
mod inline;
mod mac;
mod rules;

use quote::ToTokens;
use rules::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;

#[derive(Debug, Clone)]
pub struct VxErr(pub String);
pub type R<T> = Result<T, VxErr>;
pub fn err<T>(s: impl Into<String>) -> R<T> {
    Err(VxErr(s.into()))
}

#[derive(Clone, Debug, Default)]
pub struct Directive {
    pub kind: String,
    pub file: String,
    pub path: String,
    pub rename: Option<String>,
    pub entries: Vec<(String, String)>,
}

impl Directive {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.entries.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
    pub fn all<'a>(&'a self, k: &'a str) -> impl Iterator<Item = &'a str> + 'a {
        self.entries.iter().filter(move |(n, _)| n == k).map(|(_, v)| v.as_str())
    }
}

enum Seg {
    Text(String),
    Dir(Directive),
}

fn parse_directive(s: &str) -> R<Directive> {
    let mut d = Directive::default();
    let mut lines = s.lines();
    let head = loop {
        match lines.next() {
            Some(l) if l.trim().is_empty() => continue,
            Some(l) => break l.trim().to_string(),
            None => return err("empty directive"),
        }
    };
    // kind file :: path [as name]
    let (kind, rest) = head.split_once(' ').unwrap_or((head.as_str(), ""));
    d.kind = kind.to_string();
    let rest = rest.trim();
    if let Some((f, p)) = rest.split_once(" :: ") {
        d.file = f.trim().to_string();
        let mut p = p.trim().to_string();
        if let Some((a, b)) = p.clone().rsplit_once(" as ") {
            if !b.contains('>') {
                p = a.trim().to_string();
                d.rename = Some(b.trim().to_string());
            }
        }
        d.path = p;
    } else {
        d.file = rest.to_string();
    }
    for l in lines {
        let indented = l.starts_with(' ') || l.starts_with('\t');
        if l.trim().is_empty() {
            continue;
        }
        if !indented {
            let (k, v) = match l.split_once(": ") {
                Some((k, v)) => (k.trim().to_string(), v.trim().to_string()),
                None => match l.trim().strip_suffix(':') {
                    Some(k) => (k.to_string(), String::new()),
                    None => return err(format!("bad directive line: {l}")),
                },
            };
            d.entries.push((k, v));
        } else if let Some(last) = d.entries.last_mut() {
            last.1.push('\n');
            last.1.push_str(l);
        } else {
            return err(format!("continuation without key: {l}"));
        }
    }
    Ok(d)
}

fn load_script(path: &std::path::Path) -> R<String> {
    let s = std::fs::read_to_string(path).map_err(|e| VxErr(format!("{path:?}: {e}")))?;
    let mut out = String::new();
    for l in s.lines() {
        if let Some(inc) = l.trim().strip_prefix("//@include ") {
            let p = path.parent().unwrap().join(inc.trim());
            out.push_str(&load_script(&p)?);
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    Ok(out)
}

fn parse_script(s: &str) -> R<Vec<Seg>> {
    let mut out = vec![];
    let mut rest = s;
    while let Some(p) = rest.find("/*@") {
        out.push(Seg::Text(rest[..p].to_string()));
        let after = &rest[p + 3..];
        let Some(e) = after.find("@*/") else {
            return err("unterminated directive");
        };
        out.push(Seg::Dir(parse_directive(&after[..e])?));
        rest = &after[e + 3..];
    }
    out.push(Seg::Text(rest.to_string()));
    Ok(out)
}

pub struct Repo {
    root: std::path::PathBuf,
    files: HashMap<String, syn::File>,
    expand: Vec<String>,
}

impl Repo {
    pub fn file(&mut self, f: &str) -> R<&syn::File> {
        if !self.files.contains_key(f) {
            let p = self.root.join(f);
            let s = std::fs::read_to_string(&p).map_err(|e| VxErr(format!("LOST-ANCHOR {f}: {e}")))?;
            let mut parsed = syn::parse_file(&s).map_err(|e| VxErr(format!("cannot parse {f}: {e}")))?;
            mac::run(&mut parsed, &self.expand);
            self.files.insert(f.to_string(), parsed);
        }
        Ok(&self.files[f])
    }
}

#[derive(Clone)]
pub struct FoundFn {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub self_ty: Option<syn::Type>,
    pub impl_generics: Option<syn::Generics>,
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn ty_name(t: &syn::Type) -> String {
    norm(&t.to_token_stream().to_string())
}

fn ty_last(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_last(&r.elem),
        o => ty_name(o),
    }
}

/// all items, flattening inline modules (not `mod tests`)
pub fn items(f: &[syn::Item]) -> Vec<&syn::Item> {
    let mut out = vec![];
    for i in f {
        if let syn::Item::Mod(m) = i {
            if m.ident == "tests" || m.ident.to_string().ends_with("_tests") {
                continue;
            }
            if let Some((_, c)) = &m.content {
                out.extend(items(c));
            }
        } else {
            out.push(i);
        }
    }
    out
}

/// local variables named like Verus' ghost types
struct RenameKw;
impl VisitMut for RenameKw {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if p.ident == "int" || p.ident == "nat" {
            p.ident = quote::format_ident!("{}_", p.ident);
        }
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, e: &mut syn::ExprPath) {
        if e.path.is_ident("int") || e.path.is_ident("nat") {
            let i = &mut e.path.segments[0].ident;
            *i = quote::format_ident!("{}_", i);
        }
    }
}

/// `use a::B as C;` inside a body: C is written B; other local uses only shorten paths
fn local_uses(b: &mut syn::Block) {
    fn leaf(t: &syn::UseTree, out: &mut Vec<(String, String)>) {
        match t {
            syn::UseTree::Path(p) => leaf(&p.tree, out),
            syn::UseTree::Rename(r) => out.push((r.rename.to_string(), r.ident.to_string())),
            syn::UseTree::Group(g) => g.items.iter().for_each(|t| leaf(t, out)),
            _ => {}
        }
    }
    let mut al = vec![];
    b.stmts.retain(|s| match s {
        syn::Stmt::Item(syn::Item::Use(u)) => {
            leaf(&u.tree, &mut al);
            false
        }
        _ => true,
    });
    struct V(Vec<(String, String)>);
    impl VisitMut for V {
        fn visit_path_mut(&mut self, p: &mut syn::Path) {
            if let Some(f) = p.segments.first_mut() {
                if let Some((_, n)) = self.0.iter().find(|(a, _)| f.ident == a) {
                    f.ident = quote::format_ident!("{}", n);
                }
            }
            syn::visit_mut::visit_path_mut(self, p);
        }
    }
    if !al.is_empty() {
        V(al).visit_block_mut(b);
    }
}

pub fn find_fn(f: &syn::File, path: &str) -> R<FoundFn> {
    let np = norm(path);
    let mut found = vec![];
    for it in items(&f.items) {
        match it {
            syn::Item::Fn(i) if norm(&i.sig.ident.to_string()) == np => found.push(FoundFn {
                sig: i.sig.clone(),
                block: (*i.block).clone(),
                self_ty: None,
                impl_generics: None,
            }),
            syn::Item::Impl(im) => {
                for ii in &im.items {
                    if let syn::ImplItem::Fn(m) = ii {
                        let tyl = ty_last(&im.self_ty);
                        let full = ty_name(&im.self_ty);
                        let mut names = vec![
                            format!("{tyl}::{}", m.sig.ident),
                            format!("{full}::{}", m.sig.ident),
                        ];
                        if let Some((_, tr, _)) = &im.trait_ {
                            let trs = norm(&tr.to_token_stream().to_string());
                            let trl = tr.segments.last().unwrap().ident.to_string();
                            names = vec![];
                            for t in [&tyl, &full] {
                                names.push(format!("<{trs}for{t}>::{}", m.sig.ident));
                                names.push(format!("<{trl}for{t}>::{}", m.sig.ident));
                            }
                        }
                        if names.iter().any(|n| norm(n) == np) {
                            found.push(FoundFn {
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                                self_ty: Some((*im.self_ty).clone()),
                                impl_generics: Some(im.generics.clone()),
                            })
                        }
                    }
                }
            }
            syn::Item::Trait(t) => {
                for ii in &t.items {
                    if let syn::TraitItem::Fn(m) = ii {
                        if norm(&format!("{}::{}", t.ident, m.sig.ident)) == np {
                            if let Some(b) = &m.default {
                                found.push(FoundFn {
                                    sig: m.sig.clone(),
                                    block: b.clone(),
                                    self_ty: None,
                                    impl_generics: None,
                                })
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    match found.len() {
        1 => Ok(found.pop().unwrap()),
        0 => err(format!("LOST-ANCHOR function {path} not found")),
        n => err(format!("LOST-ANCHOR function {path} found {n} times")),
    }
}

fn find_type(f: &syn::File, name: &str) -> R<syn::Item> {
    for it in items(&f.items) {
        match it {
            syn::Item::Enum(e) if e.ident == name => return Ok(it.clone()),
            syn::Item::Struct(e) if e.ident == name => return Ok(it.clone()),
            syn::Item::Type(e) if e.ident == name => return Ok(it.clone()),
            syn::Item::Const(e) if e.ident == name => return Ok(it.clone()),
            // a type handed to a macro that only wraps it
            syn::Item::Macro(m) => {
                if let Ok(syn::Item::Struct(e)) = syn::parse2::<syn::Item>(m.mac.tokens.clone()) {
                    if e.ident == name {
                        return Ok(syn::Item::Struct(e));
                    }
                }
            }
            _ => {}
        }
    }
    err(format!("LOST-ANCHOR type {name} not found"))
}

pub struct Ctx {
    pub repo: Repo,
    pub rules: Rules,
    pub known: BTreeSet<String>,
    pub notes: Vec<String>,
}

/// drop attributes everywhere
struct DropAttrs;
impl VisitMut for DropAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

fn pretty_item(it: syn::Item) -> String {
    prettyplease::unparse(&syn::File { shebang: None, attrs: vec![], items: vec![it] })
}

fn do_type(cx: &mut Ctx, d: &Directive) -> R<String> {
    let f = cx.repo.file(&d.file)?;
    let mut it = find_type(f, &d.path)?.clone();
    DropAttrs.visit_item_mut(&mut it);
    let rules = cx.rules.with(d)?;
    let drop: Vec<String> = d
        .get("drop")
        .map(|s| s.split(',').map(|s| s.trim().to_string()).collect())
        .unwrap_or_default();
    let keep: Option<Vec<String>> = d.get("keep").map(|s| s.split(',').map(|s| s.trim().to_string()).collect());
    let mut extra = String::new();
    match &mut it {
        syn::Item::Enum(e) => {
            let vs: Vec<_> = e
                .variants
                .iter()
                .filter(|v| !drop.contains(&v.ident.to_string()) && keep.as_ref().map(|k| k.contains(&v.ident.to_string())).unwrap_or(true))
                .cloned()
                .collect();
            if let Some(k) = &keep {
                for n in k {
                    if !vs.iter().any(|v| v.ident == n) {
                        return err(format!("LOST-ANCHOR variant {}::{}", d.path, n));
                    }
                }
                cx.notes.push(format!("{}::{}: kept {} of {} variants", d.file, d.path, vs.len(), e.variants.len()));
            }
            e.variants = vs.into_iter().collect();
            if keep.is_some() {
                e.variants.push(syn::parse_quote!(VxOther(u64)));
            }
            if d.get("ord").is_some() {
                // the order #[derive(PartialOrd)] gives: declaration order
                let mut t = format!("pub open spec fn vord_{0}(x: {0}) -> int {{ match x {{ ", d.path);
                for (k, v) in e.variants.iter().enumerate() {
                    let pat = match &v.fields { syn::Fields::Unit => "", _ => return err(format!("SHAPE {}: ord of a variant with fields", d.path)) };
                    if v.discriminant.is_some() { return err(format!("SHAPE {}: ord with explicit discriminants", d.path)) }
                    t.push_str(&format!("{}::{}{} => {}, ", d.path, v.ident, pat, k));
                }
                t.push_str("} }\n");
                extra = t;
            }
            e.vis = syn::parse_quote!(pub);
        }
        syn::Item::Struct(e) => {
            e.vis = syn::parse_quote!(pub);
            if let syn::Fields::Named(n) = &mut e.fields {
                let fs: Vec<_> = n
                    .named
                    .iter()
                    .filter(|v| !drop.contains(&v.ident.as_ref().unwrap().to_string()))
                    .cloned()
                    .collect();
                n.named = fs.into_iter().collect();
            }
            for f in e.fields.iter_mut() {
                f.vis = syn::parse_quote!(pub);
            }
        }
        syn::Item::Type(e) => e.vis = syn::parse_quote!(pub),
        syn::Item::Const(e) => e.vis = syn::parse_quote!(pub),
        _ => {}
    }
    for k in &drop {
        cx.notes.push(format!("{}::{}: dropped {}", d.file, d.path, k));
    }
    rules.apply_item(&mut it);
    let mut s = String::new();
    let mut txt = pretty_item(it);
    if let Some(r) = &d.rename {
        txt = txt.replacen(&format!(" {}", d.path), &format!(" {r}"), 1);
    }
    if let Some(a) = d.get("attr") {
        writeln!(s, "{a}").unwrap();
    }
    s.push_str(&txt);
    s.push_str(&extra);
    Ok(s)
}

/// Locate the arm selected by `arm:` inside a fn body; returns arm body as expression.
fn select_arm(block: &syn::Block, want: &str) -> R<(syn::Pat, Option<syn::Expr>, syn::Expr)> {
    use syn::visit::Visit;
    struct V<'a> {
        want: &'a str,
        out: Vec<(syn::Pat, Option<syn::Expr>, syn::Expr)>,
    }
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_arm(&mut self, a: &'ast syn::Arm) {
            if desugar::pat_heads(&a.pat).iter().any(|h| h == self.want) {
                self.out.push((
                    a.pat.clone(),
                    a.guard.as_ref().map(|g| (*g.1).clone()),
                    (*a.body).clone(),
                ));
            }
            syn::visit::visit_arm(self, a);
        }
    }
    // want may be "Head" or "Head#n" or "A / B" (arm B inside arm A)
    if let Some((a, b)) = want.split_once(" / ") {
        let (_, _, body) = select_arm(block, a)?;
        let blk: syn::Block = syn::parse_quote!({ #body });
        return select_arm(&blk, b);
    }
    let (head, n) = match want.split_once('#') {
        Some((h, n)) => (h, n.parse::<usize>().unwrap_or(0)),
        None => (want, 0),
    };
    let mut v = V { want: head, out: vec![] };
    v.visit_block(block);
    if n < v.out.len() {
        Ok(v.out.swap_remove(n))
    } else {
        err(format!("LOST-ANCHOR match arm {want} not found"))
    }
}

/// all identifiers that occur in a piece of code
fn idents_of(x: &impl ToTokens) -> BTreeSet<String> {
    fn go(t: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        for x in t {
            match x {
                proc_macro2::TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                _ => {}
            }
        }
    }
    let mut out = BTreeSet::new();
    go(x.to_token_stream(), &mut out);
    out
}

/// `split: arms`: the body's final match is verified arm by arm. Copy k keeps arm k and diverges in
/// all others; the function itself dispatches to the copies. Same obligations, one query per arm.
fn do_fn(cx: &mut Ctx, d: &Directive) -> R<String> {
    if d.get("split").is_none() || d.get("__only").is_some() {
        return do_fn1(cx, d);
    }
    if let Some(on) = d.get("split").unwrap().trim().strip_prefix("on ") {
        // `split: on A, B`: one copy of the function per path through the arms of the matches on A
        // and (inside that arm) on B; every other arm diverges. The loop invariants are the same in
        // each copy, so the union of the copies' obligations is that of the whole function.
        let base = d.rename.clone().unwrap_or_else(|| d.path.rsplit("::").next().unwrap().trim_end_matches('>').to_string());
        let mut out = String::new();
        let mut todo: Vec<String> = vec![format!("?{on}")];
        let mut n = 0;
        while !todo.is_empty() {
            let cur = todo.remove(0);
            let mut c = d.clone();
            c.rename = Some(format!("{base}__arm{n}"));
            c.entries.push(("__only".into(), cur.clone()));
            let nn = cx.notes.len();
            match do_fn1(cx, &c) {
                Ok(t) => {
                    out.push_str(&t);
                    if n > 0 {
                        cx.notes.truncate(nn);
                    }
                    n += 1;
                }
                Err(e) => match e.0.strip_prefix("SPLIT ") {
                    Some(more) => todo.extend(more.split('|').map(|x| x.to_string())),
                    None => return Err(e),
                },
            }
        }
        return Ok(out);
    }
    let mut out = String::new();
    let base = d.rename.clone().unwrap_or_else(|| d.path.rsplit("::").next().unwrap().trim_end_matches('>').to_string());
    let mut m = d.clone();
    m.entries.push(("__only".into(), "dispatch".into()));
    let main = do_fn1(cx, &m)?;
    let n = main.matches("/*VXARM*/").count().max(main.matches("__arm").count());
    for k in 0..n {
        let mut c = d.clone();
        c.rename = Some(format!("{base}__arm{k}"));
        c.entries.push(("__only".into(), k.to_string()));
        let nn = cx.notes.len();
        out.push_str(&do_fn1(cx, &c)?);
        cx.notes.truncate(nn);
    }
    out.push_str(&main);
    Ok(out)
}

/// the first match on an expression that reads `scrut`
fn find_match<'a>(b: &'a mut syn::Block, scrut: &str) -> Option<&'a mut syn::ExprMatch> {
    struct F<'s>(&'s str, Option<*mut syn::ExprMatch>);
    impl VisitMut for F<'_> {
        fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
            if self.1.is_none() && m.expr.to_token_stream().to_string().replace(' ', "") == self.0.replace(' ', "") {
                self.1 = Some(m);
            } else {
                syn::visit_mut::visit_expr_match_mut(self, m);
            }
        }
    }
    let mut f = F(scrut, None);
    f.visit_block_mut(b);
    f.1.map(|p| unsafe { &mut *p })
}

fn do_fn1(cx: &mut Ctx, d: &Directive) -> R<String> {
    let file = cx.repo.file(&d.file)?.clone();
    let mut found = find_fn(&file, &d.path)?;
    let rules = cx.rules.with(d)?;
    let orig_src = found.block.to_token_stream().to_string();
    DropAttrs.visit_block_mut(&mut found.block);
    RenameKw.visit_block_mut(&mut found.block);
    local_uses(&mut found.block);
    let mut arm_pat = None;
    if let Some(a) = d.get("arm") {
        let (p, _g, body) = select_arm(&found.block, a.trim())?;
        arm_pat = Some(p);
        let mut stmts: Vec<syn::Stmt> = vec![];
        // bring along the named lets that precede the match in the body
        if let Some(l) = d.get("lets") {
            for name in l.split(',') {
                let name = name.trim();
                let st = desugar::find_let(&found.block, name)
                    .ok_or_else(|| VxErr(format!("LOST-ANCHOR let {name} in {}", d.path)))?;
                stmts.push(st);
            }
        }
        // only the statements before the first one that starts with `until:`; `tail:` is the result
        let body = match (d.get("until"), body) {
            (Some(u), syn::Expr::Block(mut b)) => {
                let norm = |t: String| t.chars().filter(|c| !c.is_whitespace()).collect::<String>();
                let u = norm(u.to_string());
                let n = b.block.stmts.iter().position(|s| norm(s.to_token_stream().to_string()).starts_with(&u));
                let Some(n) = n else { return err(format!("LOST-ANCHOR statement {u} in {}", d.path)) };
                b.block.stmts.truncate(n);
                let t: syn::Expr = syn::parse_str(d.get("tail").unwrap_or("()").trim()).map_err(|_| VxErr("bad tail:".into()))?;
                b.block.stmts.push(syn::Stmt::Expr(t, None));
                cx.notes.push(format!("{}: the statements of the arm {a} from `{u}` on are dropped", d.path));
                syn::Expr::Block(b)
            }
            (None, b) if d.get("tail").is_some() => {
                let t: syn::Expr = syn::parse_str(d.get("tail").unwrap().trim()).map_err(|_| VxErr("bad tail:".into()))?;
                syn::parse_quote!({ #b; #t })
            }
            (_, b) => b,
        };
        let mut blk: syn::Block = syn::parse_quote!({});
        blk.stmts = stmts;
        blk.stmts.push(syn::Stmt::Expr(body, None));
        found.block = blk;
    }
    // only the value of one let of the body; a closure becomes a function of its own
    if let Some(l) = d.get("take") {
        let l = l.trim();
        let st = desugar::find_let(&found.block, l).ok_or_else(|| VxErr(format!("LOST-ANCHOR let {l} in {}", d.path)))?;
        let syn::Stmt::Local(loc) = st else { return err(format!("LOST-ANCHOR let {l} in {}", d.path)) };
        let Some(init) = loc.init else { return err(format!("LOST-ANCHOR let {l} in {}", d.path)) };
        let mut stmts: Vec<syn::Stmt> = vec![];
        for name in d.get("lets").unwrap_or("").split(',').map(|n| n.trim()).filter(|n| !n.is_empty()) {
            stmts.push(desugar::find_let(&found.block, name).ok_or_else(|| VxErr(format!("LOST-ANCHOR let {name} in {}", d.path)))?);
        }
        let body = match *init.expr {
            syn::Expr::Closure(c) => {
                for (i, p) in c.inputs.iter().enumerate() {
                    let q = quote::format_ident!("q{}", i);
                    let p = match p { syn::Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    if !matches!(&p, syn::Pat::Ident(x) if x.ident == q) {
                        stmts.push(syn::parse_quote!(let #p = #q;));
                    }
                }
                *c.body
            }
            e => e,
        };
        cx.notes.push(format!("{}: only the value of `{l}` is taken, the rest of the function is dropped", d.path));
        let mut blk: syn::Block = syn::parse_quote!({});
        match body {
            syn::Expr::Block(b) if b.label.is_none() => { stmts.extend(b.block.stmts); blk.stmts = stmts; }
            e => {
                blk.stmts = stmts;
                let e = match d.get("wrap") {
                    Some(w) => { let w: syn::Path = syn::parse_str(w.trim()).map_err(|_| VxErr("bad wrap:".into()))?; syn::parse_quote!(#w(#e)) }
                    None => e,
                };
                blk.stmts.push(syn::Stmt::Expr(e, None));
            }
        }
        found.block = blk;
    }
    let name = d.rename.clone().unwrap_or_else(|| found.sig.ident.to_string());

    // 1. helper inlining (functions of the same file that carry no contract)
    inline::inline_block(&file, &mut found, &cx.known, &mut cx.notes, &name)?;
    inline::closures(&mut found.block, &mut cx.notes);
    if let Some(syn::FnArg::Receiver(r)) = found.sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() && d.get("sig").is_none() {
            // `mut self` becomes a local variable
            struct This;
            impl syn::visit_mut::VisitMut for This {
                fn visit_path_mut(&mut self, p: &mut syn::Path) {
                    if p.is_ident("self") { p.segments[0].ident = quote::format_ident!("vthis"); }
                    syn::visit_mut::visit_path_mut(self, p);
                }
            }
            r.mutability = None;
            syn::visit_mut::VisitMut::visit_block_mut(&mut This, &mut found.block);
            found.block.stmts.insert(0, syn::parse_quote!(let mut vthis = self;));
        }
    }
    if let Some(t) = d.get("selfty") {
        struct SelfTy(syn::Ident);
        impl syn::visit_mut::VisitMut for SelfTy {
            fn visit_path_mut(&mut self, p: &mut syn::Path) {
                if p.segments[0].ident == "Self" { p.segments[0].ident = self.0.clone(); }
                syn::visit_mut::visit_path_mut(self, p);
            }
        }
        syn::visit_mut::VisitMut::visit_block_mut(&mut SelfTy(quote::format_ident!("{}", t.trim())), &mut found.block);
    }
    // 2. rewrite rules
    rules.apply_block(&mut found.block);
    // 3. built-in desugarings
    let mut ds = desugar::Desugar::new(d);
    ds.block(&mut found.block)?;
    rules.apply_block(&mut found.block);
    // 4. number loops, mark
    let loops = desugar::number_loops(&mut found.block)?;
    if let Some(n) = d.get("loops") {
        let n: usize = n.trim().parse().map_err(|_| VxErr("bad loops:".into()))?;
        if n != loops.len() {
            return err(format!("SHAPE {}: expected {} loops, found {}", d.path, n, loops.len()));
        }
    }
    // params
    let mut params: Vec<String> = vec![];
    let mut pnames: Vec<String> = vec![];
    for p in &found.sig.inputs {
        match p {
            syn::FnArg::Receiver(r) => {
                if d.get("sig").is_none() {
                    params.push(if d.get("mutself").is_some() { "&mut self".into() } else { r.to_token_stream().to_string() })
                }
            }
            syn::FnArg::Typed(t) => {
                let mut t = t.clone();
                let mut prefix = String::new();
                if let syn::Pat::Ident(i) = &mut *t.pat {
                    if i.mutability.is_some() {
                        i.mutability = None;
                        prefix = i.ident.to_string();
                    }
                    pnames.push(i.ident.to_string());
                } else {
                    pnames.push("_".into());
                }
                rules.apply_type(&mut t.ty);
                if !prefix.is_empty() {
                    let id = quote::format_ident!("{}", prefix);
                    found.block.stmts.insert(0, syn::parse_quote!(let mut #id = #id;));
                }
                params.push(t.to_token_stream().to_string());
            }
        }
    }
    let ret = match &found.sig.output {
        syn::ReturnType::Default => None,
        syn::ReturnType::Type(_, t) => {
            let mut t = (**t).clone();
            rules.apply_type(&mut t);
            Some(t.to_token_stream().to_string())
        }
    };
    let mut generics = {
        let g = &found.sig.generics;
        g.to_token_stream().to_string()
    };
    if let Some(g) = d.get("generics") {
        generics = g.trim().to_string();
    }
    desugar::mark_anchors(&mut found.block, d)?;
    if let Some(only) = d.get("__only").filter(|o| o.starts_with('?')) {
        // "?A=2;B=3;C": arms chosen for the first matches; the last item without `=k` is still open
        for (item, list) in only[1..].split(';').map(|i| i.split_once('=').map_or((i, None), |(a, k)| (a, Some(k)))).collect::<Vec<_>>() {
            let Some(k) = list else {
                // open: scrutinees still to be split on
                let mut rest: Vec<&str> = item.split(',').map(|x| x.trim()).collect();
                let mut more = vec![];
                while !rest.is_empty() {
                    let s0 = rest.remove(0);
                    if let Some(m) = find_match(&mut found.block, s0) {
                        for (j, a) in m.arms.iter().enumerate() {
                            if a.body.to_token_stream().to_string().replace(' ', "") != "vdiverge()" {
                                let done = only.rsplit_once(';').map(|x| x.0.to_string() + ";").unwrap_or("?".into());
                                let tail = if rest.is_empty() { String::new() } else { format!(";{}", rest.join(",")) };
                                more.push(format!("{done}{s0}={j}{tail}"));
                            }
                        }
                        break;
                    }
                }
                if !more.is_empty() {
                    return err(format!("SPLIT {}", more.join("|")));
                }
                continue;
            };
            let Some(m) = find_match(&mut found.block, item) else {
                return err(format!("SHAPE {}: no match on {item}", d.path));
            };
            for (j, a) in m.arms.iter_mut().enumerate() {
                if j.to_string() != k {
                    a.body = Box::new(syn::parse_quote!(vdiverge()));
                }
            }
        }
    } else if let Some(only) = d.get("__only") {
        let is_m = found.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Receiver(_))) && d.get("sig").is_none();
        let Some(syn::Stmt::Expr(syn::Expr::Match(m), _)) = found.block.stmts.last_mut() else {
            return err(format!("SHAPE {}: split needs a final match", d.path));
        };
        for (k, a) in m.arms.iter_mut().enumerate() {
            if only == "dispatch" {
                let f = quote::format_ident!("{}__arm{}", name, k);
                let args: Vec<syn::Ident> = pnames.iter().map(|p| quote::format_ident!("{}", p)).collect();
                a.body = Box::new(if is_m { syn::parse_quote!(self.#f(#(#args),*)) } else { syn::parse_quote!(#f(#(#args),*)) });
            } else if only != k.to_string() {
                a.body = Box::new(syn::parse_quote!(vdiverge()));
            }
        }
        if only == "dispatch" {
            let m = found.block.stmts.pop().unwrap();
            // the dispatcher decides nothing but which copy runs: it keeps the bindings the final
            // match depends on, all other statements are verified in every copy
            let mut need: BTreeSet<String> = idents_of(&m);
            let mut keep = vec![];
            for s in found.block.stmts.iter().rev() {
                if let syn::Stmt::Local(l) = s {
                    if desugar::pat_idents(&l.pat).iter().any(|i| need.contains(i)) {
                        need.extend(idents_of(s));
                        keep.push(s.clone());
                    }
                }
            }
            keep.reverse();
            keep.push(m);
            found.block.stmts = keep;
        }
    }

    let mut dummy: syn::ItemFn = syn::parse_quote!(fn __vx_body() {});
    *dummy.block = found.block.clone();
    let body = pretty_item(syn::Item::Fn(dummy));
    let body = body.trim_start().strip_prefix("fn __vx_body()").unwrap().trim().to_string();

    // arm-bound identifiers: `$b0`, `$b1`.. in declaration order
    let binds = arm_pat.map(|p| desugar::pat_idents(&p)).unwrap_or_default();

    let subst = |txt: &str, lp: Option<&desugar::LoopInfo>| -> String {
        let mut t = txt.to_string();
        if let Some(l) = lp {
            for (i, m) in l.mutated.iter().enumerate() {
                t = t.replace(&format!("$a{i}"), m);
            }
        }
        for (k, l) in loops.iter().enumerate() {
            for (i, m) in l.mutated.iter().enumerate() {
                t = t.replace(&format!("$L{k}a{i}"), m);
            }
        }
        for (i, p) in pnames.iter().enumerate() {
            t = t.replace(&format!("${}", i + 1), p);
        }
        for (i, p) in binds.iter().enumerate() {
            t = t.replace(&format!("$b{i}"), p);
        }
        t
    };

    // loop headers
    let mut body = body;
    for (k, l) in loops.iter().enumerate() {
        let mark = format!("__vx_loop!({k});");
        let pos = match body.find(&mark) {
            Some(p) => p,
            None if d.get("__only").is_some() => continue,
            None => return err("internal: loop mark lost"),
        };
        let brace = body[..pos].rfind('{').unwrap();
        let mut hdr = String::new();
        let mut invs: Vec<String> = l.auto_inv.clone();
        for s in d.all(&format!("loop {k} inv")) {
            invs.push(subst(s, Some(l)));
        }
        for s in d.all("loop all inv") {
            invs.push(subst(s, Some(l)));
        }
        hdr.push('\n');
        for s in d.all(&format!("loop {k} xinv")) {
            hdr.push_str(&format!("    invariant_except_break\n        {},\n", subst(s, Some(l)).trim().trim_end_matches(',')));
        }
        if !invs.is_empty() {
            hdr.push_str("    invariant\n");
            for i in &invs {
                let i = i.trim().trim_end_matches(',');
                hdr.push_str(&format!("        {i},\n"));
            }
        }
        for s in d.all(&format!("loop {k} ensures")) {
            hdr.push_str(&format!("    ensures\n        {},\n", subst(s, Some(l)).trim().trim_end_matches(',')));
        }
        let dec = d
            .get(&format!("loop {k} dec"))
            .map(|s| subst(s, Some(l)))
            .or(l.auto_dec.clone());
        if let Some(dec) = dec {
            if dec.trim() != "none" {
                hdr.push_str(&format!("    decreases {}\n", dec.trim()));
            }
        }
        body.replace_range(brace..pos + mark.len(), &format!("{hdr}{{"));
        if let Some(t) = d.get(&format!("loop {k} acc")) {
            body = body.replace(&format!("let mut vacc{k} ="), &format!("let mut vacc{k}: {} =", t.trim()));
        }
        for (tag, key) in [("start", "start"), ("end", "end"), ("after", "after"), ("before", "before")] {
            let m = format!("__vx_at!(loop {k} {tag});");
            let mut t = String::new();
            for s in d.all(&format!("loop {k} {key}")) {
                t.push_str(&subst(s, Some(l)));
            }
            body = body.replace(&m, &t);
        }
    }
    // remaining anchors
    for p in ["arm-start", "after-let", "before-call", "after-call"] {
        body = body.replace(&format!("__vx_at!({} ", p.replace('-', " - ")), &format!("__vx_at!({p} "));
    }
    for (k, v) in &d.entries {
        for pre in ["arm-start ", "after-let ", "before-call ", "after-call "] {
            if let Some(x) = k.strip_prefix(pre) {
                let m = format!("__vx_at!({}{});", pre, x.replace("::", "_cc_").replace('#', "_n_"));
                if !body.contains(&m) {
                    if d.get("__only").is_some() { continue }
                    if std::env::var("VX_DUMP").is_ok() { eprintln!("{body}") } return err(format!("SHAPE {}: anchor `{k}` not found", d.path));
                }
                body = body.replace(&m, &subst(v, None));
            }
        }
    }
    if let Some(e) = d.get("entry") {
        body = body.replacen('{', &format!("{{\n{}\n", subst(e, None)), 1);
    }
    if std::env::var("VX_PROBE").is_ok() {
        body = body.replacen('{', "{\nassert(false); // VX-PROBE", 1).replacen("// VX-PROBE", "// VX-PROBE\n", 1);
    }
    if body.contains("__vx_") {
        for l in body.lines().filter(|l| l.contains("__vx_")) {
            return err(format!("internal: leftover marker {l}"));
        }
    }

    let mut s = String::new();
    writeln!(s, "// VX-BEGIN {name} <- {} :: {}", d.file, d.path).unwrap();
    let is_method = found.self_ty.is_some()
        && found.sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Receiver(_)));
    let as_method = (is_method || d.get("assoc").is_some()) && d.get("sig").is_none();
    if as_method {
        let mut st = found.self_ty.clone().unwrap();
        rules.apply_type(&mut st);
        let hdr = d
            .get("impl")
            .map(|s| s.to_string())
            .unwrap_or_else(|| {
                let g = found.impl_generics.as_ref().unwrap();
                let (ig, _, w) = g.split_for_impl();
                format!("impl{} {} {}", ig.to_token_stream(), st.to_token_stream(), w.to_token_stream())
            });
        writeln!(s, "{hdr} {{").unwrap();
    }
    if let Some(a) = d.get("attr") {
        writeln!(s, "{a}").unwrap();
    }
    writeln!(s, "#[verifier::loop_isolation(false)]").unwrap();
    if let Some(sig) = d.get("sig") {
        writeln!(s, "pub fn {name}{}", sig.trim()).unwrap();
    } else {
        write!(s, "pub fn {name}{generics}({})", params.join(", ")).unwrap();
        let rn = d.get("ret").map(|s| s.trim()).unwrap_or("r");
        let rty = d.get("rettype").map(|s| s.trim().to_string()).or(ret);
        if let Some(t) = rty {
            write!(s, " -> ({rn}: {t})").unwrap();
        }
        writeln!(s).unwrap();
    }
    for (kw, key) in [("requires", "requires"), ("ensures", "ensures")] {
        let v: Vec<String> = d.all(key).map(|t| subst(t, None)).collect();
        if !v.is_empty() {
            writeln!(s, "    {kw}").unwrap();
            for t in v {
                writeln!(s, "        {},", t.trim().trim_end_matches(',')).unwrap();
            }
        }
    }
    if let Some(t) = d.get("decreases") {
        let sfx = match d.get("__only") { Some(o) if o.starts_with('?') => "", Some("dispatch") => ", 1nat", Some(_) => ", 0nat", None => "" };
        writeln!(s, "    decreases {}{sfx}", subst(t, None).trim()).unwrap();
    }
    writeln!(s, "{body}").unwrap();
    if as_method {
        writeln!(s, "}}").unwrap();
    }
    writeln!(s, "// VX-END {name}").unwrap();
    let _ = orig_src;
    Ok(s)
}

fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known_fns(text: &str, out: &mut BTreeSet<String>) {
    let b: Vec<&str> = text.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).collect();
    for w in b.windows(2) {
        if w[0] == "fn" {
            out.insert(w[1].to_string());
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (script, repo, outp, rep) = (&a[1], &a[2], &a[3], &a[4]);
    let mut out = String::new();
    let mut extracted: Vec<(String, String, String)> = vec![];
    let mut errors: Vec<(String, String)> = vec![];
    let mut notes = vec![];
    let run = (|| -> R<()> {
        let txt = load_script(std::path::Path::new(script))?;
        let segs = parse_script(&txt)?;
        let mut cx = Ctx {
            repo: Repo { root: repo.into(), files: HashMap::new(), expand: vec![] },
            rules: Rules::default(),
            known: BTreeSet::new(),
            notes: vec![],
        };
        for s in &segs {
            if let Seg::Dir(d) = s {
                for (k, v) in &d.entries {
                    if k == "expand" {
                        cx.repo.expand.extend(v.split(',').map(|x| x.trim().to_string()));
                    }
                }
            }
            match s {
                Seg::Text(t) => known_fns(t, &mut cx.known),
                Seg::Dir(d) if d.kind == "fn" => {
                    let short = d.path.rsplit("::").next().unwrap().to_string();
                    cx.known.insert(short);
                    if let Some(r) = &d.rename {
                        cx.known.insert(r.clone());
                    }
                }
                Seg::Dir(d) if d.kind == "known" => {
                    for k in d.file.split(',') {
                        cx.known.insert(k.trim().to_string());
                    }
                }
                _ => {}
            }
        }
        for s in segs {
            match s {
                Seg::Text(t) => out.push_str(&t),
                Seg::Dir(d) => {
                    let r = match d.kind.as_str() {
                        "rules" => cx.rules.add(&d).map(|_| String::new()),
                        "known" => Ok(String::new()),
                        "type" => do_type(&mut cx, &d),
                        "fn" => do_fn(&mut cx, &d),
                        k => err(format!("unknown directive {k}")),
                    };
                    match r {
                        Ok(t) => {
                            out.push_str(&t);
                            if d.kind == "fn" || d.kind == "type" {
                                extracted.push((
                                    d.kind.clone(),
                                    format!("{}::{}", d.file, d.path),
                                    d.rename.clone().unwrap_or(d.path.rsplit("::").next().unwrap().to_string()),
                                ));
                            }
                        }
                        Err(e) => errors.push((format!("{}::{}", d.file, d.path), e.0)),
                    }
                }
            }
        }
        notes = cx.notes;
        Ok(())
    })();
    if let Err(e) = run {
        errors.push((script.clone(), e.0));
    }
    std::fs::write(outp, &out).unwrap();
    let mut j = String::from("{\"extracted\":[");
    j.push_str(
        &extracted
            .iter()
            .map(|(k, s, n)| format!("{{\"kind\":{},\"source\":{},\"name\":{}}}", jesc(k), jesc(s), jesc(n)))
            .collect::<Vec<_>>()
            .join(","),
    );
    j.push_str("],\"errors\":[");
    j.push_str(
        &errors
            .iter()
            .map(|(k, s)| format!("{{\"item\":{},\"error\":{}}}", jesc(k), jesc(s)))
            .collect::<Vec<_>>()
            .join(","),
    );
    j.push_str("],\"notes\":[");
    j.push_str(&notes.iter().map(|s| jesc(s)).collect::<Vec<_>>().join(","));
    j.push_str("]}\n");
    std::fs::write(rep, j).unwrap();
    for (k, e) in &errors {
        eprintln!("vx: {k}: {e}");
    }
    std::process::exit(if errors.is_empty() { 0 } else { 3 });
}

#[allow(unused)]
fn _unused(_: BTreeMap<u8, u8>) {}
