//! C10: implementation headers against a search for common instances; histories of the implementation table
//! in every order; programs that declare implementations.
use crate::util::*;
use num::BigInt;
use spade_common::id_tracker::ImplID;
use spade_common::location_info::WithLocation;
use spade_common::name::{NameID, Path};
use spade_hir::impl_tab::{ImplTab, type_exprs_overlap, type_specs_overlap};
use spade_hir::{Generic, ImplBlock, ImplTarget, TraitName, TraitSpec, TypeExpression, TypeSpec};
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Ty, Nat, Int, Bool, Str }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Tm { Named(usize, Vec<Tm>), Tup(Vec<Tm>), Arr(Box<Tm>, Box<Tm>), Inv(Box<Tm>), Cpy(Box<Tm>), N(i64), B(bool), S(String), Var(u64) }
/// declared types: parameter kinds
const DECL: [&[K]; 6] = [&[], &[K::Ty], &[K::Ty, K::Nat], &[K::Bool], &[K::Str, K::Int], &[K::Nat]];
const TRAIT: [&[K]; 3] = [&[], &[K::Ty, K::Nat, K::Bool], &[K::Str, K::Int, K::Ty]];

fn value(r: &mut Rng, k: K) -> Tm {
    match k {
        K::Nat => Tm::N(r.below(3) as i64 + 1), K::Int => Tm::N(r.below(4) as i64 - 2), K::Bool => Tm::B(r.chance(1, 2)), K::Str => Tm::S(r.pick(&["", "a", "b"]).to_string()), K::Ty => unreachable!(),
    }
}
fn term(r: &mut Rng, k: K, d: usize, vars: &mut u64, budget: &mut usize, cpy: bool) -> Tm {
    if *budget > 0 && r.chance(1, 4) { *budget -= 1; *vars += 1; return Tm::Var(*vars * 8 + k as u64) }
    if k != K::Ty { return value(r, k) }
    let mut go = |r: &mut Rng, k| term(r, k, d.saturating_sub(1), vars, budget, cpy);
    if d == 0 { return Tm::Named(0, vec![]) }
    match r.us(9) {
        0 | 1 => { let n = r.us(3); Tm::Tup((0..n + 1).map(|_| go(r, K::Ty)).collect()) }
        2 | 3 => Tm::Arr(Box::new(go(r, K::Ty)), Box::new(go(r, K::Nat))),
        4 => Tm::Inv(Box::new(go(r, K::Ty))),
        5 if cpy => Tm::Cpy(Box::new(go(r, K::Ty))),
        _ => { let s = r.us(DECL.len()); Tm::Named(s, DECL[s].iter().map(|k| go(r, *k)).collect()) }
    }
}
fn kids(t: &Tm) -> Vec<&Tm> { match t { Tm::Named(_, v) | Tm::Tup(v) => v.iter().collect(), Tm::Arr(a, b) => vec![a, b], Tm::Inv(a) | Tm::Cpy(a) => vec![a], _ => vec![] } }
/// copy with some places changed
fn mutate(r: &mut Rng, t: &Tm, k: K, vars: &mut u64, budget: &mut usize, p: u64, cpy: bool) -> Tm {
    if r.chance(1, p) { return if *budget > 0 && r.chance(2, 3) { *budget -= 1; *vars += 1; Tm::Var(*vars * 8 + k as u64) } else { term(r, k, 2, vars, budget, cpy) } }
    let mut m = |r: &mut Rng, t: &Tm, k| mutate(r, t, k, vars, budget, p, cpy);
    match t {
        Tm::Named(n, v) => Tm::Named(*n, v.iter().zip(DECL[*n]).map(|(t, k)| m(r, t, *k)).collect()),
        Tm::Tup(v) => Tm::Tup(v.iter().map(|t| m(r, t, K::Ty)).collect()),
        Tm::Arr(a, b) => Tm::Arr(Box::new(m(r, a, K::Ty)), Box::new(m(r, b, K::Nat))),
        Tm::Inv(a) => Tm::Inv(Box::new(m(r, a, K::Ty))),
        Tm::Cpy(a) => Tm::Cpy(Box::new(m(r, a, K::Ty))),
        Tm::Var(_) => if *budget > 0 && r.chance(1, 2) { *budget -= 1; *vars += 1; Tm::Var(*vars * 8 + k as u64) } else { term(r, k, 1, vars, budget, cpy) },
        t => t.clone(),
    }
}
fn head(r: &mut Rng, cpy: bool, vars: &mut u64, budget: &mut usize) -> Tm {
    loop { match term(r, K::Ty, 3, vars, budget, cpy) { Tm::Var(_) => { *budget += 1; *vars -= 1 } t => return t } }
}
// ---- instances
fn ground(t: &Tm) -> Tm {
    match t { Tm::Var(k) => match k % 8 { 0 => Tm::Named(0, vec![]), 3 => Tm::B(true), 4 => Tm::S("".into()), _ => Tm::N(1) }, Tm::Named(n, v) => Tm::Named(*n, v.iter().map(ground).collect()), Tm::Tup(v) => Tm::Tup(v.iter().map(ground).collect()), Tm::Arr(a, b) => Tm::Arr(Box::new(ground(a)), Box::new(ground(b))), Tm::Inv(a) => Tm::Inv(Box::new(ground(a))), Tm::Cpy(a) => Tm::Cpy(Box::new(ground(a))), t => t.clone() }
}
fn subs(t: &Tm, out: &mut HashSet<Tm>) { out.insert(ground(t)); for k in kids(t) { subs(k, out) } }
fn nvars(t: &Tm, out: &mut Vec<u64>) { if let Tm::Var(k) = t { out.push(k % 8) } else { kids(t).into_iter().for_each(|t| nvars(t, out)) } }
/// replace the occurrences of parameters, left to right
fn fill(t: &Tm, with: &[&Tm], i: &mut usize) -> Tm {
    match t { Tm::Var(_) => { *i += 1; with[*i - 1].clone() } Tm::Named(n, v) => Tm::Named(*n, v.iter().map(|t| fill(t, with, i)).collect()), Tm::Tup(v) => Tm::Tup(v.iter().map(|t| fill(t, with, i)).collect()), Tm::Arr(a, b) => { let a = fill(a, with, i); Tm::Arr(Box::new(a), Box::new(fill(b, with, i))) } Tm::Inv(a) => Tm::Inv(Box::new(fill(a, with, i))), Tm::Cpy(a) => Tm::Cpy(Box::new(fill(a, with, i))), t => t.clone() }
}
/// the instances whose parameters are ground subterms of the two headers (if there is a common instance, one is of that form)
fn instances(t: &Tm, u: &[Tm]) -> HashSet<Tm> {
    let mut ks = vec![]; nvars(t, &mut ks);
    let n = ks.len();
    let fit: Vec<Vec<&Tm>> = ks.iter().map(|k| u.iter().filter(|t| match t { Tm::N(_) => *k == 1 || *k == 2, Tm::B(_) => *k == 3, Tm::S(_) => *k == 4, _ => *k == 0 }).collect()).collect();
    let mut ix = vec![0; n];
    let mut out = HashSet::new();
    loop {
        let w: Vec<&Tm> = ix.iter().zip(&fit).map(|(i, f)| f[*i]).collect();
        out.insert(fill(t, &w, &mut 0));
        let mut k = 0;
        loop { if k == n { return out } ix[k] += 1; if ix[k] < fit[k].len() { break } ix[k] = 0; k += 1 }
    }
}
fn common(l: &Tm, r: &Tm) -> bool {
    let mut u = HashSet::new();
    subs(l, &mut u); subs(r, &mut u);
    for d in [Tm::Named(0, vec![]), Tm::B(true), Tm::S("".into()), Tm::N(1)] { u.insert(d); }
    let u: Vec<Tm> = u.into_iter().collect();
    let a = instances(l, &u);
    instances(r, &u).iter().any(|x| a.contains(x))
}
// ---- the compiler's representation
fn name(n: u64) -> NameID { NameID(n, Path::from_strs(&[&format!("n{n}")])) }
fn te(t: &Tm) -> TypeExpression {
    match t { Tm::N(n) => TypeExpression::Integer(BigInt::from(*n)), Tm::B(b) => TypeExpression::Bool(*b), Tm::S(s) => TypeExpression::String(s.clone()), t => TypeExpression::TypeSpec(ts(t)) }
}
fn ts(t: &Tm) -> TypeSpec {
    match t {
        Tm::Named(n, v) => TypeSpec::Declared(name(*n as u64).nowhere(), v.iter().map(|t| te(t).nowhere()).collect()),
        Tm::Tup(v) => TypeSpec::Tuple(v.iter().map(|t| ts(t).nowhere()).collect()),
        Tm::Arr(a, b) => TypeSpec::Array { inner: Box::new(ts(a).nowhere()), size: Box::new(te(b).nowhere()) },
        Tm::Inv(a) => TypeSpec::Inverted(Box::new(ts(a).nowhere())),
        Tm::Cpy(a) => TypeSpec::CopyView(Box::new(ts(a).nowhere())),
        Tm::Var(n) => TypeSpec::Generic(Generic::Named(name(1000 + n).nowhere())),
        _ => unreachable!(),
    }
}
fn target(t: &Tm) -> (ImplTarget, Vec<TypeExpression>) {
    match t {
        Tm::Named(n, v) => (ImplTarget::Named(name(*n as u64)), v.iter().map(te).collect()),
        Tm::Tup(v) => (ImplTarget::Tuple, v.iter().map(te).collect()),
        Tm::Arr(a, b) => (ImplTarget::Array, vec![te(a), te(b)]),
        Tm::Inv(a) => (ImplTarget::Inverted, vec![te(a)]),
        Tm::Cpy(a) => (ImplTarget::CopyView, vec![te(a)]),
        _ => unreachable!(),
    }
}
// ---- source text
fn show(t: &Tm) -> String {
    let l = |v: &Vec<Tm>| v.iter().map(show).collect::<Vec<_>>().join(", ");
    match t {
        Tm::Named(5, v) => format!("uint<{}>", l(v)),
        Tm::Named(n, v) if v.is_empty() => format!("S{n}"),
        Tm::Named(n, v) => format!("S{n}<{}>", l(v)),
        Tm::Tup(v) if v.len() == 1 => format!("({},)", show(&v[0])),
        Tm::Tup(v) => format!("({})", l(v)),
        Tm::Arr(a, b) => format!("[{}; {}]", show(a), show(b)),
        Tm::Inv(a) => format!("inv {}", show(a)),
        Tm::Cpy(a) => format!("copy {}", show(a)),
        Tm::N(n) => format!("{n}"), Tm::B(b) => format!("{b}"), Tm::S(s) => format!("\"{s}\""), Tm::Var(n) => format!("V{n}"),
    }
}
fn vars_of(t: &Tm, k: K, out: &mut Vec<(u64, K)>) {
    match t {
        Tm::Var(n) => out.push((*n, k)),
        Tm::Named(n, v) => v.iter().zip(DECL[*n]).for_each(|(t, k)| vars_of(t, *k, out)),
        Tm::Arr(a, b) => { vars_of(a, K::Ty, out); vars_of(b, K::Nat, out) }
        t => kids(t).into_iter().for_each(|t| vars_of(t, K::Ty, out)),
    }
}
fn pk(k: K) -> &'static str { match k { K::Ty => "", K::Nat => "#uint ", K::Int => "#int ", K::Bool => "#bool ", K::Str => "#str " } }
#[derive(Clone, Debug, PartialEq)]
struct Hd { on: Tm, tr: usize, args: Vec<Tm> }
impl Hd {
    /// target and trait arguments as one term
    fn term(&self) -> Tm { let mut v = vec![self.on.clone()]; v.extend(self.args.iter().cloned()); Tm::Tup(v) }
    fn meets(&self, o: &Hd) -> bool { self.tr == o.tr && common(&self.term(), &o.term()) }
    fn text(&self) -> String {
        let mut vs = vec![]; vars_of(&self.on, K::Ty, &mut vs); for (a, k) in self.args.iter().zip(TRAIT[self.tr]) { vars_of(a, *k, &mut vs) }
        let g = if vs.is_empty() { String::new() } else { format!("<{}>", vs.iter().map(|(n, k)| format!("{}V{n}", pk(*k))).collect::<Vec<_>>().join(", ")) };
        let a = if self.args.is_empty() { String::new() } else { format!("<{}>", self.args.iter().map(show).collect::<Vec<_>>().join(", ")) };
        format!("impl{g} T{}{a} for {} {{ fn f(self) -> bool {{ true }} }}", self.tr, show(&self.on))
    }
}
fn headers(r: &mut Rng, n: usize, cpy: bool) -> Vec<Hd> {
    let mut hs: Vec<Hd> = vec![];
    let mut vars = 0;
    for _ in 0..n {
        let mut b = 3;
        if !hs.is_empty() && r.chance(3, 4) {
            let o = r.pick(&hs).clone();
            let tr = if r.chance(1, 8) { r.us(3) } else { o.tr };
            let on = loop { match mutate(r, &o.on, K::Ty, &mut vars, &mut b, 6, cpy) { Tm::Var(_) => b = 3, t => break t } };
            let args = if tr == o.tr { o.args.iter().zip(TRAIT[tr]).map(|(a, k)| mutate(r, a, *k, &mut vars, &mut b, 5, cpy)).collect() } else { TRAIT[tr].iter().map(|k| term(r, *k, 2, &mut vars, &mut b, cpy)).collect() };
            hs.push(Hd { on, tr, args });
        } else {
            let tr = r.us(3);
            let on = head(r, cpy, &mut vars, &mut b);
            let args = TRAIT[tr].iter().map(|k| term(r, *k, 2, &mut vars, &mut b, cpy)).collect();
            hs.push(Hd { on, tr, args });
        }
    }
    hs
}
fn insert(t: &mut ImplTab, h: &Hd, i: u64) -> Result<bool, String> {
    let (g, a) = target(&h.on);
    let sp = TraitSpec { name: TraitName::Named(None, name(500 + h.tr as u64).nowhere()), type_params: if h.args.is_empty() { None } else { Some(h.args.iter().map(|a| te(a).nowhere()).collect::<Vec<_>>().nowhere()) }, paren_syntax: false };
    let b = ImplBlock { fns: Default::default(), type_params: vec![], target: ts(&h.on).nowhere(), id: ImplID(i) };
    guard(|| t.insert(g, sp, a, b.nowhere()).is_ok())
}
fn table(rep: &mut Rep, r: &mut Rng) {
    let n = 2 + r.us(4);
    let mut hs = headers(r, n, true);
    let d = hs.iter().map(|h| h.text()).collect::<Vec<_>>().join("\n");
    let mut met = false;
    let m: Vec<Vec<bool>> = (0..n).map(|i| (0..n).map(|j| j < i && hs[i].meets(&hs[j])).collect()).collect();
    let clean = !m.iter().any(|v| v.iter().any(|b| *b));
    let mut hs: Vec<(usize, Hd)> = hs.drain(..).enumerate().collect();
    for _ in 0..3 {
        let mut t = ImplTab::new();
        let mut kept: Vec<(usize, usize, Hd)> = vec![];
        let o = hs.iter().map(|h| h.1.text()).collect::<Vec<_>>().join("\n");
        let mut all = true;
        for (i, (at, h)) in hs.iter().enumerate() {
            let want = !kept.iter().any(|(_, k, _)| m[*k.max(at)][*k.min(at)]);
            met |= !want;
            match insert(&mut t, h, i as u64) {
                Err(p) => rep.fail("table", format!("adding `{}` panics: {p}\n{o}", h.text()), o.clone()),
                Ok(g) => {
                    if g != want { rep.fail("table", format!("`{}` is {} although {} an implementation added before it; in order:\n{o}", h.text(), if g { "accepted" } else { "rejected" }, if want { "no concrete type selects it and" } else { "some concrete type selects it and" }), o.clone()) }
                    if g { kept.push((i, *at, h.clone())) } else { all = false }
                }
            }
        }
        if all != clean && rep.failures.is_empty() { rep.fail("order", format!("all accepted: {all}, pairwise disjoint: {clean}; in order:\n{o}"), o.clone()) }
        // the table holds what was accepted, where it belongs
        let mut got: Vec<u64> = t.inner.values().flat_map(|x| x.values()).flat_map(|x| x.values()).flat_map(|x| x.iter().map(|x| x.1.id.0)).collect();
        got.sort();
        if got != kept.iter().map(|k| k.0 as u64).collect::<Vec<_>>() { rep.fail("contents", format!("the table holds implementations {got:?} of\n{o}"), o.clone()) }
        for (i, _, h) in &kept {
            let (g, a) = target(&h.on);
            let ok = t.inner.get(&g).and_then(|x| x.get(&TraitName::Named(None, name(500 + h.tr as u64).nowhere()))).and_then(|x| x.get(&a)).is_some_and(|x| x.iter().any(|(b, k)| k.id.0 == *i as u64 && *b == h.args.iter().map(te).collect::<Vec<_>>()));
            if !ok { rep.fail("contents", format!("`{}` is not found under its target, trait and arguments\n{o}", h.text()), o.clone()) }
        }
        r.shuffle(&mut hs);
    }
    rep.note(if clean { "tables: disjoint" } else { "tables: with overlaps" });
    rep.case(&format!("headers\n{d}"), met || clean);
}
fn pair(rep: &mut Rep, r: &mut Rng) {
    let (mut vars, mut b) = (0, 3);
    let l = term(r, K::Ty, 3, &mut vars, &mut b, true);
    b = 3;
    let m = if r.chance(1, 4) { term(r, K::Ty, 3, &mut vars, &mut b, true) } else { mutate(r, &l, K::Ty, &mut vars, &mut b, 5, true) };
    let want = common(&l, &m);
    let d = format!("{} and {}", show(&l), show(&m));
    rep.note(if want { "pairs: common instance" } else { "pairs: none" });
    for (a, c) in [(&l, &m), (&m, &l)] {
        let g = guard(|| (type_specs_overlap(&ts(a), &ts(c)), type_exprs_overlap(&te(a), &te(c))));
        if g != Ok((want, want)) { rep.fail("overlap", format!("{d}: overlap verdict {g:?}, a common instance {}", if want { "exists" } else { "does not exist" }), d.clone()) }
    }
    rep.case(&d, true);
}
fn program(rep: &mut Rep, r: &mut Rng) {
    let n = 2 + r.us(3);
    let mut hs = headers(r, n, false);
    let bad = (0..n).any(|i| (0..i).any(|j| hs[i].meets(&hs[j])));
    if bad && r.chance(1, 2) { return }
    for _ in 0..2 {
        let mut s = String::new();
        for (i, ks) in TRAIT.iter().enumerate() { let g = ks.iter().enumerate().map(|(j, k)| format!("{}P{j}", pk(*k))).collect::<Vec<_>>().join(", "); s += &format!("trait T{i}{} {{ fn f(self) -> bool; }}\n", if g.is_empty() { g } else { format!("<{g}>") }) }
        s += "struct S0 {}\nstruct S1<A> { x: A }\nstruct S2<A, #uint N> { x: [A; N] }\nstruct S3<#bool B> {}\nstruct S4<#str S, #int I> {}\n";
        for h in &hs { s += &h.text(); s += "\n" }
        rep.cur(&s);
        let c = compile_opt(&s, false, &[]);
        if let Some(p) = &c.panicked { rep.fail("program", format!("the compiler panics: {p}"), s.clone()) }
        else if c.ok == bad {
            // an error of another kind is none of this property's business
            if c.ok || c.diags.contains("Multiple implementations") { rep.fail("program", format!("the program is {} although {} of its implementations overlap\n{}", if c.ok { "accepted" } else { "rejected" }, if bad { "some" } else { "none" }, c.diags.lines().take(12).collect::<Vec<_>>().join("\n")), s.clone()) } else { rep.note("programs: other errors") }
        } else { rep.note(if bad { "programs: rejected" } else { "programs: accepted" }) }
        rep.case(&s, true);
        r.shuffle(&mut hs);
    }
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "a pair of type headers, a history of implementation headers, or a program declaring implementations".into();
    let mut r = Rng::new(seed);
    while rep.time_left() {
        for _ in 0..200 { pair(rep, &mut r) }
        for _ in 0..60 { table(rep, &mut r) }
        for _ in 0..6 { program(rep, &mut r) }
    }
}
