//! C05: a match (or a let) is accepted exactly when every value is matched by an unguarded arm.
use crate::prog::*;
use crate::util::*;
use num::{BigInt, One, Signed};
use std::collections::{BTreeSet, HashMap};

fn range(t: &Ty) -> (BigInt, BigInt) {
    match t { Ty::U(w) => (0.into(), (BigInt::one() << *w) - 1), Ty::I(w) => { let h = if *w == 0 { BigInt::from(0) } else { BigInt::one() << (w - 1) }; if *w == 0 { (0.into(), 0.into()) } else { (-h.clone(), h - 1) } } _ => panic!() }
}
fn strip(q: &Pat) -> &Pat { match q { Pat::At(_, q) => strip(q), q => q } }
/// values that stand for all values as far as these patterns (all on the same place) can tell; None: too many
fn cands(p: &Prog, t: &Ty, pats: &[&Pat], cap: usize) -> Option<Vec<Val>> {
    let pats: Vec<&Pat> = pats.iter().map(|q| strip(q)).collect();
    let prod = |fs: &[Ty], sub: &dyn Fn(usize) -> Vec<Pat>| -> Option<Vec<Vec<Val>>> {
        let mut acc: Vec<Vec<Val>> = vec![vec![]];
        for (i, f) in fs.iter().enumerate() {
            let s = sub(i); let c = cands(p, f, &s.iter().collect::<Vec<_>>(), cap)?;
            if acc.len() * c.len() > cap { return None }
            acc = acc.iter().flat_map(|a| c.iter().map(move |v| { let mut a = a.clone(); a.push(v.clone()); a })).collect();
        }
        Some(acc)
    };
    Some(match t {
        Ty::B => vec![Val::B(false), Val::B(true)],
        Ty::U(_) | Ty::I(_) => {
            let (lo, hi) = range(t); let mut s: BTreeSet<BigInt> = [lo.clone(), hi.clone()].into();
            for q in pats { if let Pat::Int(n) = q { for d in [-1, 0, 1] { let x: BigInt = n + d; if x >= lo && x <= hi { s.insert(x); } } } }
            s.into_iter().map(Val::N).collect()
        }
        Ty::E(e) => {
            let mut o = vec![];
            for (k, fs) in p.enums[*e].iter().enumerate() {
                let ft: Vec<Ty> = fs.iter().map(|f| f.1.clone()).collect();
                let sub = |i: usize| pats.iter().filter_map(|q| match q { Pat::Var(_, j, v, _) if *j == k => v.get(i).cloned(), _ => None }).collect();
                o.extend(prod(&ft, &sub)?.into_iter().map(|v| Val::E(k, v)));
                if o.len() > cap { return None }
            }
            o
        }
        t => {
            let sub = |i: usize| pats.iter().filter_map(|q| match q { Pat::Tup(v) | Pat::Arr(v) | Pat::Struct(_, v, _) => v.get(i).cloned(), _ => None }).collect();
            prod(&p.fields(t), &sub)?.into_iter().map(Val::L).collect()
        }
    })
}
fn pick_int(r: &mut Rng, t: &Ty) -> BigInt {
    let (lo, hi) = range(t);
    let n = match r.below(7) { 0 => hi.clone(), 1 => &hi - 1, 2 => lo.clone(), 3 => &lo + 1, 4 => BigInt::from(r.below(3)), 5 => BigInt::from(0), _ => &lo + (BigInt::from(r.next()) * BigInt::from(r.next())) % (&hi - &lo + 1) };
    n.clamp(lo, hi)
}
/// split one wildcard of the pattern into all its constructors
fn refine(g: &mut Rng, p: &Prog, t: &Ty, q: &Pat) -> Vec<Pat> {
    match (q, t) {
        (Pat::Wild, Ty::B) => vec![Pat::Bool(false), Pat::Bool(true)],
        (Pat::Wild, Ty::U(w)) | (Pat::Wild, Ty::I(w)) => {
            let (lo, hi) = range(t);
            if *w <= 3 && g.chance(2, 3) {
                let mut v = vec![]; let mut x = lo; while x <= hi { v.push(Pat::Int(x.clone())); x += 1 } v
            } else {
                let mut s = BTreeSet::new(); for _ in 0..1 + g.us(3) { s.insert(pick_int(g, t)); }
                let mut v: Vec<Pat> = s.into_iter().map(Pat::Int).collect(); v.push(Pat::Wild); v
            }
        }
        (Pat::Wild, Ty::E(e)) => p.enums[*e].iter().enumerate().map(|(k, fs)| Pat::Var(*e, k, vec![Pat::Wild; fs.len()], g.chance(1, 4))).collect(),
        (Pat::Wild, Ty::T(v)) => vec![Pat::Tup(vec![Pat::Wild; v.len()])],
        (Pat::Wild, Ty::S(i)) => vec![Pat::Struct(*i, vec![Pat::Wild; p.structs[*i].len()], g.chance(1, 4))],
        (Pat::Wild, Ty::A(_, n)) if *n > 0 && *n <= 4 => vec![Pat::Arr(vec![Pat::Wild; *n])],
        (Pat::Tup(v), _) | (Pat::Arr(v), _) | (Pat::Struct(_, v, _), _) if !v.is_empty() => {
            let fs = p.fields(t); let i = g.us(v.len());
            refine(g, p, &fs[i], &v[i]).into_iter().map(|x| { let mut v = v.clone(); v[i] = x; match q { Pat::Tup(_) => Pat::Tup(v), Pat::Arr(_) => Pat::Arr(v), Pat::Struct(i, _, n) => Pat::Struct(*i, v, *n), _ => unreachable!() } }).collect()
        }
        (Pat::Var(e, k, v, n), _) if !v.is_empty() => {
            let i = g.us(v.len());
            refine(g, p, &p.enums[*e][*k][i].1.clone(), &v[i]).into_iter().map(|x| { let mut v = v.clone(); v[i] = x; Pat::Var(*e, *k, v, *n) }).collect()
        }
        (q, _) => vec![q.clone()],
    }
}
fn bind(g: &mut Rng, q: &Pat, n: &mut usize) -> Pat {
    if g.chance(1, 12) { *n += 1; let m = format!("a{n}"); return Pat::At(m, Box::new(bind(g, q, n))) }
    match q {
        Pat::Wild if g.chance(1, 4) => { *n += 1; Pat::Bind(format!("b{n}")) }
        Pat::Tup(v) => Pat::Tup(v.iter().map(|q| bind(g, q, n)).collect()), Pat::Arr(v) => Pat::Arr(v.iter().map(|q| bind(g, q, n)).collect()),
        Pat::Struct(i, v, m) => Pat::Struct(*i, v.iter().map(|q| bind(g, q, n)).collect(), *m),
        Pat::Var(e, k, v, m) => Pat::Var(*e, *k, v.iter().map(|q| bind(g, q, n)).collect(), *m),
        q => q.clone(),
    }
}
// ------------------------------------------------------------ reported missing patterns
#[derive(Debug, Clone)]
enum W { Any, B(bool), R(BigInt, BigInt), L(Vec<W>), V(String, Vec<W>) }
struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i] == b' ' { self.i += 1 } }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn eat(&mut self, c: u8) -> Option<()> { if self.peek() == c { self.i += 1; Some(()) } else { None } }
    fn list(&mut self, end: u8) -> Option<Vec<W>> {
        let mut v = vec![];
        if self.eat(end).is_some() { return Some(v) }
        loop {
            self.ws();
            // an optional `field: `
            let save = self.i; let mut j = self.i;
            while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || self.s[j] == b'_') { j += 1 }
            if j > save && self.s.get(j) == Some(&b':') && self.s.get(j + 1) == Some(&b' ') { self.i = j + 1 }
            v.push(self.pat()?);
            if self.eat(end).is_some() { return Some(v) }
            self.eat(b',')?;
        }
    }
    fn int(&mut self) -> Option<BigInt> {
        let a = self.i; if self.peek() == b'-' { self.i += 1 }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1 }
        std::str::from_utf8(&self.s[a..self.i]).ok()?.trim().parse().ok()
    }
    fn pat(&mut self) -> Option<W> {
        match self.peek() {
            b'(' => { self.i += 1; Some(W::L(self.list(b')')?)) } b'[' => { self.i += 1; Some(W::L(self.list(b']')?)) }
            c if c.is_ascii_digit() || c == b'-' => { let a = self.int()?; self.eat(b'.')?; self.eat(b'.')?; Some(W::R(a, self.int()?)) }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let a = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_:".contains(&self.s[self.i])) { self.i += 1 }
                let n = String::from_utf8_lossy(&self.s[a..self.i]).to_string();
                match n.as_str() { "_" => return Some(W::Any), "true" => return Some(W::B(true)), "false" => return Some(W::B(false)), _ => {} }
                let n = n.rsplit("::").next().unwrap().to_string();
                let f = if self.eat(b'(').is_some() { self.list(b')')? } else { vec![] };
                Some(if n.starts_with('V') { W::V(n, f) } else { W::L(f) })
            }
            _ => None,
        }
    }
}
fn witnesses(msg: &str) -> Option<Vec<W>> {
    let i = msg.find("pattern")?; let m = &msg[i..]; let m = m.strip_prefix("patterns ").or(m.strip_prefix("pattern "))?;
    let m = m.strip_suffix(" not covered")?;
    let m = match m.rfind(" and ") { Some(i) if m.ends_with(" more") => &m[..i], _ => m };
    let mut p = P { s: m.as_bytes(), i: 0 }; let mut v = vec![];
    loop { v.push(p.pat()?); p.ws(); if p.i == p.s.len() { return Some(v) } p.eat(b',')?; }
}
fn wmatch(w: &W, v: &Val) -> bool {
    match (w, v) {
        (W::Any, _) => true, (W::B(a), Val::B(b)) => a == b, (W::R(a, b), Val::N(n)) => a <= n && n <= b,
        (W::L(ws), Val::L(vs)) => ws.len() == vs.len() && ws.iter().zip(vs).all(|(w, v)| wmatch(w, v)),
        (W::V(n, ws), Val::E(k, vs)) => *n == format!("V{k}") && ws.len() == vs.len() && ws.iter().zip(vs).all(|(w, v)| wmatch(w, v)),
        _ => false,
    }
}

struct Case { ty: Ty, clock: u8, arms: Vec<(Pat, bool)>, is_let: bool }
fn case(g: &mut Gen) -> Option<Case> {
    let ty = if g.r.chance(1, 4) { g.scalar() } else { g.small_ty(2) };
    if g.p.cases(&ty) > 128.0 { return None }
    let is_let = g.r.chance(1, 4);
    let mut arms = vec![Pat::Wild];
    for _ in 0..1 + g.r.us(5) {
        let i = g.r.us(arms.len()); let q = arms.remove(i); let p = g.p.clone();
        let new = refine(g.r, &p, &ty, &q);
        for (k, x) in new.into_iter().enumerate() { arms.insert(i + k, x) }
        if arms.len() > 14 { break }
    }
    match g.r.below(8) {
        0 | 1 => { let i = g.r.us(arms.len()); arms.remove(i); }
        2 => { let i = g.r.us(arms.len()); let mut b = vec![]; arms[i] = g.pattern(&ty, 3, true, &mut b); }
        3 => g.r.shuffle(&mut arms),
        _ => {}
    }
    let guard_at = if g.r.chance(1, 6) && !arms.is_empty() { Some(g.r.us(arms.len())) } else { None };
    if is_let { let i = if arms.is_empty() { return None } else { g.r.us(arms.len()) }; arms = vec![arms[i].clone()] }
    if arms.is_empty() { return None }
    let mut n = 0;
    let arms: Vec<(Pat, bool)> = arms.iter().enumerate().map(|(i, a)| (bind(g.r, a, &mut n), !is_let && guard_at == Some(i))).collect();
    let clock = if g.r.chance(1, 5) { 1 + g.r.below(3) as u8 } else { 0 };
    Some(Case { ty, clock, arms, is_let })
}
/// a clock, an inverted wire or a memory-like member only a variable can match
fn source(p: &Prog, c: &Case, i: usize) -> String {
    let t = p.ty(&c.ty);
    let (t, w): (String, Box<dyn Fn(String) -> String>) = match c.clock {
        0 => (t, Box::new(|s| s)), 1 => (format!("(clock, {t})"), Box::new(|s| format!("(_, {s})"))),
        2 => (format!("({t}, clock)"), Box::new(|s| format!("({s}, clk)"))), _ => (format!("((clock, bool), {t})"), Box::new(|s| format!("((_, _), {s})"))),
    };
    if c.is_let { format!("fn u{i}(x: {t}, g: bool) -> uint<8> {{ let {} = x; 0 }}", w(p.pat(&c.arms[0].0))) }
    else { format!("fn u{i}(x: {t}, g: bool) -> uint<8> {{ match x {{ {} }} }}", c.arms.iter().enumerate().map(|(k, a)| format!("{}{} => {k}", w(p.pat(&a.0)), if a.1 { " if g" } else { "" })).collect::<Vec<_>>().join(", ")) }
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "random types (wide and narrow integers, booleans, tuples, arrays, structs, enums, clocks) and random lists of patterns: refinements of a wildcard into all constructors, with arms dropped, replaced, shuffled or guarded; the compiler accepts iff every representative value (each literal, its neighbours and the ends of the range) is matched by an unguarded arm; every reported missing pattern is matched by a value no arm matches".into();
    let mut r = Rng::new(seed);
    while rep.time_left() {
        let mut r2 = Rng(r.next() | 1);
        let mut g = Gen::new(&mut r2, Cfg { depth: 2, ops: false, agg: true, max_w: 70, div: false, array_fns: false });
        g.defs();
        let mut cs = vec![]; for _ in 0..40 { if cs.len() == 10 { break } if let Some(c) = case(&mut g) { cs.push(c) } }
        let p = g.p.clone(); let nd = p.defs_text().len();
        let mut lines = p.defs_text(); for (i, c) in cs.iter().enumerate() { lines.push(source(&p, c, i)) }
        let src = lines.join("\n");
        rep.cur(&src);
        let c = compile(&src);
        if let Some(m) = &c.panicked { rep.fail("panic", format!("the compiler panics: {m}"), src.clone()); continue }
        let mut errs: HashMap<usize, String> = HashMap::new(); let mut other = false;
        for (l, m) in error_lines(&c.diags) { if m.contains("Non-exhaustive match") || m.contains("not covered") || m.contains("Refutable pattern") || c.diags.contains("let requires") && m.to_lowercase().contains("refutable") { errs.insert(l, m); } else { other = true } }
        if other || (!c.ok && errs.is_empty()) { rep.note("rejected for another reason"); if std::env::var("VH_SHOW").is_ok() { eprintln!("{src}\n{}", c.diags) } continue }
        if std::env::var("VH_SHOW").is_ok() { eprintln!("--- {:?}", errs) }
        for (i, c2) in cs.iter().enumerate() {
            let pats: Vec<&Pat> = c2.arms.iter().map(|a| &a.0).collect();
            let Some(vals) = cands(&p, &c2.ty, &pats, 30000) else { rep.note("too many values"); continue };
            let missing: Vec<&Val> = vals.iter().filter(|v| !c2.arms.iter().any(|a| !a.1 && p.pmatch(&a.0, v, &mut HashMap::new()))).collect();
            let acc = !errs.contains_key(&(nd + i + 1));
            let text = format!("{}\n{}", lines[..nd].join("\n"), lines[nd + i]);
            rep.case(&lines[nd + i], c2.arms.len() > 1 || c2.is_let);
            rep.note(match (acc, c2.is_let) { (true, false) => "accepted matches", (false, false) => "rejected matches", (true, true) => "accepted lets", _ => "rejected lets" });
            if acc && !missing.is_empty() { rep.fail("accepted", format!("accepted, but no arm matches the value {}", p.lit(missing[0], &c2.ty)), text); continue }
            if !acc && missing.is_empty() { rep.fail("rejected", format!("rejected as non-exhaustive, but every value is matched ({})", errs[&(nd + i + 1)]), text); continue }
            if acc { continue }
            // the message is repeated on the label, which for a let carries the only copy of the patterns
            let msg = if c2.is_let { let k = c.diags.find(&format!("t.spade:{}:", nd + i + 1)).unwrap_or(0); c.diags[k..].lines().find(|l| l.contains("not covered")).map(|l| l[l.find("pattern ").map(|i| i + 8).unwrap_or(0)..].trim().to_string()).unwrap_or_default() } else { errs[&(nd + i + 1)].clone() };
            let Some(ws) = witnesses(&msg) else { rep.note("unreadable missing pattern"); if std::env::var("VH_SHOW").is_ok() { eprintln!("unreadable: {msg}") } continue };
            for w in ws {
                rep.note("missing patterns checked");
                let w2 = match (c2.clock, &w) { (0, w) => w.clone(), (2, W::L(v)) if v.len() == 2 => v[0].clone(), (_, W::L(v)) if v.len() == 2 => v[1].clone(), _ => W::Any };
                if !missing.iter().any(|v| wmatch(&w2, v)) {
                    rep.fail("witness", format!("the reported missing pattern {w:?} matches no value the arms leave out"), text.clone()); break
                }
            }
        }
    }
}
