//! C18: histories of the symbol table against a plain list of scopes, and programs with nested blocks,
//! shadowing, modules and aliases against an interpreter.
use crate::util::*;
use crate::vlog::{self, Bv, Sim};
use spade_common::location_info::{Loc, WithLocation};
use spade_common::name::{Identifier, NameID, Path, PathSegment, Visibility};
use spade_hir::symbol_table::{LookupError, SymbolTable, Thing, TypeSymbol};
use spade_diagnostics::Diagnostic;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

type P = Vec<String>;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Vis { Public, Implicit, Lib, Slf, Super, SuperSuper }
#[derive(Clone, PartialEq, Debug)]
enum It { Var, Module, Dummy, Type, Alias(P, P) }
#[derive(Clone, Copy, PartialEq, Debug)]
enum Er { Missing, Hidden, Supers, Ambiguous, Barrier, Panics, Deep }
#[derive(Default)]
struct Model { scopes: Vec<(HashMap<P, u64>, bool)>, things: HashMap<u64, It>, types: HashSet<u64>, vis: HashMap<u64, Vis>, ns: P, base: P, fuel: std::cell::Cell<u32> }
impl Model {
    fn at(&self, off: usize, p: &P) -> Option<u64> { self.scopes[self.scopes.len() - 1 - off].0.get(p).copied() }
    fn inner(&self, p: &P) -> Option<usize> { (0..self.scopes.len()).find(|o| self.at(*o, p).is_some()) }
    fn sees(&self, id: u64, w: &P, ns: &P) -> Result<bool, Er> {
        let up = |n: usize| if w.len() < n { Err(Er::Panics) } else { Ok(w[..w.len() - n].to_vec()) };
        let Some(v) = self.vis.get(&id) else { return Ok(true) };
        let at = match v { Vis::Public => vec![], Vis::Implicit | Vis::Slf => up(1)?, Vis::Lib => self.base.clone(), Vis::Super => up(2)?, Vis::SuperSuper => up(3)? };
        Ok(ns.len() >= at.len() && ns[..at.len()] == at[..])
    }
    /// the place a path means, every alias on the way resolved where it was written
    fn place(&self, p: &P, ns: &P, stop: &HashSet<u64>, meta: bool, depth: usize) -> Result<(usize, P), Er> {
        self.fuel.set(self.fuel.get() + 1);
        if depth > 12 || self.fuel.get() > 200 { return Err(Er::Deep) }
        let root = self.scopes.len() - 1;
        let ext = |a: &P, s: &String| { let mut b = a.clone(); b.push(s.clone()); b };
        let (mut off, mut w, segs): (usize, P, P) = match p.first().map(|s| s.as_str()) {
            None => (0, self.ns.clone(), vec![]),
            Some("lib") => (root, self.base.clone(), p[1..].to_vec()),
            Some("self") => match self.inner(&ext(ns, &p[0])) { Some(o) if p.len() == 1 => (o, ns.clone(), p.clone()), _ => (root, ns.clone(), p[1..].to_vec()) },
            Some("super") => { let n = p.iter().take_while(|s| *s == "super").count(); if ns.len() < n { return Err(Er::Supers) } (root, ns[..ns.len() - n].to_vec(), p[n..].to_vec()) }
            Some(_) => match self.inner(&ext(ns, &p[0])) { Some(o) => (o, ns.clone(), p.clone()), None => (root, vec![], p.clone()) },
        };
        for (i, s) in segs.iter().enumerate() {
            w = ext(&w, s);
            let mut mine = stop.clone();
            let mut turns = 0;
            loop {
                turns += 1;
                if turns > 12 { return Err(Er::Deep) }
                let Some(id) = self.at(off, &w) else { return Err(Er::Missing) };
                if stop.contains(&id) { return Err(Er::Missing) }
                if meta && !self.sees(id, &w, ns)? { return Err(Er::Hidden) }
                if self.types.contains(&id) && i + 1 == segs.len() { break }
                let Some(It::Alias(to, from)) = self.things.get(&id) else { break };
                mine.insert(id);
                let (ao, aw) = self.place(to, from, &mine, meta, depth + 1)?;
                if let Some(nx) = segs.get(i + 1) {
                    match (self.at(ao, &ext(&aw, nx)), self.at(off, &ext(&w, nx))) { (None, Some(_)) => break, (Some(_), Some(_)) => return Err(Er::Ambiguous), (_, _) => {} }
                }
                off = ao; w = aw;
            }
        }
        Ok((off, w))
    }
    fn look(&self, p: &P, ns: &P, meta: bool) -> Result<u64, Er> {
        self.fuel.set(0);
        let (o, w) = self.place(p, ns, &HashSet::new(), meta, 0)?;
        let Some(id) = self.at(o, &w) else { return Err(Er::Panics) };
        if self.things.get(&id) == Some(&It::Var) && (0..o).any(|k| self.scopes[self.scopes.len() - 1 - k].1) { return Err(Er::Barrier) }
        Ok(id)
    }
}
fn rp(p: &P) -> Path { Path(p.iter().map(|s| PathSegment::Named(Identifier::intern(s).nowhere())).collect()) }
fn lid(s: &str) -> Loc<Identifier> { Identifier::intern(s).nowhere() }
fn rvis(v: Vis) -> Visibility { match v { Vis::Public => Visibility::Public, Vis::Implicit => Visibility::Implicit, Vis::Lib => Visibility::AtLib, Vis::Slf => Visibility::AtSelf, Vis::Super => Visibility::AtSuper, Vis::SuperSuper => Visibility::AtSuperSuper } }
fn barrier(_: &Loc<Path>, _: &Loc<NameID>, t: &Thing) -> Result<(), Diagnostic> { if matches!(t, Thing::Variable(_)) { Err(Diagnostic::bug(().nowhere(), "barrier")) } else { Ok(()) } }
fn er(e: &LookupError) -> Option<Er> { Some(match e { LookupError::NoSuchSymbol(_) => Er::Missing, LookupError::NotVisible { .. } => Er::Hidden, LookupError::TooManySuperSegments(..) => Er::Supers, LookupError::AmbiguousPath { .. } => Er::Ambiguous, LookupError::BarrierError(_) => Er::Barrier, _ => return None }) }
const NAMES: [&str; 3] = ["a", "b", "c"];
fn path(r: &mut Rng, m: &Model) -> P {
    if r.chance(1, 3) { // a name that is somewhere
        let s = r.us(m.scopes.len());
        let mut ks: Vec<&P> = m.scopes[s].0.keys().collect(); ks.sort();
        if !ks.is_empty() { let k = r.pick(&ks).to_vec(); let n = k.len().min(r.us(3)); if n < k.len() { return k[n..].to_vec() } }
    }
    let mut p: P = vec![];
    match r.us(8) { 0 => p.push("lib".into()), 1 => p.push("self".into()), 2 => for _ in 0..1 + r.us(3) { p.push("super".into()) }, _ => {} }
    for _ in 0..r.us(4) { p.push(r.pick(&NAMES).to_string()) }
    p
}
fn history(rep: &mut Rep, r: &mut Rng, len: usize) {
    let mut t = SymbolTable::new(Arc::new(Mutex::new(Default::default())));
    let mut m = Model { scopes: vec![(HashMap::new(), false)], ..Default::default() };
    m.scopes[0].0.insert(vec![], t.lookup_id(&Path(vec![]).nowhere(), false).unwrap().0);
    m.things.insert(m.scopes[0].0[&vec![] as &P], It::Module);
    let mut seen: HashSet<u64> = m.things.keys().copied().collect();
    let mut log: Vec<String> = vec![];
    let mut decls: Vec<HashMap<String, bool>> = vec![HashMap::new()];
    if r.chance(1, 3) { let b: P = (0..1 + r.us(2)).map(|_| r.pick(&NAMES).to_string()).collect(); t.set_base_namespace(rp(&b)); m.base = b; log.push(format!("set base namespace {:?}", m.base)) }
    let mut vis = |r: &mut Rng| -> Option<Vis> { if r.chance(1, 2) { None } else { Some(*r.pick(&[Vis::Public, Vis::Public, Vis::Implicit, Vis::Lib, Vis::Slf, Vis::Super, Vis::SuperSuper])) } };
    for _ in 0..len {
        let n = r.pick(&NAMES).to_string();
        let full = |m: &Model, p: &P| { let mut q = m.ns.clone(); q.extend(p.iter().cloned()); q };
        let op = r.us(17);
        let depth = m.scopes.len();
        let mut new: Option<(usize, u64, P, It, Option<Vis>)> = None;
        let v = vis(r);
        let rv = v.map(|v| rvis(v).nowhere());
        let done = guard(|| match op {
            0 | 1 => { t.new_scope(); m.scopes.push((HashMap::new(), false)); decls.push(HashMap::new()); log.push("new scope".into()) }
            2 => { t.new_scope_with_barrier(Box::new(barrier)); m.scopes.push((HashMap::new(), true)); decls.push(HashMap::new()); log.push("new scope with barrier".into()) }
            3 | 4 => if depth > 1 { t.close_scope(); m.scopes.pop(); decls.pop(); log.push("close scope".into()) }
            5 | 6 => if m.ns.len() < 3 { t.push_namespace(PathSegment::Named(lid(&n))); m.ns.push(n.clone()); log.push(format!("push namespace {n}")) }
            7 => if !m.ns.is_empty() { t.pop_namespace(); m.ns.pop(); log.push("pop namespace".into()) }
            8 | 9 => { let i = t.add_local_variable(lid(&n)); log.push(format!("variable {n} = {}", i.0)); new = Some((0, i.0, full(&m, &vec![n.clone()]), It::Var, None)) }
            10 => { let o = r.us(depth); let i = t.add_local_variable_at_offset(o, lid(&n)); log.push(format!("variable {n} at offset {o} = {}", i.0)); new = Some((o, i.0, full(&m, &vec![n.clone()]), It::Var, None)) }
            11 | 12 => {
                let p: P = (0..1 + r.us(2)).map(|_| r.pick(&NAMES).to_string()).collect();
                let (it, th) = if r.chance(1, 3) { (It::Dummy, Thing::Dummy) } else { (It::Module, Thing::Module(().nowhere(), lid(&n))) };
                let taken = m.scopes[0].0.get(&full(&m, &p)).is_some_and(|i| m.things.contains_key(i) || m.types.contains(i));
                if r.chance(1, 3) {
                    let g = t.add_unique_thing(rp(&p).nowhere(), th, rv.clone(), None);
                    log.push(format!("unique thing {p:?} {v:?} = {:?}", g.as_ref().map(|i| i.0).ok()));
                    match g { Ok(i) => { if taken { rep.fail("unique", format!("{p:?} is accepted although it is taken\n{}", log.join("; ")), log.join("; ")) } new = Some((0, i.0, full(&m, &p), it, v)) }
                        Err(_) => if !taken { rep.fail("unique", format!("{p:?} is refused although it is free\n{}", log.join("; ")), log.join("; ")) } }
                } else { let o = if r.chance(1, 2) { 0 } else { r.us(depth) }; let i = t.add_thing_at_offset(o, rp(&p), th, rv.clone(), None); log.push(format!("thing {p:?} at offset {o} {v:?} = {}", i.0)); new = Some((o, i.0, full(&m, &p), it, v)) }
            }
            13 => { let p: P = (0..1 + r.us(2)).map(|_| r.pick(&NAMES).to_string()).collect(); let i = t.add_type(rp(&p).nowhere(), TypeSymbol::GenericMeta(spade_types::meta_types::MetaType::Number).nowhere(), rv.clone(), None); log.push(format!("type {p:?} {v:?} = {}", i.0)); new = Some((0, i.0, full(&m, &p), It::Type, v)) }
            14 | 15 => {
                let to = path(r, &m); let av = v.unwrap_or(Vis::Public);
                let taken = m.scopes[0].0.get(&full(&m, &vec![n.clone()])).is_some_and(|i| m.things.contains_key(i) || m.types.contains(i));
                match t.add_alias(().nowhere(), lid(&n), rp(&to).nowhere(), rvis(av).nowhere(), None) {
                    Ok(i) => { log.push(format!("alias {n} -> {to:?} {av:?} = {}", i.0)); if taken { rep.fail("unique", format!("{n} is accepted although it is taken\n{}", log.join("; ")), log.join("; ")) } new = Some((0, i.0, full(&m, &vec![n.clone()]), It::Alias(to, m.ns.clone()), Some(av))) }
                    Err(_) => if !taken { rep.fail("unique", format!("alias {n} is refused although it is free\n{}", log.join("; ")), log.join("; ")) }
                }
            }
            _ => {
                // try_lookup_id panics on every error but a missing name
                let l = m.look(&vec![n.clone()], &m.ns, false);
                if matches!(l, Ok(_) | Err(Er::Missing)) {
                    let d = decls.last().unwrap().contains_key(&n);
                    let dup = d || l.is_ok_and(|i| m.things.get(&i) == Some(&It::Var));
                    match t.add_declaration(lid(&n)) {
                        Ok(i) => { log.push(format!("declaration {n} = {}", i.0)); if dup { rep.fail("declare", format!("{n} is declared again\n{}", log.join("; ")), log.join("; ")) } decls.last_mut().unwrap().insert(n.clone(), false); new = Some((0, i.0, full(&m, &vec![n.clone()]), It::Var, None)) }
                        Err(_) => if !dup { rep.fail("declare", format!("{n} cannot be declared\n{}", log.join("; ")), log.join("; ")) }
                    }
                } else if let Some((k, s)) = decls.last().unwrap().iter().next().map(|(k, s)| (k.clone(), *s)) {
                    if !s { t.mark_declaration_defined(lid(&k), ().nowhere()); decls.last_mut().unwrap().insert(k.clone(), true); log.push(format!("define {k}")) }
                }
            }
        });
        if let Err(e) = done { rep.fail("panic", format!("{e}\n{}", log.join("; ")), log.join("; ")); return }
        if let Some((o, i, p, it, v)) = new {
            if !seen.insert(i) { rep.fail("identity", format!("identity {i} is given out twice\n{}", log.join("; ")), log.join("; ")) }
            let k = m.scopes.len() - 1 - o;
            m.scopes[k].0.insert(p, i);
            if it == It::Type { m.types.insert(i); } else { m.things.insert(i, it); }
            if let Some(v) = v { m.vis.insert(i, v); }
        }
        let mut un: Vec<String> = t.get_undefined_declarations().iter().map(|(n, _)| n.inner.to_string()).collect(); un.sort();
        let mut wn: Vec<String> = decls.last().unwrap().iter().filter(|d| !*d.1).map(|d| d.0.clone()).collect(); wn.sort();
        if un != wn { rep.fail("declare", format!("undefined declarations {un:?} instead of {wn:?}\n{}", log.join("; ")), log.join("; ")) }
    }
    let h = log.join("; ");
    rep.case(&h, m.scopes.len() > 1 || m.things.len() > 3);
    for _ in 0..24 {
        let p = path(r, &m);
        let ns: P = if r.chance(2, 3) { m.ns.clone() } else { (0..r.us(3)).map(|_| r.pick(&NAMES).to_string()).collect() };
        let meta = r.chance(1, 2);
        let want = m.look(&p, &ns, meta);
        if matches!(want, Err(Er::Panics | Er::Deep)) || matches!(m.look(&p, &ns, false), Err(Er::Panics | Er::Deep)) { continue }
        let d = format!("{h}; look up {p:?} in {ns:?}{}", if meta { " with visibility" } else { "" });
        rep.cur(&d);
        match guard(|| t.lookup_id_in_namespace(&rp(&p).nowhere(), &rp(&ns), meta)) {
            Err(e) => rep.fail("panic", format!("{d}: {e}"), d.clone()),
            Ok(Ok(i)) => if want != Ok(i.0) { rep.fail("lookup", format!("{d}: found {} instead of {want:?}", i.0), d.clone()) },
            Ok(Err(e)) => if want.err() != er(&e) || er(&e).is_none() { rep.fail("lookup", format!("{d}: {:?} instead of {want:?}", er(&e)), d.clone()) },
        }
        if ns == m.ns && !meta {
            let v = guard(|| t.lookup_variable(&rp(&p).nowhere()).map(|i| i.0).ok());
            let w = want.ok().filter(|i| m.things.get(i) == Some(&It::Var));
            if v != Ok(w) { rep.fail("variable", format!("{d}: as a variable {v:?} instead of {w:?}"), d.clone()) }
        }
    }
}

// ------------------------------------------------------------------ programs
struct G<'a> { r: &'a mut Rng, env: Vec<Vec<(String, u64)>>, m: &'a Model, ns: P, fns: &'a HashMap<u64, u64>, bad: bool, budget: i32 }
impl G<'_> {
    fn name(&mut self) -> (String, Option<u64>) {
        let n = self.r.pick(&["a", "b", "c", "d"]).to_string();
        let v = self.env.iter().rev().flat_map(|s| s.iter().rev()).find(|x| x.0 == n).map(|x| x.1);
        (n, v)
    }
    fn ex(&mut self, d: usize) -> (String, u64) {
        self.budget -= 1;
        if d == 0 || self.budget < 0 { let k = self.r.below(64); return (format!("pin({k})"), k) }
        match self.r.us(8) {
            0 | 1 | 2 => { let (n, v) = self.name(); match v { Some(v) => (n, v), None => if self.r.chance(1, 12) { self.bad = true; (n, 0) } else { let k = self.r.below(64); (format!("pin({k})"), k) } } }
            3 => { let (s, v) = self.ex(d - 1); let (t, w) = self.ex(d - 1); (format!("({s} +. {t})"), (v + w) % 65536) }
            4 | 5 => self.block(d - 1),
            6 => { // a pattern binds in its arm only
                let (s, v) = self.ex(d - 1);
                let n = self.r.pick(&["a", "b", "c", "d"]).to_string();
                self.env.push(vec![(n.clone(), v)]);
                let (t, w) = self.ex(d - 1);
                self.env.pop();
                (format!("match pin({s}) {{ {n} => {t} }}"), w)
            }
            _ => {
                let mut p: P = vec![];
                match self.r.us(7) { 0 => p.push("lib".into()), 1 => p.push("self".into()), 2 => p.push("super".into()), _ => {} }
                for _ in 0..self.r.us(3) { p.push(self.r.pick(&["m", "n", "k"]).to_string()) }
                p.push(self.r.pick(&["f", "g"]).to_string());
                let l = self.m.look(&p, &self.ns, true);
                match l.ok().and_then(|i| self.fns.get(&i)) {
                    Some(v) => (format!("{}()", p.join("::")), *v),
                    None => if self.r.chance(1, 12) && !matches!(l, Err(Er::Panics | Er::Deep)) { self.bad = true; (format!("{}()", p.join("::")), 0) } else { ("pin(5)".into(), 5) },
                }
            }
        }
    }
    fn block(&mut self, d: usize) -> (String, u64) {
        self.env.push(vec![]);
        let mut o = "{ ".to_string();
        for _ in 0..self.r.us(4) {
            let (s, v) = self.ex(d);
            let n = self.r.pick(&["a", "b", "c", "d"]).to_string();
            o += &format!("let {n}: uint<16> = {s}; ");
            self.env.last_mut().unwrap().push((n, v));
        }
        let (s, v) = self.ex(d.max(1));
        self.env.pop();
        (format!("{o}{s} }}"), v)
    }
}
fn program(rep: &mut Rep, r: &mut Rng) {
    // the modules and what they hold
    let mut m = Model { scopes: vec![(HashMap::new(), false)], ..Default::default() };
    let mut id = 1u64;
    let mut fns = HashMap::new();
    m.base = vec!["proj".into()];
    let mods: [&[&str]; 4] = [&[], &["m"], &["m", "n"], &["k"]];
    let mut text: Vec<String> = vec![String::new(); 4];
    let abs = |q: &[&str]| -> P { std::iter::once("proj").chain(q.iter().copied()).map(|s| s.to_string()).collect() };
    let mut add = |m: &mut Model, p: P, it: It, v: Option<Vis>| { let k = id; id += 1; m.scopes[0].0.insert(p, k); m.things.insert(k, it); if let Some(v) = v { m.vis.insert(k, v); } k };
    add(&mut m, vec!["proj".into()], It::Module, Some(Vis::Public));
    let mut vs = vec![];
    for q in &mods[1..] { let v = *r.pick(&[Vis::Public, Vis::Public, Vis::Implicit, Vis::Lib]); vs.push(v); add(&mut m, abs(q), It::Module, Some(v)); }
    let word = |v: Vis| match v { Vis::Public => "pub ", Vis::Implicit => "", Vis::Lib => "pub(lib) ", Vis::Slf => "pub(self) ", Vis::Super => "pub(super) ", Vis::SuperSuper => "" };
    for (i, q) in mods.iter().enumerate() {
        for n in ["f", "g"] {
            let mut p = abs(q); p.push(n.into());
            let v = *r.pick(&[Vis::Public, Vis::Public, Vis::Implicit, Vis::Lib, Vis::Slf, Vis::Super]);
            match r.us(4) {
                0 => {}
                1 => { let mut to: P = vec![]; match r.us(3) { 0 => to.push("lib".into()), 1 => to.push("super".into()), _ => {} } for _ in 0..r.us(3) { to.push(r.pick(&["m", "n", "k"]).to_string()) } to.push(r.pick(&["f", "g"]).to_string());
                    if to == [n] { continue }
                    add(&mut m, p, It::Alias(to.clone(), abs(q)), Some(v)); text[i] += &format!("{}use {} as {n};\n", word(v), to.join("::")) }
                _ => { let c = r.range(100, 60000); let k = add(&mut m, p, It::Module, Some(v)); fns.insert(k, c); text[i] += &format!("{}fn {n}() -> uint<16> {{ {c} }}\n", word(v)) }
            }
        }
        text[i] += "fn pin(x: uint<16>) -> uint<16> { x }\n";
    }
    // an alias that leads nowhere is an error on its own
    let dead = m.things.iter().any(|(_, t)| if let It::Alias(to, ns) = t { !m.look(to, ns, true).ok().is_some_and(|i| fns.contains_key(&i)) } else { false });
    if dead { return }
    let at = r.us(4);
    let (pa, pb) = (r.below(60000), r.below(60000));
    let mut g = G { r, env: vec![vec![("a".into(), pa), ("b".into(), pb)]], m: &m, ns: abs(mods[at]), fns: &fns, bad: false, budget: 60 };
    let (b, v) = g.block(4);
    let bad = g.bad;
    text[at] += &format!("pub entity top(a: uint<16>, b: uint<16>) -> uint<16> {b}\n");
    let src = format!("{}{}mod m {{\n{}{}mod n {{\n{}}}\n}}\n{}mod k {{\n{}}}\n", text[0], word(vs[0]), text[1], word(vs[1]), text[2], word(vs[2]), text[3]);
    rep.case(&src, b.len() > 40);
    rep.note(if bad { "program with a name out of scope" } else { "program" });
    let c = compile(&src);
    if let Some(e) = c.panicked { return rep.fail("program", format!("the compiler panics: {e}\n{src}"), src) }
    if bad { if c.ok { rep.fail("program", format!("a name that is not in scope is accepted\n{src}"), src) } return }
    if !c.ok { return rep.fail("program", format!("every name is in scope and it is rejected: {:?}\n{src}", error_lines(&c.diags).first()), src) }
    let got = (|| -> Result<Bv, String> { let ms = vlog::parse(&c.verilog)?; let t = ms.iter().find(|x| x.name.contains("top")).ok_or("no module top")?.name.clone(); let mut s = Sim::new(&ms, &t)?; for (n, x) in [("a_i", pa), ("b_i", pb)] { s.set(n, Bv::from_u(&x.into(), 16))?; } s.settle()?; s.get("output__") })();
    match got { Err(e) => rep.note(&format!("simulation: {e}")), Ok(g) => { let w = Bv::from_u(&v.into(), 16); if g.0 != w.0 { rep.fail("program", format!("the value is {} instead of {} (a = {pa}, b = {pb})\n{src}", g.str(), w.str()), src) } } }
}

pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "more than one scope or more than three definitions".into();
    let mut r = Rng::new(seed);
    let mut k = 0u64;
    while rep.time_left() {
        if k % 150 == 149 { program(rep, &mut r) } else { let n = 1 + r.us(if k % 5 == 0 { 60 } else { 18 }); history(rep, &mut r, n) }
        k += 1;
    }
}
