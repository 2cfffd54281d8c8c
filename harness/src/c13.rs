//! C13: the union-find of the type checker against a naive substitution model, kind unification against
//! the kind lattice, and unification / speculation of whole type terms against textbook unification.
use crate::util::*;
use num::BigInt;
use spade_common::location_info::WithLocation;
use spade_types::{meta_types::{unify_meta, MetaType}, KnownType};
use spade_typeinference::equation::{TypeVar, TypeVarID};
use spade_typeinference::verif::ReplacementStack;
use spade_typeinference::traits::{TraitImplList, TraitList};
use spade_typeinference::{Context, SharedTypeState, TypeState};
use std::sync::{Arc, Mutex};

const METAS: [MetaType; 7] = [MetaType::Any, MetaType::Type, MetaType::Number, MetaType::Int, MetaType::Uint, MetaType::Bool, MetaType::Str];
fn le(a: &MetaType, b: &MetaType) -> bool { a == b || *b == MetaType::Any || (*b == MetaType::Number && (*a == MetaType::Int || *a == MetaType::Uint)) }
fn glb(a: &MetaType, b: &MetaType) -> Option<MetaType> { METAS.iter().filter(|x| le(x, a) && le(x, b)).max_by_key(|x| METAS.iter().filter(|y| le(y, x)).count()).cloned() }

fn metas(rep: &mut Rep) {
    for a in &METAS { for b in &METAS {
        let d = format!("unify_meta({a:?}, {b:?})");
        rep.case(&d, true);
        match guard(|| unify_meta(a, b)) {
            Ok(m) => if m != glb(a, b) { rep.fail("unify-meta", format!("{d} gives {m:?}, the greatest kind below both is {:?}", glb(a, b)), d) },
            Err(e) => rep.fail("unify-meta", format!("{d} panics: {e}"), d),
        }
    } }
}

/// the stack of scopes against: per scope, a full map id -> representative
fn stack(rep: &mut Rep, r: &mut Rng) {
    let n = 2 + r.us(8);
    let id = |k: usize| TypeVarID { inner: k, type_state_key: 0 };
    let s0 = guard(|| ReplacementStack::new());
    let Ok(mut s) = s0 else { rep.fail("stack", "ReplacementStack::new panics".into(), String::new()); return };
    let mut model: Vec<Vec<usize>> = vec![(0..n).collect()];
    let mut log = String::new();
    for _ in 0..(3 + r.us(25)) {
        match r.below(10) {
            0 | 1 => { log += "push; "; s.push(); let t = model.last().unwrap().clone(); model.push(t) }
            2 if model.len() > 1 => { log += "discard_top; "; s.discard_top(); model.pop(); }
            3 | 4 => { let k = r.us(n); log += &format!("get {k}; "); rep.cur(&log); if let Ok(g) = guard(|| s.get(id(k))) { if g != id(model.last().unwrap()[k]) { rep.fail("stack", format!("after `{log}` id {k} resolves to {}, expected {}", g.inner, model.last().unwrap()[k]), log.clone()); return } } }
            _ => {
                let (a, b) = (r.us(n), r.us(n));
                let m = model.last_mut().unwrap();
                let from = m[a];
                // merge a representative into anything of another class (not only into representatives)
                if m[b] != from { log += &format!("insert {from} -> {b}; "); s.insert(id(from), id(b)); let to = m[b]; for x in m.iter_mut() { if *x == from { *x = to } } }
            }
        }
        if r.chance(1, 3) {
            let mut order: Vec<usize> = (0..n).collect(); r.shuffle(&mut order);
            for k in order { rep.cur(&log); match guard(|| s.get(id(k))) {
                Ok(g) => if g != id(model.last().unwrap()[k]) { rep.fail("stack", format!("after `{log}` id {k} resolves to {}, expected {}", g.inner, model.last().unwrap()[k]), log.clone()); return },
                Err(e) => { rep.fail("stack", format!("after `{log}` get {k} panics: {e}"), log.clone()); return }
            } }
        }
    }
    rep.case(&log, log.contains("insert") && log.contains("push"));
}

// ---- whole terms
#[derive(Clone, Debug, PartialEq)]
enum T { Var(usize), Con(KnownType, Vec<usize>) } // a node per variable id
#[derive(Clone)]
struct M { up: Vec<usize>, node: Vec<(Option<(KnownType, Vec<usize>)>, MetaType)> }
impl M {
    fn find(&self, mut x: usize) -> usize { while self.up[x] != x { x = self.up[x] } x }
    fn occurs(&self, x: usize, t: usize, fuel: usize) -> bool { if fuel == 0 { return true } let t = self.find(t); if t == x { return true } match &self.node[t].0 { Some((_, p)) => p.iter().any(|q| self.occurs(x, *q, fuel - 1)), None => false } }
    fn unify(&mut self, a: usize, b: usize) -> bool {
        let (a, b) = (self.find(a), self.find(b));
        if a == b { return true }
        match (self.node[a].clone(), self.node[b].clone()) {
            ((None, m), (None, n)) => match glb(&m, &n) { Some(g) => { self.up[a] = b; self.node[b].1 = g; true } None => false },
            ((None, m), (Some((k, _)), _)) => { if !fits(&k, &m) || self.occurs(a, b, 60) { return false } self.up[a] = b; true }
            ((Some((k, _)), _), (None, m)) => { if !fits(&k, &m) || self.occurs(b, a, 60) { return false } self.up[b] = a; true }
            ((Some((k, p)), _), (Some((l, q)), _)) => { if k != l || p.len() != q.len() { return false } for (x, y) in p.iter().zip(&q) { if !self.unify(*x, *y) { return false } } true }
        }
    }
}
fn fits(k: &KnownType, m: &MetaType) -> bool {
    match (k, m) {
        (_, MetaType::Any) => true,
        (KnownType::Integer(i), MetaType::Uint) => *i >= BigInt::from(0),
        (KnownType::Integer(_), MetaType::Int | MetaType::Number) => true,
        (KnownType::Bool(_), MetaType::Bool) | (KnownType::String(_), MetaType::Str) => true,
        (KnownType::Named(_) | KnownType::Tuple | KnownType::Array | KnownType::Inverted | KnownType::CopyView, MetaType::Type) => true,
        _ => false,
    }
}
/// canonical rendering: unknowns by the smallest id of their class
fn shown(ts: &TypeState, ids: &[TypeVarID], v: TypeVarID, fuel: usize) -> String {
    if fuel == 0 { return "...".into() }
    match v.resolve(ts) {
        TypeVar::Known(_, k, p) => format!("{k:?}[{}]", p.iter().map(|q| shown(ts, ids, *q, fuel - 1)).collect::<Vec<_>>().join(",")),
        TypeVar::Unknown(_, _, _, m) => { let g = ts.get_replacement(&v); format!("?{}:{m:?}", ids.iter().position(|x| ts.get_replacement(x) == g).map(|x| x.to_string()).unwrap_or("new".into())) }
    }
}
fn mshown(m: &M, v: usize, fuel: usize) -> String {
    if fuel == 0 { return "...".into() }
    let g = m.find(v);
    match &m.node[g].0 { Some((k, p)) => format!("{k:?}[{}]", p.iter().map(|q| mshown(m, *q, fuel - 1)).collect::<Vec<_>>().join(",")), None => format!("?{}:{:?}", (0..m.up.len()).position(|x| m.find(x) == g).unwrap(), m.node[g].1) }
}
fn terms(rep: &mut Rep, r: &mut Rng, symtab: &spade_hir::symbol_table::SymbolTable, items: &spade_hir::ItemList, trait_impls: &TraitImplList) {
    let ctx = Context { symtab, items, trait_impls };
    let mut ts = TypeState::fresh(Arc::new(SharedTypeState::new()));
    let mut ids: Vec<TypeVarID> = vec![];
    let mut m = M { up: vec![], node: vec![] };
    let l = ().nowhere();
    let named: Vec<KnownType> = [ts.t_int(l, symtab), ts.t_uint(l, symtab), ts.t_bool(l, symtab)].iter().map(|t| match t.resolve(&ts) { TypeVar::Known(_, k, _) => k, _ => unreachable!() }).collect();
    let mut log = String::new();
    let n = 4 + r.us(9);
    for i in 0..n {
        let (id, node) = if i < 2 || r.chance(1, 2) {
            let k = METAS[[0, 1, 1, 0, 2, 3, 4, 5, 6][r.us(9)]].clone();
            let id = match k { MetaType::Any => ts.new_generic_any(), MetaType::Type => ts.new_generic_type(l), MetaType::Number => ts.new_generic_tlnumber(l), MetaType::Int => ts.new_generic_tlint(l), MetaType::Uint => ts.new_generic_tluint(l), MetaType::Bool => ts.new_generic_tlbool(l), MetaType::Str => ts.new_generic_tlstr(l) };
            log += &format!("t{i} = ?{k:?}; ");
            (id, (None, k))
        } else {
            let (k, np) = match r.below(12) { 9 | 10 => (named[r.us(2)].clone(), 1), 11 => (named[2].clone(), 0), 0 => (KnownType::Integer(BigInt::from(r.below(3) as i64 - 1)), 0), 1 => (KnownType::Bool(r.chance(1, 2)), 0), 2 => (KnownType::String(["a", "b"][r.us(2)].into()), 0), 3 => (KnownType::Inverted, 1), 4 => (KnownType::CopyView, 1), 5 => (KnownType::Array, 2), _ => (KnownType::Tuple, r.us(4)) };
            let p: Vec<usize> = (0..np).map(|_| r.us(i)).collect();
            let id = ts.add_type_var(TypeVar::Known(l, k.clone(), p.iter().map(|x| ids[*x]).collect()));
            log += &format!("t{i} = {k:?}{p:?}; ");
            (id, (Some((k, p)), MetaType::Any))
        };
        ids.push(id); m.up.push(i); m.node.push(node);
    }
    let check = |ts: &TypeState, m: &M, log: &str, rep: &mut Rep| -> bool {
        for i in 0..n {
            let (a, b) = (shown(ts, &ids, ids[i], 12), mshown(m, i, 12));
            if a != b { rep.fail("terms", format!("after `{log}` t{i} is {a}, expected {b}"), log.to_string()); return false }
        }
        true
    };
    let mut merged = 0;
    for _ in 0..(4 + r.us(12)) {
        let (a, b) = (r.us(n), r.us(n));
        let mut m2 = m.clone();
        let exp = m2.unify(a, b);
        let spec = !exp || r.chance(1, 3);
        let what = format!("{}(t{a}, t{b}); ", if spec { "can_unify" } else { "unify" });
        log += &what;
        let ctx = &ctx;
        let got = guard(|| if spec { ts.can_unify(&ids[a], &ids[b], ctx) } else { ts.unify(&ids[a], &ids[b], ctx).is_ok() });
        match got {
            Err(e) => { rep.fail("terms", format!("after `{log}` panics: {e}"), log.clone()); return }
            Ok(g) if g != exp => { rep.fail("terms", format!("`{log}` {}, but the two types {}", if g { "succeeded" } else { "failed" }, if exp { "are unifiable" } else { "can not be made equal" }), log.clone()); return }
            _ => {}
        }
        if !spec { m = m2; merged += 1 }
        if r.chance(1, 8) {
            // a speculative scope with several merges (and a nested one) inside
            let seq: Vec<(usize, usize)> = (0..3).map(|_| (r.us(n), r.us(n))).collect();
            log += &format!("do_and_restore{seq:?}; ");
            let cell = Mutex::new(());
            if let Err(e) = guard(|| ts.do_and_restore(|s| { let _g = cell.lock(); for (a, b) in &seq { let _ = s.unify(&ids[*a], &ids[*b], ctx); s.can_unify(&ids[*b], &ids[0], ctx); } if seq[0].0 % 2 == 0 { Ok(()) } else { Err(()) } })) { rep.fail("terms", format!("after `{log}` panics: {e}"), log.clone()); return }
        }
        if !check(&ts, &m, &log, rep) { return }
    }
    rep.case(&log, merged > 1);
    let _ = TraitList::empty();
}

/// trying candidate impls is speculative: which impls exist besides the one that fits must not matter
fn impls(rep: &mut Rep, r: &mut Rng) {
    let tys = ["bool", "uint<2>", "uint<4>", "int<3>", "[bool; 2]"];
    let lits = ["true", "1u2", "3u4", "1i3", "[true, false]"];
    let tup = r.chance(1, 2);
    let mut heads: Vec<Vec<usize>> = vec![];
    let len0 = r.us(3) + 2;
    while heads.len() < 3 {
        let n = if tup { r.us(3) + 2 } else { len0 };
        // the first two members are equal, so that the second is resolved after the first was bound in the same scope
        let mut h: Vec<usize> = (0..n).map(|_| r.us(5)).collect();
        h[1] = h[0];
        if !heads.contains(&h) { heads.push(h) }
    }
    let ty = |h: &[usize]| { let l = h.iter().map(|i| tys[*i]).collect::<Vec<_>>().join(", "); if tup { format!("({l})") } else { format!("S<{l}>") } };
    let ps = (0..len0).map(|i| format!("P{i}")).collect::<Vec<_>>();
    let mut src = String::new();
    if !tup { src += &format!("struct S<{}> {{ {} }}\n", ps.join(", "), ps.iter().enumerate().map(|(i, p)| format!("f{i}: {p}")).collect::<Vec<_>>().join(", ")) }
    src += "trait Tr<X> { fn m(self) -> X; }\n";
    for (i, h) in heads.iter().enumerate() { src += &format!("impl Tr<uint<{}>> for {} {{ fn m(self) -> uint<{}> {{ {i} }} }}\n", 10 + i, ty(h), 10 + i) }
    src += "fn call<T, X>(t: T) -> X where T: Tr<X> { t.m() }\n";
    let k = r.us(3);
    let late = r.chance(1, 2) && heads[k].len() > 2 && heads.iter().enumerate().all(|(i, h)| i == k || h.len() != heads[k].len() || h[2..] != heads[k][2..]) && [1usize, 2].contains(&heads[k][0]);
    let args = heads[k].iter().enumerate().map(|(i, j)| if late && i < 2 { "v".to_string() } else { lits[*j].to_string() }).collect::<Vec<_>>().join(", ");
    src += &format!("fn top(x: uint<10>) -> uint<{}> {{\n    let v = trunc(x);\n    let r = call({}({args}));\n    let w: {} = v;\n    r\n}}\n", 10 + k, if tup { "" } else { "S" }, if late { tys[heads[k][0]] } else { "uint<4>" });
    rep.case(&src, true);
    let c = compile(&src);
    if let Some(e) = c.panicked { return rep.fail("impls", format!("the compiler panics: {e}"), src) }
    if !c.ok { rep.fail("impls", format!("exactly one impl fits, yet it is rejected: {:?}", error_lines(&c.diags).first()), src) }
}

pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "all 49 kind pairs; a random history counts when it contains a merge and a scope, or two merges of type terms".into();
    metas(rep);
    let mut r = Rng::new(seed);
    let Some(art) = artefacts("fn f(a: bool) -> bool { a }") else { rep.fail("terms", "a one line program is rejected".into(), String::new()); return };
    let (symtab, items) = (art.state.symtab.symtab(), &art.item_list);
    while rep.time_left() {
        for _ in 0..20 { stack(rep, &mut r) }
        for _ in 0..10 { terms(rep, &mut r, symtab, items, &art.impl_list) }
        impls(rep, &mut r);
    }
}
