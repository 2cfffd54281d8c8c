//! C06: type-level expressions: evaluation through the constraint solver, and end to end.
use crate::util::*;
use num::{BigInt, One, Signed, ToPrimitive, Zero};
use spade_common::location_info::WithLocation;
use spade_types::{meta_types::MetaType, KnownType};
use spade_typeinference::equation::{TypeVar, TypeVarID};
use spade_typeinference::traits::TraitList;
use spade_typeinference::verif::*;
use spade_typeinference::{SharedTypeState, TypeState};
use ConstraintExpr as E;

#[derive(Clone, Debug, PartialEq)]
pub enum V { I(BigInt), B(bool), S(String), U }
fn fits_u(n: &BigInt, k: u64) -> bool { !n.is_negative() && *n < (BigInt::one() << k) }
fn fits_i(n: &BigInt, k: u64) -> bool { k >= 1 && *n < (BigInt::one() << (k - 1)) && *n >= -(BigInt::one() << (k - 1)) }
pub fn ubits(n: &BigInt) -> Option<u64> { if n.is_negative() { None } else { let mut k = 0; while !fits_u(n, k) { k += 1 } Some(k) } }
pub fn ibits(n: &BigInt) -> u64 { let mut k = 1; while !fits_i(n, k) { k += 1 } k }
fn tdiv(a: &BigInt, b: &BigInt) -> BigInt { let (x, y) = (a.abs(), b.abs()); let q = &x / &y; if a.is_negative() != b.is_negative() { -q } else { q } }

/// None: not specified (unsigned width of a negative number)
fn val(e: &E, env: &[(TypeVarID, V)]) -> Option<V> {
    let i2 = |a: &E, b: &E, f: &dyn Fn(BigInt, BigInt) -> V| -> Option<V> { Some(match (val(a, env)?, val(b, env)?) { (V::I(x), V::I(y)) => f(x, y), _ => V::U }) };
    let b2 = |a: &E, b: &E, f: &dyn Fn(bool, bool) -> bool| -> Option<V> { Some(match (val(a, env)?, val(b, env)?) { (V::B(x), V::B(y)) => V::B(f(x, y)), _ => V::U }) };
    Some(match e {
        E::Bool(b) => V::B(*b), E::Integer(i) => V::I(i.clone()), E::String(s) => V::S(s.clone()),
        E::Var(v) => env.iter().find(|x| x.0 == *v).map(|x| x.1.clone()).unwrap_or(V::U),
        E::Sum(a, b) => i2(a, b, &|x, y| V::I(x + y))?, E::Difference(a, b) => i2(a, b, &|x, y| V::I(x - y))?, E::Product(a, b) => i2(a, b, &|x, y| V::I(x * y))?,
        E::Div(a, b) => i2(a, b, &|x, y| if y.is_zero() { V::U } else { V::I(tdiv(&x, &y)) })?,
        E::Mod(a, b) => i2(a, b, &|x, y| if y.is_zero() { V::U } else { V::I(&x - &y * tdiv(&x, &y)) })?,
        E::Sub(a) => match val(a, env)? { V::I(x) => V::I(BigInt::zero() - x), _ => V::U },
        E::Eq(a, b) => match (val(a, env)?, val(b, env)?) { (V::I(x), V::I(y)) => V::B(x == y), (V::B(x), V::B(y)) => V::B(x == y), (V::S(x), V::S(y)) => V::B(x == y), _ => V::U },
        E::NotEq(a, b) => match (val(a, env)?, val(b, env)?) { (V::I(x), V::I(y)) => V::B(x != y), (V::B(x), V::B(y)) => V::B(x != y), (V::S(x), V::S(y)) => V::B(x != y), _ => V::U },
        E::Lt(a, b) => i2(a, b, &|x, y| V::B(x < y))?, E::Gt(a, b) => i2(a, b, &|x, y| V::B(y < x))?,
        E::Le(a, b) => i2(a, b, &|x, y| V::B(!(y < x)))?, E::Ge(a, b) => i2(a, b, &|x, y| V::B(!(x < y)))?,
        E::LogicalNot(a) => match val(a, env)? { V::B(x) => V::B(!x), _ => V::U },
        E::LogicalAnd(a, b) => b2(a, b, &|x, y| x && y)?, E::LogicalOr(a, b) => b2(a, b, &|x, y| x || y)?, E::LogicalXor(a, b) => b2(a, b, &|x, y| x != y)?,
        E::IntBitsToRepresent(a) => match val(a, env)? { V::I(x) => V::I(ibits(&x).into()), _ => V::U },
        E::UintBitsToRepresent(a) => match val(a, env)? { V::I(x) => V::I(ubits(&x)?.into()), _ => V::U },
    })
}
fn gint(r: &mut Rng) -> BigInt {
    let m: BigInt = match r.below(7) {
        0 => BigInt::zero(), 1 => BigInt::one(), 2 => r.below(20).into(),
        3 => (BigInt::one() << (r.below(130) as usize)) + BigInt::from(r.below(3) as i64 - 1),
        4 => BigInt::one() << (r.below(70) as usize), 5 => r.below(1 << 20).into(),
        _ => BigInt::from(r.next()) * BigInt::from(r.next()),
    };
    if r.chance(1, 3) { -m } else { m }
}
fn gexpr(r: &mut Rng, d: usize, vars: &[(TypeVarID, V)], kind: u64) -> E {
    // kind: 0 int, 1 bool, 2 string
    let bx = |e| Box::new(e);
    if d == 0 || r.chance(1, 8) {
        if r.chance(1, 3) && !vars.is_empty() {
            let c: Vec<_> = vars.iter().filter(|v| match &v.1 { V::I(_) => kind == 0, V::B(_) => kind == 1, V::S(_) => kind == 2, V::U => r.0 % 3 == 0 }).collect();
            if !c.is_empty() { return E::Var(r.pick(&c).0) }
        }
        return match kind { 0 => E::Integer(gint(r)), 1 => E::Bool(r.chance(1, 2)), _ => E::String(["", "a", "b", "ab"][r.us(4)].into()) };
    }
    if r.chance(1, 40) { let k = r.below(3); return gexpr(r, d - 1, vars, k) }
    let mut g = |r: &mut Rng, k| bx(gexpr(r, d - 1, vars, k));
    match kind {
        0 => match r.below(9) { 0 => E::Sum(g(r, 0), g(r, 0)), 1 => E::Difference(g(r, 0), g(r, 0)), 2 => E::Product(g(r, 0), g(r, 0)), 3 => E::Div(g(r, 0), g(r, 0)), 4 => E::Mod(g(r, 0), g(r, 0)), 5 => E::Sub(g(r, 0)), 6 | 7 => E::IntBitsToRepresent(g(r, 0)), _ => E::UintBitsToRepresent(g(r, 0)) },
        1 => match r.below(10) {
            0 | 1 => { let k = r.below(3); E::Eq(g(r, k), g(r, k)) } 2 => { let k = r.below(3); E::NotEq(g(r, k), g(r, k)) }
            3 => E::Lt(g(r, 0), g(r, 0)), 4 => E::Gt(g(r, 0), g(r, 0)), 5 => E::Le(g(r, 0), g(r, 0)), 6 => E::Ge(g(r, 0), g(r, 0)),
            7 => E::LogicalNot(g(r, 1)), 8 => E::LogicalAnd(g(r, 1), g(r, 1)), _ => if r.chance(1, 2) { E::LogicalOr(g(r, 1), g(r, 1)) } else { E::LogicalXor(g(r, 1), g(r, 1)) } },
        _ => E::String(["", "a", "b", "ab"][r.us(4)].into()),
    }
}
fn as_v(e: &E) -> V { match e { E::Integer(i) => V::I(i.clone()), E::Bool(b) => V::B(*b), E::String(s) => V::S(s.clone()), _ => V::U } }

fn api(rep: &mut Rep, r: &mut Rng) {
    let shared = std::sync::Arc::new(SharedTypeState::new());
    let mut ts = TypeState::fresh(shared);
    let mut env = vec![];
    for _ in 0..6 {
        let v = match r.below(5) { 0 | 1 => V::I(gint(r)), 2 => V::B(r.chance(1, 2)), 3 => V::S("a".into()), _ => V::U };
        let tv = match &v {
            V::I(i) => TypeVar::Known(().nowhere(), KnownType::Integer(i.clone()), vec![]), V::B(b) => TypeVar::Known(().nowhere(), KnownType::Bool(*b), vec![]),
            V::S(s) => TypeVar::Known(().nowhere(), KnownType::String(s.clone()), vec![]), V::U => TypeVar::Unknown(().nowhere(), env.len() as u64, TraitList::empty(), MetaType::Any),
        };
        env.push((ts.add_type_var(tv), v));
    }
    let targets: Vec<TypeVarID> = (0..12).map(|i| ts.add_type_var(TypeVar::Unknown(().nowhere(), 99 + i, TraitList::empty(), MetaType::Any))).collect();
    let target = targets[0];
    let mut cs = TypeConstraints::new();
    let mut es = vec![];
    for _ in 0..12 {
        let dep = 1 + r.us(5); let k = r.below(2);
        let mut e = gexpr(r, dep, &env, k);
        if r.chance(1, 6) { let inner = e; let lit = match &inner { E::UintBitsToRepresent(x) => (**x).clone(), x => x.clone() }; e = bits_to_store(lit) }
        es.push(e.clone());
        let target = targets[es.len() - 1];
        cs.add_int_constraint(target, e.with_context(&target, &target, ConstraintSource::Where).nowhere());
    }
    let want: Vec<Option<V>> = es.iter().map(|e| val(e, &env)).collect();
    let desc = |i: usize| format!("{:?} with {:?}", es[i], env);
    let res = guard(|| cs.update_type_level_value_constraints(&ts));
    for (i, _) in es.iter().enumerate() { rep.case(&format!("{:?}", es[i]), !matches!(es[i], E::Integer(_) | E::Bool(_) | E::String(_))) }
    let (rest, known) = match res { Ok(x) => x, Err(p) => { for i in 0..es.len() {
            let mut one = TypeConstraints::new(); one.add_int_constraint(target, es[i].clone().with_context(&target, &target, ConstraintSource::Where).nowhere());
            if let Err(p) = guard(|| one.update_type_level_value_constraints(&ts)) { rep.fail("eval-panic", format!("evaluating {} panics: {p}", desc(i)), desc(i)); return }
        } rep.fail("eval-panic", format!("panic {p}"), format!("{es:?}")); return } };
    for i in 0..es.len() {
        let Some(want) = &want[i] else { rep.note("unspecified"); continue };
        let k: Vec<_> = known.iter().filter(|k| k.inner.0 == targets[i]).collect();
        let m: Vec<_> = rest.inner.iter().filter(|k| k.0 == targets[i]).collect();
        if k.len() + m.len() != 1 { rep.fail("eval-count", format!("{} gives {} known and {} remaining constraints", desc(i), k.len(), m.len()), desc(i)); return }
        match want {
            V::U => match m.get(0) {
                Some((_, c)) => if val(&c.inner.constraint, &env).map(|v| v != V::U) == Some(true) { rep.fail("eval-unknown", format!("{} with no determined value became {:?}", desc(i), c.inner.constraint), desc(i)); return }
                None => { rep.fail("eval-unknown", format!("{} has no determined value but was replaced by one: {:?}", desc(i), k[0].inner.1.val), desc(i)); return }
            },
            v => match k.get(0) {
                Some(k) => { let got = match &k.inner.1.val { KnownType::Integer(i) => V::I(i.clone()), KnownType::Bool(b) => V::B(*b), KnownType::String(s) => V::S(s.clone()), _ => V::U };
                    if got != *v { rep.fail("eval", format!("{} evaluates to {:?}, exact value {:?}", desc(i), got, v), desc(i)); return } }
                None => { rep.fail("eval", format!("{} not evaluated, exact value {:?}", desc(i), v), desc(i)); return }
            },
        }
    }
}

// ---------------------------------------------------------------- end to end
/// (text, value); vars are generic names with values
fn gtext(r: &mut Rng, d: usize, vars: &[(String, BigInt)], kind: u64) -> Option<(String, V)> {
    if d == 0 {
        if kind == 1 { let b = r.chance(1, 2); return Some((b.to_string(), V::B(b))) }
        if !vars.is_empty() && r.chance(1, 2) { let v = r.pick(vars); return Some((v.0.clone(), V::I(v.1.clone()))) }
        let n: BigInt = if r.chance(1, 4) { BigInt::one() << r.us(9) } else { r.below(20).into() };
        return Some((n.to_string(), V::I(n)));
    }
    let b = |r: &mut Rng, k: u64| { let dd = r.us(d); gtext(r, dd, vars, k) };
    if kind == 1 {
        let op = r.below(10);
        if op < 6 {
            let (x, V::I(a)) = b(r, 0)? else { return None }; let (y, V::I(c)) = b(r, 0)? else { return None };
            let (s, v) = [("==", a == c), ("!=", a != c), ("<", a < c), (">", a > c), ("<=", a <= c), (">=", a >= c)][op as usize];
            return Some((format!("({x} {s} {y})"), V::B(v)));
        }
        let (x, V::B(a)) = b(r, 1)? else { return None };
        if op == 6 { return Some((format!("(!{x})"), V::B(!a))) }
        let (y, V::B(c)) = b(r, 1)? else { return None };
        let (s, v) = [("&&", a && c), ("||", a || c), ("^^", a != c)][(op - 7) as usize];
        return Some((format!("({x} {s} {y})"), V::B(v)));
    }
    let (x, V::I(a)) = b(r, 0)? else { return None };
    Some(match r.below(9) {
        0 => (format!("(-{x})"), V::I(-a)),
        1 => (format!("int::bits_for({x})"), V::I(ibits(&a).into())),
        2 => { if a.is_negative() { return None } (format!("uint::bits_for({x})"), V::I(ubits(&a)?.into())) }
        op => {
            let (y, V::I(c)) = b(r, 0)? else { return None };
            match op {
                3 | 4 => (format!("({x} + {y})"), V::I(a + c)), 5 => (format!("({x} - {y})"), V::I(a - c)), 6 => (format!("({x} * {y})"), V::I(a * c)),
                7 => { if c.is_zero() { return None } (format!("({x} / {y})"), V::I(tdiv(&a, &c))) }
                _ => { if c.is_zero() { return None } let q = tdiv(&a, &c); (format!("({x} % {y})"), V::I(&a - &c * q)) }
            }
        }
    })
}
fn e2e(rep: &mut Rep, r: &mut Rng) {
    // unit per line: accepted iff the width equals the expression
    let mut src = vec![]; let mut exp: Vec<Option<(bool, String)>> = vec![];
    let push = |src: &mut Vec<String>, exp: &mut Vec<Option<(bool, String)>>, s: String, e: Option<(bool, String)>| { src.push(s); exp.push(e) };
    let mut k = 0; let mut sel: Vec<(String, String, bool)> = vec![];
    while k < 60 {
        let dep = 1 + r.us(4);
        let n = r.below(12) + 1; let m = BigInt::from(r.below(9));
        let vars = vec![("N".to_string(), BigInt::from(n)), ("M".to_string(), m.clone())];
        match r.below(4) {
            0 | 1 => { // literal expression against a width
                let Some((t, V::I(v))) = gtext(r, dep, &[], 0) else { continue };
                let Some(v) = v.to_u64() else { continue }; if v == 0 || v > 300 { continue }
                let off = [0i64, 0, 0, 1, -1, 2][r.us(6)]; let w = v as i64 + off; if w <= 0 { continue }
                push(&mut src, &mut exp, format!("fn f{k}(x: uint<{{{t}}}>) -> uint<{w}> {{ x }}"), Some((w == v as i64, format!("{t} = {v}"))));
            }
            2 => { // generic, instantiated at known values
                let Some((t, V::I(v))) = gtext(r, dep, &vars, 0) else { continue };
                let Some(v) = v.to_u64() else { continue }; if v == 0 || v > 300 { continue }
                let off = [0i64, 0, 1, -1][r.us(4)]; let w = v as i64 + off; if w <= 0 { continue }
                push(&mut src, &mut exp, format!("extern fn g{k}<#uint N, #uint M>(n: uint<N>) -> uint<{{{t}}}>;"), None);
                push(&mut src, &mut exp, format!("fn f{k}(n: uint<{n}>) -> uint<{w}> {{ g{k}::<{n}, {m}>(n) }}"), Some((w == v as i64, format!("{t} = {v} with N={n}, M={m}"))));
            }
            _ => { // boolean in gen if: selects the branch
                let Some((t, V::B(v))) = gtext(r, dep, &[], 1) else { continue };
                sel.push((format!("fn h{k}(a: uint<7>, b: uint<7>) -> uint<7> {{ gen if {t} {{ a }} else {{ b }} }} fn s{k}(a: uint<7>, b: uint<7>) -> uint<7> {{ h{k}(a, b) }}"), format!("s{k}"), v));
            }
        }
        k += 1;
    }
    let text = src.join("\n");
    let c = compile(&text);
    if let Some(p) = c.panicked { rep.fail("e2e-panic", format!("compiler panic {p}"), text); return }
    let el = error_lines(&c.diags);
    for (i, e) in exp.iter().enumerate() {
        let Some((good, d)) = e else { continue };
        rep.case(&src[i], true);
        let bad = el.iter().find(|(l, _)| *l == i + 1);
        match (good, bad) {
            (true, Some((_, m))) => rep.fail("e2e", format!("`{}` is rejected ({m}) although {d}", src[i]), src[i.saturating_sub(1)..=i].join("\n")),
            (false, None) => rep.fail("e2e", format!("`{}` is accepted although {d}", src[i]), src[i.saturating_sub(1)..=i].join("\n")),
            _ => rep.note(if *good { "accepted" } else { "rejected" }),
        }
    }
    selection(rep, &sel);
}
fn selection(rep: &mut Rep, sel: &[(String, String, bool)]) {
    let text = sel.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join("\n");
    let c = compile(&text);
    if let Some(p) = c.panicked { rep.fail("e2e-panic", format!("compiler panic {p}"), text); return }
    if let Some((l, m)) = error_lines(&c.diags).first() { rep.fail("e2e", format!("`{}` is rejected ({m})", sel[*l - 1].0), sel[*l - 1].0.clone()); return }
    for (s, name, v) in sel {
        let Some(m) = c.mir.iter().find(|m| m.name.as_verilog().trim().ends_with(&format!("::{name}"))) else { rep.note("no-entity"); continue };
        // follow the output to one of the inputs
        let mut o = m.output.inner.clone();
        for _ in 0..20 { for st in &m.statements { if let spade_mir::Statement::Binding(b) = &st.inner { if b.name.inner == o && b.operator == spade_mir::Operator::Alias { o = b.operands[0].inner.clone() } } } }
        let i = m.inputs.iter().position(|i| i.val_name.inner == o);
        rep.case(s, true);
        match i { Some(i) if i == if *v { 0 } else { 1 } => rep.note("selected"), Some(_) => rep.fail("e2e-select", format!("`{s}` takes the wrong branch: the condition is {v}"), s.clone()), None => rep.note("unresolved") }
    }
}
/// an expression without a value (division by zero) must be reported, never accepted, never a crash
fn undefined(rep: &mut Rep) {
    for (i, s) in ["fn f(x: uint<{8 / 0}>) -> uint<8> { x }", "fn f() -> uint<8> { let x: uint<{8 % (2 - 2)}> = 5u8; x }", "fn g<#uint N, #uint M>(x: uint<N>) -> uint<{1 + N / M}> { trunc(x) } fn f(x: uint<8>) -> uint<8> { g::<8, 0>(x) }"].iter().enumerate() {
        rep.case(s, true);
        let c = compile(s);
        if let Some(p) = c.panicked { rep.fail("undef-panic", format!("compiler panic on `{s}`: {p}"), s.to_string()) }
        else if error_lines(&c.diags).is_empty() { rep.fail("undef-accepted", format!("accepted (case {i}): `{s}`"), s.to_string()) }
    }
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "random type-level expressions (depth <= 5; integers of both signs up to ~2^130, powers of two and neighbours, booleans, strings, known and unknown variables) evaluated by the constraint solver against an independent exact evaluator; plus Spade units whose declared width must equal a type expression, accepted exactly when it does; non-trivial: more than a literal".into();
    let mut r = Rng::new(seed);
    for _ in 0..300 { api(rep, &mut r) }
    undefined(rep);
    let mut n = 0;
    while rep.time_left() { e2e(rep, &mut r); for _ in 0..200 { api(rep, &mut r) } n += 1; if n > 10000 { break } }
}
