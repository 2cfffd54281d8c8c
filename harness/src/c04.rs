//! C04: compile-time values against the bits of the mathematical result: Value's textual and numeric
//! forms, evaluation of random MIR constant statements, and register / memory initial contents of whole programs.
use crate::mirb::*;
use crate::prog::*;
use crate::util::*;
use crate::vlog::{Bv, Sim};
use num::{BigInt, BigUint, One, Zero};
use spade_mir::eval::{eval_statements, Value};
use spade_mir::types::Type;
use spade_mir::{ConstantValue, Operator, Statement};

fn big(r: &mut Rng, w: usize) -> BigInt { // any number of w bits, unsigned
    if w == 0 { return BigInt::zero() }
    let m = BigInt::one() << w;
    let x = match r.below(7) { 0 => BigInt::zero(), 1 => m.clone() - 1, 2 => BigInt::one() << (w - 1), 3 => (BigInt::one() << (w - 1)) - 1, 4 => BigInt::one(), _ => { let mut x = BigInt::zero(); for _ in 0..(w / 60 + 1) { x = (x << 60) + BigInt::from(r.next() >> 4) } x } };
    ((x % &m) + &m) % &m
}
fn signed(x: BigInt, w: usize) -> BigInt { if w > 0 && x >= (BigInt::one() << (w - 1)) { x - (BigInt::one() << w) } else if w == 0 { BigInt::zero() } else { x } }
fn width(r: &mut Rng, max: usize) -> usize { let w = match r.below(10) { 0 => 0, 1 => 1, 2 => 63, 3 => 64, 4 => 65, 5 => 66 + r.us(120), _ => 1 + r.us(20) }; w.min(max) }
/// a value that occupies at most `max` bits, with its bits
fn value(r: &mut Rng, d: usize, max: usize) -> (Value, Bv) {
    match r.below(if d == 0 { 4 } else { 7 }) {
        0 if max > 0 => { let b = r.chance(1, 2); (Value::Bit(b), Bv(vec![b as u8])) }
        0 | 1 => { let w = width(r, max); let x = signed(big(r, w), w); let b = Bv::from_i(&x, w); (Value::Int { size: u(w), val: x }, b) }
        2 => { let w = width(r, max); let x = big(r, w); let b = Bv::from_i(&x, w); (Value::UInt { size: u(w), val: x.to_biguint().unwrap() }, b) }
        3 => { let w = width(r, max.min(30)); (Value::Undef(u(w)), Bv::xs(w)) }
        _ => { let mut left = max; let mut vs = vec![]; let mut bs = vec![]; for _ in 0..r.us(5) { let (v, b) = value(r, d - 1, left); left -= b.w(); vs.push(v); bs.push(b) } (Value::Concat(vs), Bv::concat_msb(&bs)) }
    }
}
fn text(b: &Bv) -> String { b.str().replace('x', "X") }
fn num(b: &Bv) -> BigUint { Bv(b.0.iter().map(|x| (*x == 1) as u8).collect()).to_u().unwrap() } // undefined bits count as 0
fn values(rep: &mut Rep, v: &Value, b: &Bv) {
    let d = format!("{v:?}");
    rep.case(&d, b.w() > 1);
    let mut f = |key: &str, want: String, got: Result<String, String>| match got { Ok(g) if g == want => {} Ok(g) => rep.fail(key, format!("{key} gives {g} instead of {want}"), d.clone()), Err(p) => rep.fail(key, format!("{key} panics instead of giving {want}: {p}"), d.clone()) };
    f("as_string", text(b), guard(|| v.as_string()));
    f("width", b.w().to_string(), guard(|| v.width().to_string()));
    f("as_u32_chunks", num(b).to_string(), guard(|| v.as_u32_chunks().to_string()));
    if b.w() <= 64 { f("as_u64", num(b).to_string(), guard(|| v.as_u64().to_string())) }
}

/// oracle value of a statement: number, or bits
#[derive(Clone)]
enum M { N(BigInt), P(Bv) }
fn layout(t: &Type, m: &M) -> Bv { match m { M::N(n) => Bv::from_i(n, fb(t).0), M::P(b) => b.clone() } }
fn statements(r: &mut Rng) -> (Vec<spade_common::location_info::Loc<Statement>>, Bv) {
    let mut st = vec![]; let mut vals: Vec<(Type, M)> = vec![];
    let k = 1 + r.us(9);
    for i in 0..k {
        let nm = |j: usize| if j % 3 == 1 { n(j as u64, "x") } else { e(j as u64) };
        let me = nm(i);
        let nums = |s: bool, vals: &Vec<(Type, M)>| (0..vals.len()).filter(|j| match &vals[*j].0 { Type::Int(_) => s, Type::UInt(_) => !s, _ => false }).collect::<Vec<_>>();
        let choice = if vals.is_empty() { 0 } else { r.below(12) };
        let num = |j: usize, vals: &Vec<(Type, M)>| match &vals[j].1 { M::N(x) => x.clone(), _ => panic!() };
        let tw = |j: usize, vals: &Vec<(Type, M)>| fb(&vals[j].0).0;
        let mut pick = |r: &mut Rng, c: &[usize]| c[r.us(c.len())];
        let (stmt, ty, val) = match choice {
            3 | 4 => { // + and -
                let s = r.chance(1, 2); let c = nums(s, &vals);
                if c.is_empty() { let w = 1 + width(r, 200); let x = big(r, w); let x = if s { signed(x, w) } else { x }; let t = if s { Type::Int(u(w)) } else { Type::UInt(u(w)) }; (konst(me, t.clone(), ConstantValue::Int(x.clone())), t, M::N(x)) }
                else {
                    let (a, b) = (pick(r, &c), pick(r, &c));
                    let w = tw(a, &vals).max(tw(b, &vals)) + 1; let t = if s { Type::Int(u(w)) } else { Type::UInt(u(w)) };
                    let add = choice == 3;
                    let x = if add { num(a, &vals) + num(b, &vals) } else { num(a, &vals) - num(b, &vals) };
                    let x = if s { x } else { let m = BigInt::one() << w; ((x % &m) + &m) % &m };
                    let o = match (add, s) { (true, true) => Operator::Add, (true, false) => Operator::UnsignedAdd, (false, true) => Operator::Sub, _ => Operator::UnsignedSub };
                    (bind(me, t.clone(), o, vec![nm(a), nm(b)]), t, M::N(x))
                }
            }
            5 if !nums(true, &vals).is_empty() => { let c = nums(true, &vals); let a = pick(r, &c); let w = tw(a, &vals) + r.us(2); let t = Type::Int(u(w)); let x = -num(a, &vals); let x = if w > 0 && x == BigInt::one() << (w - 1) { -x } else { x }; (bind(me, t.clone(), Operator::USub, vec![nm(a)]), t, M::N(x)) }
            6 | 7 => { let c: Vec<usize> = (0..r.us(4)).map(|_| r.us(vals.len())).collect(); let t = Type::Tuple(c.iter().map(|j| vals[*j].0.clone()).collect()); let b = Bv::concat_msb(&c.iter().map(|j| layout(&vals[*j].0, &vals[*j].1)).collect::<Vec<_>>()); (bind(me, t.clone(), Operator::ConstructTuple, c.iter().map(|j| nm(*j)).collect()), t, M::P(b)) }
            8 => { // elements of one type
                let a = r.us(vals.len()); let c: Vec<usize> = (0..vals.len()).filter(|j| vals[*j].0 == vals[a].0).collect(); let l = 1 + r.us(4); let c: Vec<usize> = (0..l).map(|_| pick(r, &c)).collect();
                let t = Type::Array { inner: Box::new(vals[a].0.clone()), length: u(l) };
                let b = Bv::concat_msb(&c.iter().rev().map(|j| layout(&vals[*j].0, &vals[*j].1)).collect::<Vec<_>>()); (bind(me, t.clone(), Operator::ConstructArray, c.iter().map(|j| nm(*j)).collect()), t, M::P(b)) }
            9 | 10 => {
                let c: Vec<usize> = (0..r.us(4)).map(|_| r.us(vals.len())).collect(); let big = r.chance(1, 5); let nv = 1 + r.us(if big { 20 } else { 4 }); let variant = r.us(nv);
                let opts: Vec<Vec<Type>> = (0..nv).map(|k| if k == variant { c.iter().map(|j| vals[*j].0.clone()).collect() } else { (0..r.us(3)).map(|_| if r.chance(1, 2) { vals[r.us(vals.len())].0.clone() } else { Type::UInt(u(1 + r.us(12))) }).collect() }).collect();
                let t = Type::Enum(opts); let w = fb(&t).0;
                let mut parts = vec![Bv::from_i(&BigInt::from(variant), tagw(nv))]; parts.extend(c.iter().map(|j| layout(&vals[*j].0, &vals[*j].1)));
                let used: usize = parts.iter().map(|p| p.w()).sum(); parts.push(Bv::xs(w - used));
                (bind(me, t.clone(), Operator::ConstructEnum { variant }, c.iter().map(|j| nm(*j)).collect()), t, M::P(Bv::concat_msb(&parts)))
            }
            11 => { let a = r.us(vals.len()); (bind(me, vals[a].0.clone(), if r.chance(1, 2) { Operator::Alias } else { Operator::BlackBoxAlias }, vec![nm(a)]), vals[a].0.clone(), vals[a].1.clone()) }
            c => if c == 2 || c == 5 { let b = r.chance(1, 2); (konst(me, Type::Bool, ConstantValue::Bool(b)), Type::Bool, M::P(Bv(vec![b as u8]))) }
                else { let w = width(r, 200).max(if r.chance(1, 5) { 0 } else { 1 }); let s = r.chance(1, 2); let x = big(r, w); let x = if s { signed(x, w) } else { x }; let t = if s { Type::Int(u(w)) } else { Type::UInt(u(w)) }; (konst(me, t.clone(), ConstantValue::Int(x.clone())), t, M::N(x)) }
        };
        st.push(stmt); vals.push((ty, val));
        if fb(&vals.last().unwrap().0).0 > 2000 { break }
    }
    let (t, m) = vals.last().unwrap();
    (st, layout(t, m))
}

/// a constant expression of type t (numbers: also sums, differences and negations)
fn cexpr(g: &mut Gen, t: &Ty, d: usize) -> Ex {
    let bx = |g: &mut Gen, t: &Ty| Box::new(cexpr(g, t, d.saturating_sub(1)));
    if d == 0 { return atom(g, t) }
    match t {
        Ty::I(w) if g.r.chance(1, 5) => if g.r.chance(1, 3) { Ex::Un("-", Box::new(Ex::Lit(Val::N(-(BigInt::one() << (w - 1))), t.clone())), t.clone()) } else { Ex::Un("-", bx(g, t), t.clone()) },
        Ty::U(w) | Ty::I(w) if *w >= 2 && g.r.chance(1, 2) => {
            let s = of_w(t, w - 1);
            let o = if g.r.chance(1, 2) { "+" } else { "-" };
            Ex::Bin(o, bx(g, &s), bx(g, &s), s, t.clone())
        }
        Ty::T(v) => Ex::Tup(v.iter().map(|t| cexpr(g, t, d - 1)).collect()),
        Ty::A(e, k) if g.r.chance(1, 4) => Ex::ArrRep(bx(g, e), *k),
        Ty::A(e, k) => Ex::Arr((0..*k).map(|_| cexpr(g, e, d - 1)).collect()),
        Ty::S(i) => { let f = g.p.fields(t); let named = g.r.us(3) as u8; Ex::Struct(*i, f.iter().map(|t| cexpr(g, t, d - 1)).collect(), named) }
        Ty::E(i) => { let k = g.r.us(g.p.enums[*i].len()); let f = g.p.enums[*i][k].clone(); let named = g.r.us(3) as u8; Ex::Enum(*i, k, f.iter().map(|f| cexpr(g, &f.1, d - 1)).collect(), named) }
        t => atom(g, t),
    }
}
fn atom(g: &mut Gen, t: &Ty) -> Ex { g.lit(t) }

fn programs(rep: &mut Rep, r: &mut Rng) {
    let cfg = Cfg { depth: 3, ops: true, agg: true, max_w: 72, div: false, array_fns: false };
    let mut g = Gen::new(r, cfg);
    g.defs();
    let mut units = vec![];
    let mut body = String::new();
    for k in 0..8 {
        let t = if k < 3 { g.num_ty() } else { g.any_ty(2) };
        let x = cexpr(&mut g, &t, 3);
        let Some(v) = g.p.eval(&x, &Default::default()) else { continue };
        let (ts, xs) = (g.p.ty(&t), g.p.text(&x));
        let s = format!("entity e{k}(clk: clock) -> {ts} {{ reg(clk) x: {ts} initial({xs}) = x; x }}\nentity f{k}() -> {ts} {{ let x: {ts} = {xs}; x }}\n");
        body += &s; units.push((format!("e{k}"), t.clone(), vec![v.clone()], s.clone())); units.push((format!("f{k}"), t.clone(), vec![v], s));
        if k % 2 == 0 && g.p.width(&t) > 0 { // memory
            let n = [2usize, 3, 4, 8][g.r.us(4)]; let aw = idx_w(n);
            let xs: Vec<Ex> = (0..n).map(|_| cexpr(&mut g, &t, 2)).collect();
            let vs: Option<Vec<Val>> = xs.iter().map(|x| g.p.eval(x, &Default::default())).collect();
            let Some(vs) = vs else { continue };
            let l = xs.iter().map(|x| g.p.text(x)).collect::<Vec<_>>().join(", ");
            let s = format!("entity m{k}(clk: clock, i: uint<{aw}>, v: {ts}) -> {ts} {{ let mem = inst std::mem::clocked_memory_init(clk, [(false, i, v)], [{l}]); inst std::mem::read_memory(mem, i) }}\n");
            body += &s; units.push((format!("m{k}"), t, vs, s));
        }
    }
    let p = g.p;
    let defs = p.defs_text().join("\n");
    let src = format!("use std::mem::clocked_memory_init; use std::mem::read_memory;\n{defs}\n{body}");
    rep.cur(&src);
    let c = compile(&src);
    if let Some(e) = &c.panicked { return rep.fail("panic", format!("the compiler panics on valid constants: {e}"), src) }
    if !c.ok { return rep.fail("rejected", format!("a valid constant is rejected: {}", c.diags.find("error").map(|i| c.diags[i..].chars().take(700).collect::<String>()).unwrap_or_default()), src) }
    let mods = match crate::vlog::parse(&c.verilog) { Ok(m) => m, Err(e) => return rep.fail("text", format!("generated Verilog cannot be parsed: {e}"), src) };
    for (name, t, vs, unit) in units {
        let Some(m) = module(&mods, &name) else { rep.note("no-module"); continue };
        rep.case(&unit, true);
        let mut go = || -> Result<(), String> {
            let mut s = Sim::new(&mods, &m.name)?;
            if let Some(e) = s.errors.first() { return Err(format!("ill-formed: {e}")) }
            for (i, v) in vs.iter().enumerate() {
                if name.starts_with('m') { s.set("i_i", Bv::from_i(&BigInt::from(i), idx_w(vs.len())))? ; if p.width(&t) > 0 { s.set("v_i", r_bits(p.width(&t)))? } s.set("clk_i", Bv(vec![0]))? }
                s.settle()?;
                if p.width(&t) == 0 { continue }
                let want = p.encode(&t, v); let got = s.get("output__")?;
                if !want.refines(&got) { return Err(format!("{name}: element {i} is {} instead of {}", got.str(), want.str())) }
            }
            Ok(())
        };
        if let Err(e) = go() { rep.fail(if name.starts_with('m') { "memory" } else if name.starts_with('e') { "initial" } else { "ordinary" }, e, format!("{defs}\n{unit}")) }
    }
}
fn r_bits(w: usize) -> Bv { Bv((0..w).map(|i| (i % 3 == 0) as u8).collect()) }
const BAD: &[(&str, &str)] = &[
    ("an input", "entity e(clk: clock, v: uint<8>) -> uint<8> { reg(clk) x initial(v) = x; x }"),
    ("another register", "entity e(clk: clock, v: uint<8>) -> uint<8> { reg(clk) y = v; reg(clk) x initial(y) = x; x }"),
    ("a sum with an input", "entity e(clk: clock, v: uint<7>) -> uint<8> { reg(clk) x: uint<8> initial(v + 1u7) = x; x }"),
];
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "a value or constant of more than one bit".into();
    let mut r = Rng::new(seed);
    for (what, src) in BAD {
        rep.cur(src);
        let c = compile(src);
        if c.panicked.is_some() || c.ok { rep.fail("not-constant", format!("an initial value that depends on {what} is {}", if c.ok { "accepted" } else { "a panic" }), src.to_string()) }
    }
    while rep.time_left() {
        programs(rep, &mut r);
        for _ in 0..400 { let (d, m) = (r.us(4), if r.chance(1, 2) { 64 } else { 400 }); let (v, b) = value(&mut r, d, m); values(rep, &v, &b) }
        for _ in 0..200 {
            let (st, want) = statements(&mut r);
            let d = st.iter().map(|s| format!("{}", s.inner)).collect::<Vec<_>>().join("\n");
            rep.case(&d, st.len() > 1);
            match guard(|| eval_statements(&st)) {
                Err(p) => rep.fail("eval", format!("evaluation of a constant panics: {p}"), d),
                Ok(v) => { match guard(|| v.as_string()) { Ok(s) if s == text(&want) => {} Ok(s) => rep.fail("eval", format!("evaluates to {s} instead of {}", text(&want)), d.clone()), Err(p) => rep.fail("eval", format!("printing a constant panics: {p}"), d.clone()) }
                    if let Ok(g) = guard(|| v.as_u32_chunks()) { if g != num(&want) { rep.fail("eval-number", format!("the number is {g} instead of {}", num(&want)), d) } } }
            }
        }
    }
}
