//! C08: texts of dumped values against an independent printer that reads the bits the layout assigns to each
//! part; on random concrete types and bit strings, and on the values compiled units put on their outputs.
use crate::prog::*;
use crate::util::*;
use crate::vlog::{Bv, Sim};
use num::{BigInt, One, Zero};
use rustc_hash::FxHashMap;
use spade_common::name::{Identifier, NameID, Path};
use spade_simulation_ext::{BitString, Spade};
use spade_types::{ConcreteType as C, PrimitiveType as Pr};

/// types a dump may contain
#[derive(Clone, Debug)]
enum D { U(usize), I(usize), B, Tri, Clk, T(Vec<D>), A(Box<D>, usize), S(Vec<(String, D)>), E(Vec<Vec<D>>), View(Box<D>), Inout(Box<D>), Inv(Box<D>) }
fn w(d: &D) -> usize {
    match d {
        D::U(n) | D::I(n) => *n, D::B | D::Tri | D::Clk => 1, D::T(v) => v.iter().map(w).sum(), D::A(t, n) => n * w(t), D::S(v) => v.iter().map(|x| w(&x.1)).sum(),
        D::E(v) => tagw(v.len()) + v.iter().map(|x| x.iter().map(w).sum::<usize>()).max().unwrap_or(0), D::View(t) | D::Inout(t) => w(t), D::Inv(_) => 0,
    }
}
/// the text of bits (most significant first) of exactly the width of the type; `rev`: arrays from the last
/// element to the first (known finding `array-order`)
fn text(d: &D, s: &[char], rev: bool) -> String {
    if s.is_empty() { return String::new() }
    let num = |signed: bool| {
        if s.contains(&'x') { return "UNDEF".to_string() }
        if s.contains(&'z') { return "HIGHIMP".to_string() }
        let mut v = BigInt::zero();
        for (i, c) in s.iter().rev().enumerate() { if *c == '1' { let p = BigInt::one() << i; if signed && i == s.len() - 1 { v -= p } else { v += p } } }
        v.to_string()
    };
    let seq = |ts: &mut dyn Iterator<Item = (String, &D)>, mut at: usize| { let mut o = vec![]; for (l, t) in ts { o.push(format!("{l}{}", text(t, &s[at..at + w(t)], rev))); at += w(t); } o.join(",") };
    match d {
        D::U(_) => num(false), D::I(_) => num(true),
        D::B | D::Tri | D::Clk => match s[0] { '0' => "false", '1' => "true", 'x' => "UNDEF", _ => "HIGHIMP" }.into(),
        D::T(v) => format!("({})", seq(&mut v.iter().map(|t| (String::new(), t)), 0)),
        D::S(v) => format!("{{{}}}", seq(&mut v.iter().map(|(n, t)| (format!("{n}:"), t)), 0)),
        D::A(t, n) => { let k = w(t); let mut o: Vec<String> = (0..*n).map(|i| text(t, &s[(n - 1 - i) * k..(n - i) * k], rev)).collect(); if rev { o.reverse() } format!("[{}]", o.join(",")) }
        D::E(v) => {
            let tw = tagw(v.len());
            if let Some(c) = s[..tw].iter().find(|c| **c == 'x' || **c == 'z') { return if *c == 'x' { "UNDEF".into() } else { "HIGHIMP".into() } }
            let k = s[..tw].iter().fold(0, |a, c| 2 * a + (*c == '1') as usize);
            if k >= v.len() { return "?TAG?".into() }
            format!("V{k}({})", seq(&mut v[k].iter().map(|t| (String::new(), t)), tw))
        }
        D::View(t) | D::Inout(t) => text(t, s, rev),
        D::Inv(_) => String::new(),
    }
}
fn conc(d: &D) -> C {
    let id = |s: &str| Identifier::intern(s);
    let one = |b: Pr, p: Vec<C>| C::Single { base: b, params: p };
    match d {
        D::U(n) => one(Pr::Uint, vec![C::Integer(BigInt::from(*n))]), D::I(n) => one(Pr::Int, vec![C::Integer(BigInt::from(*n))]),
        D::B => one(Pr::Bool, vec![]), D::Tri => one(Pr::Tri, vec![]), D::Clk => one(Pr::Clock, vec![]),
        D::T(v) => C::Tuple(v.iter().map(conc).collect()),
        D::A(t, n) => C::Array { inner: Box::new(conc(t)), size: BigInt::from(*n) },
        D::S(v) => C::Struct { name: NameID(1, Path::from_strs(&["S"])), members: v.iter().map(|(n, t)| (id(n), conc(t))).collect(), field_translators: FxHashMap::default() },
        D::E(v) => C::Enum { options: v.iter().enumerate().map(|(i, x)| (NameID(10 + i as u64, Path::from_strs(&["E", &format!("V{i}")])), x.iter().enumerate().map(|(j, t)| (id(&format!("f{j}")), conc(t))).collect())).collect() },
        D::View(t) => C::CopyView(Box::new(conc(t))), D::Inout(t) => one(Pr::InOut, vec![conc(t)]), D::Inv(t) => C::Backward(Box::new(conc(t))),
    }
}
fn rand(r: &mut Rng, d: usize) -> D {
    let num = |r: &mut Rng| match r.below(8) { 0 => 1, 1 => 63 + r.us(4), 2 => 126 + r.us(6), 3 => 2, 4 => 190 + r.us(10), _ => 1 + r.us(12) };
    if d == 0 || r.chance(1, 4) { return match r.below(12) { 0 | 1 => D::B, 2 => D::Tri, 3 => D::Clk, 4..=7 => D::U(num(r)), 8 => D::U(0), _ => D::I(num(r)) } }
    let n = r.us(4);
    match r.below(10) {
        0..=1 => D::T((0..n).map(|_| rand(r, d - 1)).collect()),
        2..=3 => D::S((0..n).map(|i| (["a", "val", "x_1", "inner"][i].to_string(), rand(r, d - 1))).collect()),
        4..=5 => D::A(Box::new(rand(r, d - 1)), 1 + r.us(5)),
        6..=7 => { let k = match r.below(6) { 0 => 1, 1 => 2, 2 => 4 + r.us(2), 3 => 8 + r.us(2), _ => 1 + r.us(5) }; D::E((0..k).map(|_| (0..r.us(4)).map(|_| rand(r, d - 1)).collect()).collect()) }
        8 => { let x = Box::new(rand(r, d - 1)); if r.chance(1, 2) { D::View(x) } else { D::Inout(x) } }
        _ => { let x = Box::new(rand(r, d - 1)); if r.chance(1, 2) { D::Inv(x) } else { D::View(x) } }
    }
}
/// bits for the type: mostly defined, valid tags most of the time
fn bits(r: &mut Rng, n: usize) -> Vec<char> {
    let m = r.below(8);
    (0..n).map(|_| match m { 0 => '0', 1 => '1', 2 => *r.pick(&['0', '1', 'x', 'z']), 3 if r.chance(1, 12) => 'x', 4 if r.chance(1, 12) => 'z', _ => *r.pick(&['0', '1']) }).collect()
}
/// as dump files abbreviate: leading digits the reader adds again are dropped
fn shorten(r: &mut Rng, s: &[char]) -> Vec<char> {
    let mut k = 0;
    while s.len() - k > 1 { let (a, b) = (s[k], s[k + 1]); if (a == '0' && (b == '0' || b == '1')) || (a == b && a != '1') { k += 1 } else { break } }
    if r.chance(1, 3) && k > 0 { k = r.us(k + 1) }
    s[k..].to_vec()
}
fn extend(s: &[char], n: usize) -> Vec<char> {
    let l = match s[0] { 'x' => 'x', 'z' => 'z', _ => '0' };
    let mut v = vec![l; n - s.len()]; v.extend_from_slice(s); v
}
fn compare(rep: &mut Rep, got: Result<String, String>, full: &[char], d: &D, input: String) -> bool {
    match got {
        Err(e) => { rep.fail("panic", format!("panic translating a value: {e}"), input); false }
        Ok(got) => {
            let want = text(d, full, false);
            rep.case(&input, want.len() > 2);
            if got == want { return true }
            if got == text(d, full, true) { rep.note("array elements listed last to first"); if !rep.failures.iter().any(|f| f.0 == "array-order") { rep.fail("array-order", format!("array elements are listed from the last to the first: {got} for {want}"), input) } return true }
            rep.fail("text", format!("the bits {} translate to `{got}`, expected `{want}`", full.iter().collect::<String>()), input);
            false
        }
    }
}
fn ty_of(p: &Prog, t: &Ty) -> D {
    match t {
        Ty::U(n) => D::U(*n), Ty::I(n) => D::I(*n), Ty::B => D::B, Ty::T(v) => D::T(v.iter().map(|t| ty_of(p, t)).collect()), Ty::A(t, n) => D::A(Box::new(ty_of(p, t)), *n),
        Ty::S(i) => D::S(p.structs[*i].iter().map(|(n, t)| (n.clone(), ty_of(p, t))).collect()), Ty::E(i) => D::E(p.enums[*i].iter().map(|v| v.iter().map(|x| ty_of(p, &x.1)).collect()).collect()),
    }
}
/// a value written in Spade, computed by the generated hardware and shown again
fn end_to_end(rep: &mut Rep, r: &mut Rng) {
    let mut g = Gen::new(r, Cfg { depth: 1, ops: false, agg: true, max_w: 12, div: false, array_fns: false });
    g.defs();
    let ts: Vec<Ty> = (0..3).map(|_| g.small_ty(2)).collect();
    let p = g.p;
    let t = Ty::T(ts.clone());
    let vals: Vec<Val> = ts.iter().map(|t| p.rand_val(r, t)).collect();
    if p.width(&t) == 0 { return }
    let mut src = p.defs_text();
    src.push(format!("entity dut(a: {}) -> {} {{ ({}, a, {}) }}", p.ty(&ts[1]), p.ty(&t), p.lit(&vals[0], &ts[0]), p.lit(&vals[2], &ts[2])));
    let src = src.join("\n");
    rep.cur(&src);
    let (c, st) = compile_state(&src);
    let Some(st) = st else { rep.note("not compiled"); return };
    let s = guard(|| Spade::new("t::dut".into(), st.to_string_lossy().into()));
    let _ = std::fs::remove_file(&st);
    let Ok(Ok(mut s)) = s else { rep.note("not loaded"); return };
    let Ok(mods) = crate::vlog::parse(&c.verilog) else { rep.note("unreadable Verilog"); return };
    let Some(m) = module(&mods, "dut") else { return };
    let Ok(mut sim) = Sim::new(&mods, &m.name) else { rep.note("unreadable Verilog"); return };
    if p.width(&ts[1]) > 0 { let b = p.encode(&ts[1], &vals[1]); let b = fill_x(r, b); if sim.set("a_i", b).is_err() { rep.note("no port"); return } }
    if sim.settle().is_err() { return }
    let Ok(out) = sim.get("output__") else { return };
    let want = p.encode(&t, &Val::L(vals));
    if !want.refines(&out) { rep.note("hardware differs (C04)"); return }
    let bs = out.str();
    let got = guard(|| { let f = s.output_as_field_ref().map_err(|e| format!("{e:?}"))?.ok_or("no output")?; s.field_value(f, &BitString(bs.clone())).map_err(|e| format!("{e:?}")) });
    let got = match got { Ok(Ok(g)) => Ok(g), Ok(Err(e)) | Err(e) => Err(e) };
    let full: Vec<char> = bs.chars().collect();
    compare(rep, got, &full, &ty_of(&p, &t), format!("{src}\n// output__ = {bs}"));
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "a bit string translated as a value of a type".into();
    let mut r = Rng::new(seed);
    let mut n = 0;
    while rep.time_left() {
        n += 1;
        if n % 400 == 0 { end_to_end(rep, &mut r); continue }
        let deep = 1 + r.us(3);
        let d = rand(&mut r, deep);
        let ty = conc(&d);
        let len = w(&d);
        if len == 0 || len > 3000 { continue }
        for _ in 0..4 {
            let full = bits(&mut r, len);
            let short = shorten(&mut r, &full);
            let s: String = if r.chance(1, 4) { short.iter().collect::<String>().to_uppercase() } else { short.iter().collect() };
            if extend(&short, len) != full { rep.fail("oracle", "shorten/extend".into(), s); return }
            let input = format!("{s} as {d:?}");
            rep.cur(&input);
            let got = guard(|| vcd_translate::translation::translate_value(&ty, &vcd_translate::translation::value_from_str(&s)));
            if !compare(rep, got, &full, &d, input) { break }
            // any shorter string
            let k = 1 + r.us(len);
            let part = bits(&mut r, k);
            let full = extend(&part, len);
            let s: String = part.iter().collect();
            let input = format!("{s} as {d:?}");
            let got = guard(|| vcd_translate::translation::translate_value(&ty, &vcd_translate::translation::value_from_str(&s)));
            if !compare(rep, got, &full, &d, input) { break }
        }
        // longer than the type: nothing to show
        let k = len + 1 + r.us(4);
        let s: String = bits(&mut r, k).iter().collect();
        let input = format!("{s} as {d:?} (too long)");
        match guard(|| vcd_translate::translation::translate_value(&ty, &vcd_translate::translation::value_from_str(&s))) {
            Ok(t) if t.is_empty() => {}
            Ok(t) => rep.fail("too-long", format!("translated to `{t}`"), input),
            Err(e) => rep.fail("panic", format!("panic translating a value longer than its type: {e}"), input),
        }
    }
}
