//! C01: width oracle over random hardware types, against Type::size/backward_size and the widths
//! declared in generated Verilog.
use crate::mirb::*;
use crate::util::*;
use num::{BigUint, Zero};
use spade_mir::types::Type;
use spade_mir::Operator;

pub fn tag(n: usize) -> usize { let mut k = 0; while (1usize << k) < n { k += 1 } k }
pub fn w(t: &Type) -> BigUint {
    match t {
        Type::Int(n) | Type::UInt(n) => n.clone(),
        Type::Bool => 1u32.into(),
        Type::Tuple(v) => v.iter().fold(BigUint::zero(), |a, b| a + w(b)),
        Type::Struct(v) => v.iter().fold(BigUint::zero(), |a, b| a + w(&b.1)),
        Type::Array { inner, length } | Type::Memory { inner, length } => w(inner) * length,
        Type::Enum(v) => { let mut m = BigUint::zero(); for x in v { let s = x.iter().fold(BigUint::zero(), |a, b| a + w(b)); if s > m { m = s } } m + tag(v.len()) }
        Type::Backward(_) => BigUint::zero(),
        Type::CopyView(i) | Type::InOut(i) => w(i),
    }
}
pub fn bw(t: &Type) -> BigUint {
    match t {
        Type::Backward(i) => w(i),
        Type::Tuple(v) => v.iter().fold(BigUint::zero(), |a, b| a + bw(b)),
        Type::Struct(v) => v.iter().fold(BigUint::zero(), |a, b| a + bw(&b.1)),
        Type::Array { inner, length } => bw(inner) * length,
        _ => BigUint::zero(),
    }
}
pub fn gen_ty(r: &mut Rng, d: usize, back: bool) -> Type {
    let k = if d == 0 { r.below(4) } else { r.below(11) };
    match k {
        0 => Type::Int(int_w(r)),
        1 => Type::UInt(int_w(r)),
        2 => Type::Bool,
        3 => if back && r.chance(1, 2) { Type::Backward(Box::new(gen_ty(r, d.saturating_sub(1), false))) } else { Type::UInt(int_w(r)) },
        4 => Type::Tuple((0..r.us(5)).map(|_| gen_ty(r, d - 1, back)).collect()),
        5 => Type::Struct((0..r.us(5)).map(|i| (format!("f{i}"), gen_ty(r, d - 1, back))).collect()),
        6 => Type::Array { inner: Box::new(gen_ty(r, d - 1, back)), length: r.below(6).into() },
        7 | 8 => Type::Enum((0..variants(r)).map(|_| (0..r.us(3)).map(|_| gen_ty(r, (d - 1).min(1), false)).collect()).collect()),
        9 => Type::CopyView(Box::new(gen_ty(r, d - 1, back))),
        _ => if back { Type::Backward(Box::new(gen_ty(r, d - 1, false))) } else { Type::InOut(Box::new(gen_ty(r, d - 1, false))) },
    }
}
fn variants(r: &mut Rng) -> usize { match r.below(10) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 4, 5 => 5, 6 => 8, 7 => 9, 8 => 17, _ => r.us(70) } }
fn int_w(r: &mut Rng) -> BigUint { match r.below(8) { 0 => 0u32.into(), 1 => 1u32.into(), 2 => 64u32.into(), 3 => 65u32.into(), 4 => BigUint::from(1u32) << (r.below(70) as usize), _ => r.below(40).into() } }
fn has_inout(t: &Type) -> bool { match t { Type::InOut(_) => true, Type::Tuple(v) => v.iter().any(has_inout), Type::Struct(v) => v.iter().any(|x| has_inout(&x.1)), Type::Array { inner, .. } | Type::Memory { inner, .. } => has_inout(inner), Type::Enum(v) => v.iter().flatten().any(has_inout), Type::Backward(i) | Type::CopyView(i) => has_inout(i), _ => false } }

fn check(rep: &mut Rep, t: &Type) {
    let d = format!("{t}");
    rep.case(&d, !matches!(t, Type::Int(_) | Type::UInt(_) | Type::Bool));
    let (ew, eb) = (w(t), bw(t));
    match guard(|| t.size()) { Ok(g) if g == ew => {} Ok(g) => rep.fail("size", format!("forward width of {d} is {g}, its definition implies {ew}"), d.clone()), Err(p) => rep.fail("size-panic", format!("forward width of {d}: panic {p}"), d.clone()) }
    match guard(|| t.backward_size()) { Ok(g) if g == eb => {} Ok(g) => rep.fail("bsize", format!("backward width of {d} is {g}, its definition implies {eb}"), d.clone()), Err(p) => rep.fail("bsize-panic", format!("backward width of {d}: panic {p}"), d.clone()) }
}
/// widths declared in generated Verilog for an input, an internal wire, and an output of type t
fn check_ports(rep: &mut Rep, t: &Type) {
    let d = format!("ports of {t}");
    let (ew, eb) = (us(&w(t)), us(&bw(t)));
    if ew > 4000 || eb > 4000 || ew + eb == 0 { return }
    rep.case(&d, true);
    let ent = entity("m", vec![input("a", n(0, "a"), t.clone())], n(1, "b"), t.clone(), vec![bind(n(1, "b"), t.clone(), Operator::BlackBoxAlias, vec![n(0, "a")])]);
    let text = match guard(|| code(&ent)) { Ok(t) => t, Err(p) => { rep.fail("codegen-panic", format!("{d}: panic {p}"), d.clone()); return } };
    let m = match crate::vlog::parse(&text) { Ok(m) => m, Err(x) => { rep.fail("ports", format!("{d}: generated text does not parse: {x}"), text); return } };
    let port = |k: &str| m[0].ports.iter().find(|p| p.0 == k).map(|p| p.2).unwrap_or(0);
    let decl = |k: &str| m[0].decls.get(k).map(|p| p.w).unwrap_or(0);
    for (k, e) in [("a_i", ew), ("a_o", eb), ("output__", ew), ("input__", eb)] {
        if port(k) != e { rep.fail("ports", format!("{d}: port {k} declared {} bits wide, the type implies {e}", port(k)), text.clone()) }
    }
    for (k, e) in [("a", ew), ("a_mut", eb), ("b", ew), ("b_mut", eb)] {
        if decl(k) != e { rep.fail("ports", format!("{d}: wire {k} declared {} bits wide, the type implies {e}", decl(k)), text.clone()) }
    }
    if eb == 0 && ew > 0 {
        let ent = entity("m", vec![input("clk", n(0, "clk"), Type::Bool), input("a", n(0, "a"), t.clone())], n(1, "b"), t.clone(),
            vec![reg(n(1, "b"), t.clone(), n(0, "clk"), None, None, n(0, "a"))]);
        if let Ok(text) = guard(|| code(&ent)) {
            if let Ok(m) = crate::vlog::parse(&text) {
                let g = m[0].decls.get("b").map(|p| p.w).unwrap_or(0);
                if g != ew { rep.fail("ports", format!("register of {t} declared {g} bits wide, the type implies {ew}"), text.clone()) }
            }
        }
        if !matches!(t, Type::Memory{..}) {
            let len = 5usize;
            let mt = Type::Memory { inner: Box::new(t.clone()), length: u(len) };
            let ent = entity("m", vec![input("clk", n(0, "clk"), Type::Bool), input("p", n(0, "p"), Type::Array { inner: Box::new(Type::Tuple(vec![Type::Bool, Type::uint(3), t.clone()])), length: u(1) }), input("i", n(0, "i"), Type::uint(3))], n(2, "o"), t.clone(),
                vec![bind(n(1, "mem"), mt, Operator::DeclClockedMemory { initial: None }, vec![n(0, "clk"), n(0, "p")]), bind(n(2, "o"), t.clone(), Operator::IndexMemory, vec![n(1, "mem"), n(0, "i")])]);
            if let Ok(text) = guard(|| code(&ent)) {
                match crate::vlog::parse(&text) { Ok(m) => {
                    let g = m[0].decls.get("mem").map(|p| (p.w, p.mem)).unwrap_or((0, None));
                    if g != (ew, Some(len)) { rep.fail("ports", format!("memory of {len} x {t} declared as {g:?}, the type implies {ew} bits"), text.clone()) }
                } Err(x) => rep.fail("ports", format!("memory of {t}: {x}"), text) }
            }
        }
    }
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "random hardware types (depth <= 4, all constructors, widths 0..2^70, 0..70 variants) plus every enum variant count 0..=300; non-trivial: a composite type; widths compared with an independent recursive definition, both from the API and as declared for ports, wires, registers and memories in generated Verilog".into();
    let mut r = Rng::new(seed);
    for k in 0..=300usize {
        check(rep, &Type::Enum(vec![vec![]; k]));
        check(rep, &Type::Enum((0..k).map(|i| vec![Type::uint((i % 7) as u32); i % 3]).collect()));
    }
    for k in [1000usize, 4096, 4097, 65536, 65537] { check(rep, &Type::Enum(vec![vec![]; k])) }
    while rep.time_left() {
        for _ in 0..20 {
            let dep = 1 + r.us(4); let b = r.chance(1, 2);
            let t = gen_ty(&mut r, dep, b);
            check(rep, &t);
            check(rep, &Type::Memory { inner: Box::new(gen_ty(&mut r, 2, false)), length: r.below(100).into() });
            if !has_inout(&t) { check_ports(rep, &t) }
        }
    }
}
