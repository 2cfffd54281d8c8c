//! C03: operators.
use crate::mirb::*;
use crate::prog::*;
use crate::util::*;
use crate::vlog::Bv;
use num::{BigInt, BigUint, One, Signed, ToPrimitive, Zero};
use spade_mir::types::Type;
use spade_mir::Operator;

fn sgn(b: &Bv) -> BigInt { let w = b.w(); if w == 0 { return BigInt::zero() } let u = BigInt::from(b.to_u().unwrap()); if b.0[w - 1] == 1 { u - (BigInt::one() << w) } else { u } }
fn uns(b: &Bv) -> BigInt { if b.w() == 0 { return BigInt::zero() } BigInt::from(b.to_u().unwrap()) }
fn bit(b: bool) -> Bv { Bv(vec![b as u8]) }

/// one operator on operands of the given types; `f` is the mathematical value
fn op(rep: &mut Rep, r: &mut Rng, o: Operator, tys: &[Type], ret: Type, exhaust: bool, f: &dyn Fn(&[Bv]) -> Option<Bv>) {
    let ws: Vec<usize> = tys.iter().map(|t| fb(t).0).collect();
    let ent = entity("top", tys.iter().enumerate().map(|(i, t)| input(&format!("p{i}"), n(0, &format!("p{i}")), t.clone())).collect(), e(1), ret.clone(), vec![bind(e(1), ret.clone(), o.clone(), (0..tys.len()).map(|i| n(0, &format!("p{i}"))).collect())]);
    let desc = format!("{o} on ({}) -> {ret}", tys.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "));
    rep.case(&desc, ws.iter().any(|w| *w > 0));
    let text = match guard(|| code(&ent)) { Ok(t) => t, Err(x) => return rep.fail("mir-op", format!("{desc}: code generation panicked: {x}"), desc.clone()) };
    let mut s = match sim(&text) { Ok(s) => s, Err(x) => return rep.fail("mir-op", format!("{desc}: generated Verilog is ill formed: {x}"), text) };
    let tot: usize = ws.iter().sum();
    let full = exhaust && tot <= 8;
    let count = if full { 1u64 << tot } else { 12 };
    for k in 0..count {
        let mut sh = 0;
        let vals: Vec<Bv> = ws.iter().map(|w| if full { let v = (k >> sh) & ((1u64 << w) - 1); sh += w; Bv::from_u(&BigUint::from(v), *w) } else { r.bits(*w) }).collect();
        let Some(want) = f(&vals) else { continue };
        let res = run_one(&mut s, &vals);
        match res {
            Ok(g) if want.refines(&g) => {}
            Ok(g) => return rep.fail("mir-op", format!("{desc}: operands {} give {} instead of {}", vals.iter().map(|v| v.str()).collect::<Vec<_>>().join(","), g.str(), want.str()), text),
            Err(x) => return rep.fail("mir-op", format!("{desc}: {x}"), text),
        }
    }
}
fn run_one(s: &mut crate::vlog::Sim, vals: &[Bv]) -> Result<Bv, String> {
    for (i, v) in vals.iter().enumerate() { if v.w() > 0 { s.set(&format!("p{i}_i"), v.clone())? } }
    s.settle()?;
    s.get("output__")
}
fn ui(w: usize) -> Type { Type::UInt(u(w)) }
fn si(w: usize) -> Type { Type::Int(u(w)) }

fn all_ops(rep: &mut Rep, r: &mut Rng, w: usize, m: usize, ex: bool) {
    use Operator::*;
    let tr = |v: BigInt, k: usize| Some(Bv::from_i(&v, k));
    if w > 0 {
        for (res, exact) in [(w + 1, true), (w, false)] {
            let _ = exact;
            op(rep, r, Add, &[si(w), si(w)], si(res), ex, &|v| tr(sgn(&v[0]) + sgn(&v[1]), res));
            op(rep, r, Sub, &[si(w), si(w)], si(res), ex, &|v| tr(sgn(&v[0]) - sgn(&v[1]), res));
            op(rep, r, UnsignedAdd, &[ui(w), ui(w)], ui(res), ex, &|v| tr(uns(&v[0]) + uns(&v[1]), res));
            op(rep, r, UnsignedSub, &[ui(w), ui(w)], ui(res), ex, &|v| tr(uns(&v[0]) - uns(&v[1]), res));
        }
        if m > 0 {
            op(rep, r, Mul, &[si(w), si(m)], si(w + m), ex, &|v| tr(sgn(&v[0]) * sgn(&v[1]), w + m));
            op(rep, r, UnsignedMul, &[ui(w), ui(m)], ui(w + m), ex, &|v| tr(uns(&v[0]) * uns(&v[1]), w + m));
            for z in [w.min(m)] { op(rep, r, Truncate, &[ui(w.max(m))], ui(z), ex, &|v| Some(v[0].slice(0, z))); op(rep, r, Truncate, &[si(w.max(m))], si(z), ex, &|v| Some(v[0].slice(0, z))) }
        }
        op(rep, r, Div, &[si(w), si(w)], si(w), ex, &|v| if sgn(&v[1]).is_zero() { None } else { tr(sgn(&v[0]) / sgn(&v[1]), w) });
        op(rep, r, UnsignedDiv, &[ui(w), ui(w)], ui(w), ex, &|v| if uns(&v[1]).is_zero() { None } else { tr(uns(&v[0]) / uns(&v[1]), w) });
        op(rep, r, Mod, &[si(w), si(w)], si(w), ex, &|v| if sgn(&v[1]).is_zero() { None } else { tr(sgn(&v[0]) % sgn(&v[1]), w) });
        op(rep, r, UnsignedMod, &[ui(w), ui(w)], ui(w), ex, &|v| if uns(&v[1]).is_zero() { None } else { tr(uns(&v[0]) % uns(&v[1]), w) });
        let amt = |b: &Bv| uns(b).to_usize().unwrap_or(usize::MAX).min(1 << 12);
        let sw = if ex { w } else { w.min(1 + m % 8) };
        op(rep, r, LeftShift, &[ui(w), ui(sw)], ui(w), ex, &|v| tr(uns(&v[0]) << amt(&v[1]), w));
        op(rep, r, RightShift, &[ui(w), ui(sw)], ui(w), ex, &|v| tr(uns(&v[0]) >> amt(&v[1]), w));
        op(rep, r, LeftShift, &[si(w), ui(sw)], si(w), ex, &|v| tr(uns(&v[0]) << amt(&v[1]), w));
        op(rep, r, RightShift, &[si(w), ui(sw)], si(w), ex, &|v| tr(uns(&v[0]) >> amt(&v[1]), w));
        op(rep, r, ArithmeticRightShift, &[si(w), ui(sw)], si(w), ex, &|v| tr(sgn(&v[0]) >> amt(&v[1]), w));
        let bitw = |v: &[Bv], f: fn(u8, u8) -> u8| Some(Bv(v[0].0.iter().zip(&v[1].0).map(|(a, b)| f(*a, *b)).collect()));
        op(rep, r, BitwiseAnd, &[ui(w), ui(w)], ui(w), ex, &|v| bitw(v, |a, b| a & b));
        op(rep, r, BitwiseOr, &[ui(w), ui(w)], ui(w), ex, &|v| bitw(v, |a, b| a | b));
        op(rep, r, BitwiseXor, &[ui(w), ui(w)], ui(w), ex, &|v| bitw(v, |a, b| a ^ b));
        op(rep, r, BitwiseNot, &[ui(w)], ui(w), ex, &|v| Some(Bv(v[0].0.iter().map(|x| 1 - x).collect())));
        op(rep, r, USub, &[si(w)], si(w), ex, &|v| tr(-sgn(&v[0]), w));
        op(rep, r, Select, &[Type::Bool, ui(w), ui(w)], ui(w), ex, &|v| Some(if v[0].0[0] == 1 { v[1].clone() } else { v[2].clone() }));
        for k in 1..4usize {
            let tys: Vec<Type> = (0..k).flat_map(|_| [Type::Bool, ui(w)]).collect();
            op(rep, r, Match, &tys, ui(w), ex, &|v| Some((0..k).find(|i| v[2 * i].0[0] == 1).map(|i| v[2 * i + 1].clone()).unwrap_or(Bv::xs(w))));
        }
        if w <= 16 && w > 1 { op(rep, r, DivPow2, &[si(w), si(w)], si(w), ex, &|v| { let p = uns(&v[1]); let x = sgn(&v[0]); if p.is_zero() { tr(x, w) } else if p.is_one() && w > 2 { let y = (x + 1i32) >> 1usize; tr(y, w) } else { None } }) }
        for k in 1..5usize {
            let arr = |k: usize| Type::Array { inner: Box::new(ui(w)), length: u(k) };
            let el = |v: &Bv, i: usize, j: usize| v.slice((i * w) as i128, (j - i) * w);
            op(rep, r, ConstructArray, &vec![ui(w); k], arr(k), ex, &|v| Some(Bv(v.iter().flat_map(|x| x.0.clone()).collect())));
            let iw = [1, 1, 1, 2, 2][k];
            op(rep, r, IndexArray, &[arr(k), ui(iw)], ui(w), ex, &|v| { let i = uns(&v[1]).to_usize().unwrap(); if i < k { Some(el(&v[0], i, i + 1)) } else { None } });
            for a in 0..k { for b in a + 1..=k { op(rep, r, RangeIndexArray { start: u(a), end_exclusive: u(b) }, &[arr(k)], arr(b - a), ex, &|v| Some(el(&v[0], a, b))) } }
        }
        // a slice of one or more bits starting anywhere
        let a = r.us(w); 
        op(rep, r, RangeIndexBits { start: u(a), end_exclusive: u(a + 1) }, &[ui(w + 1)], ui(1), ex, &|v| Some(v[0].slice(a as i128, 1)));
    }
    for (o, f) in [(Eq, (|c| c == 0) as fn(i32) -> bool), (NotEq, |c| c != 0), (UnsignedGt, |c| c > 0), (UnsignedLt, |c| c < 0), (UnsignedGe, |c| c >= 0), (UnsignedLe, |c| c <= 0)] {
        op(rep, r, o.clone(), &[ui(w), ui(w)], Type::Bool, ex, &|v| Some(bit(f(uns(&v[0]).cmp(&uns(&v[1])) as i32))));
    }
    for (o, f) in [(Eq, (|c| c == 0) as fn(i32) -> bool), (NotEq, |c| c != 0), (Gt, |c| c > 0), (Lt, |c| c < 0), (Ge, |c| c >= 0), (Le, |c| c <= 0)] {
        op(rep, r, o.clone(), &[si(w), si(w)], Type::Bool, ex, &|v| Some(bit(f(sgn(&v[0]).cmp(&sgn(&v[1])) as i32))));
    }
    op(rep, r, ReduceAnd, &[ui(w)], Type::Bool, ex, &|v| Some(bit(v[0].0.iter().all(|b| *b == 1))));
    op(rep, r, ReduceOr, &[ui(w)], Type::Bool, ex, &|v| Some(bit(v[0].0.iter().any(|b| *b == 1))));
    op(rep, r, ReduceXor, &[ui(w)], Type::Bool, ex, &|v| Some(bit(v[0].0.iter().filter(|b| **b == 1).count() % 2 == 1)));
    let big = w + m;
    if big > 0 {
        op(rep, r, SignExtend, &[si(w)], si(big), ex, &|v| Some(Bv::from_i(&sgn(&v[0]), big)));
        op(rep, r, ZeroExtend, &[ui(w)], ui(big), ex, &|v| Some(v[0].ext(big, false)));
        op(rep, r, Concat, &[ui(w), ui(m)], ui(big), ex, &|v| Some(Bv::concat_msb(v)));
        op(rep, r, Concat, &[ui(m), ui(w), ui(1)], ui(big + 1), ex, &|v| Some(Bv::concat_msb(v)));
    }
}
fn bools(rep: &mut Rep, r: &mut Rng) {
    use Operator::*;
    for (o, f) in [(LogicalAnd, (|a, b| a && b) as fn(bool, bool) -> bool), (LogicalOr, |a, b| a || b), (LogicalXor, |a, b| a != b), (Eq, |a, b| a == b), (NotEq, |a, b| a != b)] {
        op(rep, r, o.clone(), &[Type::Bool, Type::Bool], Type::Bool, true, &|v| Some(bit(f(v[0].0[0] == 1, v[1].0[0] == 1))));
    }
    op(rep, r, LogicalNot, &[Type::Bool], Type::Bool, true, &|v| Some(bit(v[0].0[0] == 0)));
    op(rep, r, Not, &[Type::Bool], Type::Bool, true, &|v| Some(bit(v[0].0[0] == 0)));
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "an operator applied to at least one operand of nonzero width (MIR level), or a compiled function using operators (end to end)".into();
    let mut r = Rng::new(seed);
    bools(rep, &mut r);
    for w in 0..4 { for m in 0..4 { all_ops(rep, &mut r, w, m, true) } }
    let cfg = Cfg { depth: 3, ops: true, agg: false, max_w: 40, div: true, array_fns: false };
    for i in 0..1000000 {
        if !rep.time_left() { break }
        if i % 2 == 0 { let (w, m) = ([4, 7, 8, 31, 32, 33, 63, 64, 65, 90][r.us(10)] + r.us(2), [1, 2, 5, 32, 33, 64][r.us(6)]); all_ops(rep, &mut r, w, m, false) }
        round(rep, &mut r, &cfg, 40, 10, &[], "e2e"); rep.note("rounds")
    }
}
#[allow(unused)] fn _u(x: &BigInt) -> bool { x.is_negative() }
