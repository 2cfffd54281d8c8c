//! Random well-typed Spade programs with a reference interpreter over mathematical values.
use crate::util::*;
use crate::vlog::Bv;
use num::{BigInt, One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { U(usize), I(usize), B, T(Vec<Ty>), A(Box<Ty>, usize), S(usize), E(usize) }
#[derive(Clone, PartialEq, Debug)]
pub enum Val { N(BigInt), B(bool), L(Vec<Val>), E(usize, Vec<Val>) }
#[derive(Clone, Debug)]
pub enum Pat { Wild, Bind(String), At(String, Box<Pat>), Bool(bool), Int(BigInt), Tup(Vec<Pat>), Arr(Vec<Pat>), Struct(usize, Vec<Pat>, bool), Var(usize, usize, Vec<Pat>, bool) }
#[derive(Clone, Debug)]
pub enum Ex {
    Var(String), Lit(Val, Ty),
    Bin(&'static str, Box<Ex>, Box<Ex>, Ty, Ty),      // operand type, result type
    Un(&'static str, Box<Ex>, Ty),
    Fun(&'static str, Vec<Ex>, Ty, Ty),               // std function, first operand type, result type
    If(Box<Ex>, Box<Ex>, Box<Ex>),
    Match(Box<Ex>, Vec<(Pat, Ex)>),
    Tup(Vec<Ex>), TupIdx(Box<Ex>, usize), Arr(Vec<Ex>), ArrRep(Box<Ex>, usize), Idx(Box<Ex>, Box<Ex>, usize), Range(Box<Ex>, usize, usize, u8),
    Struct(usize, Vec<Ex>, u8), Field(Box<Ex>, usize, usize), Enum(usize, usize, Vec<Ex>, u8),
    Let(Pat, Option<Ty>, Box<Ex>, Box<Ex>),
    Call(usize, Vec<Ex>, u8),
}
#[derive(Clone, Debug)]
pub struct Fun { pub name: String, pub params: Vec<(String, Ty)>, pub ret: Ty, pub body: Ex, pub inline: bool }
#[derive(Default, Clone)]
pub struct Prog { pub structs: Vec<Vec<(String, Ty)>>, pub enums: Vec<Vec<Vec<(String, Ty)>>>, pub funs: Vec<Fun>, pub has_fun_params: bool }
#[derive(Clone)]
pub struct Cfg { pub depth: usize, pub ops: bool, pub agg: bool, pub max_w: usize, pub div: bool, pub array_fns: bool }

fn p2(w: usize) -> BigInt { BigInt::one() << w }
pub fn wrap(t: &Ty, v: BigInt) -> BigInt {
    match t {
        Ty::U(w) => ((v % p2(*w)) + p2(*w)) % p2(*w),
        Ty::I(w) => { if *w == 0 { return BigInt::zero() } let m = ((v % p2(*w)) + p2(*w)) % p2(*w); if m >= p2(w - 1) { m - p2(*w) } else { m } }
        _ => v,
    }
}
pub fn bits_of(t: &Ty, v: &BigInt) -> BigInt { match t { Ty::U(w) | Ty::I(w) => ((v % p2(*w)) + p2(*w)) % p2(*w), _ => v.clone() } }
pub fn numw(t: &Ty) -> usize { match t { Ty::U(w) | Ty::I(w) => *w, _ => panic!("num") } }
pub fn of_w(t: &Ty, w: usize) -> Ty { match t { Ty::U(_) => Ty::U(w), Ty::I(_) => Ty::I(w), _ => panic!("num") } }
pub fn idx_w(n: usize) -> usize { let mut k = 0; while (1usize << k) < n { k += 1 } k.max(1) }
pub fn is_num(t: &Ty) -> bool { matches!(t, Ty::U(_) | Ty::I(_)) }

impl Prog {
    pub fn ty(&self, t: &Ty) -> String {
        match t {
            Ty::U(w) => format!("uint<{w}>"), Ty::I(w) => format!("int<{w}>"), Ty::B => "bool".into(),
            Ty::T(v) => format!("({})", v.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")),
            Ty::A(t, n) => format!("[{}; {n}]", self.ty(t)), Ty::S(i) => format!("S{i}"), Ty::E(i) => format!("E{i}"),
        }
    }
    pub fn fields(&self, t: &Ty) -> Vec<Ty> { match t { Ty::T(v) => v.clone(), Ty::S(i) => self.structs[*i].iter().map(|x| x.1.clone()).collect(), Ty::A(t, n) => vec![(**t).clone(); *n], _ => vec![] } }
    /// rough number of cases the exhaustiveness check may have to enumerate
    pub fn cases(&self, t: &Ty) -> f64 {
        match t { Ty::U(_) | Ty::I(_) | Ty::B => 2.0, Ty::E(i) => self.enums[*i].iter().map(|v| v.iter().map(|f| self.cases(&f.1)).product::<f64>()).sum(), t => self.fields(t).iter().map(|t| self.cases(t)).product() }
    }
    /// hardware width (layout oracle, independent of the compiler)
    pub fn width(&self, t: &Ty) -> usize {
        match t {
            Ty::U(w) | Ty::I(w) => *w, Ty::B => 1, Ty::T(v) => v.iter().map(|t| self.width(t)).sum(), Ty::A(t, n) => n * self.width(t),
            Ty::S(i) => self.structs[*i].iter().map(|f| self.width(&f.1)).sum(),
            Ty::E(i) => { let e = &self.enums[*i]; tagw(e.len()) + e.iter().map(|v| v.iter().map(|f| self.width(&f.1)).sum::<usize>()).max().unwrap_or(0) }
        }
    }
    /// bit layout: tuples first member at the top, arrays element 0 at the bottom, enum tag at the top
    pub fn encode(&self, t: &Ty, v: &Val) -> Bv {
        match (t, v) {
            (Ty::U(w), Val::N(n)) | (Ty::I(w), Val::N(n)) => Bv::from_i(n, *w),
            (Ty::B, Val::B(b)) => Bv(vec![*b as u8]),
            (Ty::T(_), Val::L(vs)) | (Ty::S(_), Val::L(vs)) => Bv::concat_msb(&self.fields(t).iter().zip(vs).map(|(t, v)| self.encode(t, v)).collect::<Vec<_>>()),
            (Ty::A(t, _), Val::L(vs)) => Bv::concat_msb(&vs.iter().rev().map(|v| self.encode(t, v)).collect::<Vec<_>>()),
            (Ty::E(i), Val::E(k, vs)) => {
                let w = self.width(t); let tw = tagw(self.enums[*i].len());
                let mut parts = vec![Bv::from_i(&BigInt::from(*k), tw)];
                parts.extend(self.enums[*i][*k].iter().zip(vs).map(|(f, v)| self.encode(&f.1, v)));
                let used: usize = parts.iter().map(|p| p.w()).sum(); parts.push(Bv::xs(w - used));
                Bv::concat_msb(&parts)
            }
            _ => panic!("encode {t:?} {v:?}"),
        }
    }
    pub fn rand_val(&self, r: &mut Rng, t: &Ty) -> Val {
        match t {
            Ty::U(w) | Ty::I(w) => {
                let n = match r.below(6) { 0 => BigInt::zero(), 1 => p2(*w) - 1, 2 => p2(w.saturating_sub(1)), 3 => p2(w.saturating_sub(1)) - 1, 4 => BigInt::one(), _ => (BigInt::from(r.next()) << 64) + BigInt::from(r.next()) };
                Val::N(wrap(t, n))
            }
            Ty::B => Val::B(r.chance(1, 2)),
            Ty::T(_) | Ty::S(_) | Ty::A(..) => Val::L(self.fields(t).iter().map(|t| self.rand_val(r, t)).collect()),
            Ty::E(i) => { let k = r.us(self.enums[*i].len()); Val::E(k, self.enums[*i][k].iter().map(|f| self.rand_val(r, &f.1)).collect()) }
        }
    }
    pub fn lit(&self, v: &Val, t: &Ty) -> String {
        match (v, t) {
            (Val::N(n), Ty::U(w)) => format!("{n}u{w}"),
            (Val::N(n), Ty::I(w)) => if n.is_negative() { format!("(-{}i{w})", -n) } else { format!("{n}i{w}") },
            (Val::B(b), _) => b.to_string(),
            (Val::L(vs), Ty::A(t, _)) => format!("[{}]", vs.iter().map(|v| self.lit(v, t)).collect::<Vec<_>>().join(", ")),
            (Val::L(vs), Ty::T(ts)) => format!("({})", vs.iter().zip(ts).map(|(v, t)| self.lit(v, t)).collect::<Vec<_>>().join(", ")),
            (Val::L(vs), Ty::S(i)) => format!("S{i}({})", vs.iter().zip(self.fields(t)).map(|(v, t)| self.lit(v, &t)).collect::<Vec<_>>().join(", ")),
            (Val::E(k, vs), Ty::E(i)) => format!("E{i}::V{k}{}", if vs.is_empty() { String::new() } else { format!("({})", vs.iter().zip(&self.enums[*i][*k]).map(|(v, t)| self.lit(v, &t.1)).collect::<Vec<_>>().join(", ")) }),
            _ => panic!("lit"),
        }
    }
    pub fn pat(&self, p: &Pat) -> String {
        let l = |v: &[Pat]| v.iter().map(|p| self.pat(p)).collect::<Vec<_>>().join(", ");
        let named = |v: &[Pat], f: &[(String, Ty)]| { let mut x: Vec<String> = v.iter().zip(f).map(|(p, f)| match p { Pat::Bind(n) if *n == f.0 => n.clone(), p => format!("{}: {}", f.0, self.pat(p)) }).collect(); x.reverse(); x.join(", ") };
        match p {
            Pat::Wild => "_".into(), Pat::Bind(n) => n.clone(), Pat::At(n, q) => format!("{n} @ {}", self.pat(q)), Pat::Bool(b) => b.to_string(), Pat::Int(n) => n.to_string(),
            Pat::Tup(v) => format!("({})", l(v)), Pat::Arr(v) => format!("[{}]", l(v)),
            Pat::Struct(i, v, false) => format!("S{i}({})", l(v)), Pat::Struct(i, v, true) => format!("S{i}$({})", named(v, &self.structs[*i])),
            Pat::Var(i, k, v, nm) => if v.is_empty() { format!("E{i}::V{k}") } else if *nm { format!("E{i}::V{k}$({})", named(v, &self.enums[*i][*k])) } else { format!("E{i}::V{k}({})", l(v)) },
        }
    }
    pub fn text(&self, e: &Ex) -> String {
        let l = |v: &[Ex]| v.iter().map(|p| self.text(p)).collect::<Vec<_>>().join(", ");
        let named = |v: &[Ex], f: Vec<String>, rot: u8| { let mut x: Vec<String> = v.iter().zip(&f).map(|(p, f)| format!("{}: {}", f, self.text(p))).collect(); let n = x.len(); if n > 0 { x.rotate_left(rot as usize % n) } x.join(", ") };
        match e {
            Ex::Var(n) => n.clone(), Ex::Lit(v, t) => self.lit(v, t),
            Ex::Bin(o, a, b, ..) => format!("({} {o} {})", self.text(a), self.text(b)),
            Ex::Un(o, a, _) => format!("({o}{})", self.text(a)),
            Ex::Fun(f, a, t, r) => match *f {
                "trunc" => format!("std::num::trunc::<{}, {}>({})", self.ty(t), self.ty(r), l(a)),
                "zext" | "sext" => format!("std::num::{f}::<{}, {}>({})", numw(t), numw(r), l(a)),
                "concat" => { format!("{}.concat::<{}>({})", self.text(&a[0]), numw(r) - numw(t), self.text(&a[1])) }
                "reduce_and" | "reduce_or" | "reduce_xor" => format!("std::ops::{f}({}.as_bits())", self.text(&a[0])),
                "comb_div" | "comb_mod" => format!("std::ops::{f}({})", l(a)),
                "aconcat" => format!("({}).concat({})", self.text(&a[0]), self.text(&a[1])),
                _ => format!("{}.{f}({})", self.text(&a[0]), l(&a[1..])),
            },
            Ex::If(c, a, b) => format!("if {} {{ {} }} else {{ {} }}", self.text(c), self.text(a), self.text(b)),
            Ex::Match(s, arms) => format!("match {} {{ {} }}", self.text(s), arms.iter().map(|(p, e)| format!("{} => {}", self.pat(p), self.text(e))).collect::<Vec<_>>().join(", ")),
            Ex::Tup(v) => format!("({})", l(v)), Ex::TupIdx(a, i) => format!("{}.{i}", self.atom(a)),
            Ex::Arr(v) => format!("[{}]", l(v)), Ex::ArrRep(a, n) => format!("[{}; {n}]", self.text(a)),
            Ex::Idx(a, i, _) => format!("{}[{}]", self.atom(a), if let Ex::Lit(Val::N(n), _) = &**i { n.to_string() } else { self.text(i) }),
            Ex::Range(a, x, y, k) => match k { 0 => format!("{}[{x}..{y}]", self.atom(a)), 1 => format!("{}[{x}..]", self.atom(a)), _ => format!("{}[..{y}]", self.atom(a)) },
            Ex::Struct(i, v, k) => if *k == 0 { format!("S{i}({})", l(v)) } else { format!("S{i}$({})", named(v, self.structs[*i].iter().map(|f| f.0.clone()).collect(), *k)) },
            Ex::Field(a, i, f) => format!("{}.{}", self.atom(a), self.structs[*i][*f].0),
            Ex::Enum(i, k, v, m) => if v.is_empty() { format!("E{i}::V{k}") } else if *m == 0 { format!("E{i}::V{k}({})", l(v)) } else { format!("E{i}::V{k}$({})", named(v, self.enums[*i][*k].iter().map(|f| f.0.clone()).collect(), *m)) },
            Ex::Let(p, t, a, b) => format!("{{ let {}{} = {}; {} }}", self.pat(p), t.as_ref().map(|t| format!(": {}", self.ty(t))).unwrap_or_default(), self.text(a), self.text(b)),
            Ex::Call(i, a, k) => { let f = &self.funs[*i]; if *k == 0 { format!("{}({})", f.name, l(a)) } else { format!("{}$({})", f.name, named(a, f.params.iter().map(|p| p.0.clone()).collect(), *k)) } }
        }
    }
    fn atom(&self, e: &Ex) -> String { match e { Ex::Var(_) | Ex::TupIdx(..) | Ex::Field(..) | Ex::Idx(..) | Ex::Call(..) | Ex::Tup(_) => self.text(e), _ => format!("({})", self.text(e)) } }
    pub fn fun_text(&self, f: &Fun) -> String {
        format!("{}fn {}({}) -> {} {{ {} }}", if f.inline { "#[inline] " } else { "" }, f.name, f.params.iter().map(|p| format!("{}: {}", p.0, self.ty(&p.1))).collect::<Vec<_>>().join(", "), self.ty(&f.ret), self.text(&f.body))
    }
    pub fn defs_text(&self) -> Vec<String> {
        let fl = |v: &[(String, Ty)]| v.iter().map(|f| format!("{}: {}", f.0, self.ty(&f.1))).collect::<Vec<_>>().join(", ");
        let mut o: Vec<String> = self.structs.iter().enumerate().map(|(i, s)| format!("struct S{i} {{ {} }}", fl(s))).collect();
        o.extend(self.enums.iter().enumerate().map(|(i, e)| format!("enum E{i} {{ {} }}", e.iter().enumerate().map(|(k, v)| if v.is_empty() { format!("V{k}") } else { format!("V{k}{{ {} }}", fl(v)) }).collect::<Vec<_>>().join(", "))));
        o
    }
    // ------------------------------------------------------------ reference evaluation (None: undefined)
    pub fn pmatch(&self, p: &Pat, v: &Val, env: &mut HashMap<String, Val>) -> bool {
        match (p, v) {
            (Pat::Wild, _) => true, (Pat::Bind(n), v) => { env.insert(n.clone(), v.clone()); true }
            (Pat::At(n, q), v) => { env.insert(n.clone(), v.clone()); self.pmatch(q, v, env) }
            (Pat::Bool(a), Val::B(b)) => a == b, (Pat::Int(a), Val::N(b)) => a == b,
            (Pat::Tup(ps), Val::L(vs)) | (Pat::Arr(ps), Val::L(vs)) | (Pat::Struct(_, ps, _), Val::L(vs)) => ps.iter().zip(vs).all(|(p, v)| self.pmatch(p, v, env)),
            (Pat::Var(_, k, ps, _), Val::E(j, vs)) => k == j && ps.iter().zip(vs).all(|(p, v)| self.pmatch(p, v, env)),
            _ => panic!("pmatch {p:?} {v:?}"),
        }
    }
    pub fn eval(&self, e: &Ex, env: &HashMap<String, Val>) -> Option<Val> {
        let n = |v: Val| match v { Val::N(n) => n, _ => panic!("num") };
        let b = |v: Val| match v { Val::B(n) => n, _ => panic!("bool") };
        let l = |v: Val| match v { Val::L(n) => n, _ => panic!("list") };
        let all = |v: &[Ex]| v.iter().map(|e| self.eval(e, env)).collect::<Option<Vec<_>>>();
        Some(match e {
            Ex::Var(x) => env.get(x).cloned().expect("var"), Ex::Lit(v, _) => v.clone(),
            Ex::Bin(o, x, y, t, rt) => {
                let (xv, yv) = (self.eval(x, env)?, self.eval(y, env)?);
                match *o {
                    "&&" => return Some(Val::B(b(xv) && b(yv))), "||" => return Some(Val::B(b(xv) || b(yv))), "^^" => return Some(Val::B(b(xv) != b(yv))),
                    "==" => return Some(Val::B(xv == yv)), "!=" => return Some(Val::B(xv != yv)), _ => {}
                }
                let (x, y) = (n(xv), n(yv));
                let w = numw(t); let (ub, yb) = (bits_of(t, &x), bits_of(t, &y));
                let sh = |f: &dyn Fn(usize) -> BigInt, big: BigInt| match yb.to_usize() { Some(k) if k < w => f(k), _ => big };
                match *o {
                    "<" => Val::B(x < y), ">" => Val::B(x > y), "<=" => Val::B(x <= y), ">=" => Val::B(x >= y),
                    "+" | "+." => Val::N(wrap(rt, x + y)), "-" | "-." => Val::N(wrap(rt, x - y)), "*" | "*." => Val::N(wrap(rt, x * y)),
                    "&" => Val::N(wrap(rt, ub & yb)), "|" => Val::N(wrap(rt, ub | yb)), "^" => Val::N(wrap(rt, ub ^ yb)),
                    "<<" | "<<." => Val::N(wrap(rt, sh(&|k| ub.clone() << k, BigInt::zero()))),
                    ">>" | ">>." => Val::N(wrap(rt, sh(&|k| ub.clone() >> k, BigInt::zero()))),
                    ">>>" => { let s = wrap(&Ty::I(w), ub.clone()); Val::N(wrap(rt, sh(&|k| s.clone() >> k, if s.is_negative() { -BigInt::one() } else { BigInt::zero() }))) }
                    "/" | "%" => { if y.is_zero() { return None } let (q, m) = tdivrem(&x, &y); Val::N(wrap(rt, if *o == "/" { q } else { m })) }
                    o => panic!("op {o}"),
                }
            }
            Ex::Un(o, x, t) => match (*o, self.eval(x, env)?) { ("!", v) => Val::B(!b(v)), ("-", v) | ("-.", v) => Val::N(wrap(t, -n(v))), ("~", v) => Val::N(wrap(t, -n(v) - 1)), ("", v) => v, _ => panic!("unop") },
            Ex::Fun(f, a, t, rt) => {
                let a = all(a)?; let g = |i: usize| n(a[i].clone());
                match *f {
                    "trunc" | "zext" | "sext" => Val::N(wrap(rt, g(0))),
                    "concat" => { let w2 = numw(rt) - numw(t); Val::N(wrap(rt, (bits_of(t, &g(0)) << w2) + bits_of(&of_w(t, w2), &g(1)))) }
                    "reduce_and" => Val::B(bits_of(t, &g(0)) == p2(numw(t)) - 1), "reduce_or" => Val::B(!g(0).is_zero()),
                    "reduce_xor" => { let mut x = bits_of(t, &g(0)); let mut p = false; while !x.is_zero() { if (&x % 2u32).is_one() { p = !p } x = x >> 1 } Val::B(p) }
                    "comb_div" | "comb_mod" => { if g(1).is_zero() { return None } let (q, m) = tdivrem(&g(0), &g(1)); Val::N(wrap(rt, if *f == "comb_div" { q } else { m })) }
                    "as_uint" | "as_int" if matches!(t, Ty::B) => Val::N(wrap(rt, BigInt::from(b(a[0].clone()) as u8))),
                    "as_uint" | "as_int" => Val::N(wrap(rt, bits_of(t, &g(0)))),
                    "to_int" => Val::N(g(0)), "abs" => Val::N(wrap(rt, g(0).abs())),
                    "min" => Val::N(g(0).min(g(1))), "max" => Val::N(g(0).max(g(1))),
                    "msb" => Val::B(bits_of(t, &g(0)) >= p2(numw(t) - 1)), "lsb" => Val::B((bits_of(t, &g(0)) % 2u32).is_one()),
                    "interleave" if is_num(t) => { let (x, y) = (bits_of(t, &g(0)), bits_of(t, &g(1))); let mut o = BigInt::zero(); for i in 0..numw(t) { if ((&x >> i) % 2u32).is_one() { o += p2(2 * i) } if ((&y >> i) % 2u32).is_one() { o += p2(2 * i + 1) } } Val::N(wrap(rt, o)) }
                    // arrays
                    "aconcat" => { let mut x = l(a[0].clone()); x.extend(l(a[1].clone())); Val::L(x) }
                    "reversed" => { let mut x = l(a[0].clone()); x.reverse(); Val::L(x) }
                    "push_back" => { let mut x = l(a[0].clone()); x.push(a[1].clone()); Val::L(x) }
                    "push_front" => { let mut x = l(a[0].clone()); x.insert(0, a[1].clone()); Val::L(x) }
                    "shift_back" => { let mut x = l(a[0].clone()); x.remove(0); x.push(a[1].clone()); Val::L(x) }
                    "shift_front" => { let mut x = l(a[0].clone()); x.pop(); x.insert(0, a[1].clone()); Val::L(x) }
                    "first" => l(a[0].clone())[0].clone(), "last" => l(a[0].clone()).pop().unwrap(),
                    "zip" => Val::L(l(a[0].clone()).into_iter().zip(l(a[1].clone())).map(|(x, y)| Val::L(vec![x, y])).collect()),
                    "interleave" => Val::L(l(a[0].clone()).into_iter().zip(l(a[1].clone())).flat_map(|(x, y)| [x, y]).collect()),
                    "flatten" => Val::L(l(a[0].clone()).into_iter().flat_map(|x| l(x)).collect()),
                    f => panic!("fun {f}"),
                }
            }
            Ex::If(c, x, y) => if b(self.eval(c, env)?) { self.eval(x, env)? } else { self.eval(y, env)? },
            Ex::Match(s, arms) => { let v = self.eval(s, env)?; for (p, e) in arms { let mut en = env.clone(); if self.pmatch(p, &v, &mut en) { return self.eval(e, &en) } } panic!("no arm") }
            Ex::Tup(v) | Ex::Arr(v) | Ex::Struct(_, v, _) => Val::L(all(v)?), Ex::ArrRep(x, k) => Val::L(vec![self.eval(x, env)?; *k]),
            Ex::TupIdx(a, i) | Ex::Field(a, _, i) => l(self.eval(a, env)?)[*i].clone(),
            Ex::Idx(a, i, len) => { let v = l(self.eval(a, env)?); let i = n(self.eval(i, env)?).to_usize()?; if i >= *len { return None } v[i].clone() }
            Ex::Range(a, x, y, _) => Val::L(l(self.eval(a, env)?)[*x..*y].to_vec()),
            Ex::Enum(_, k, v, _) => Val::E(*k, all(v)?),
            Ex::Let(p, _, a, body) => { let v = self.eval(a, env)?; let mut en = env.clone(); assert!(self.pmatch(p, &v, &mut en)); self.eval(body, &en)? }
            Ex::Call(i, a, _) => { let f = &self.funs[*i]; let en: HashMap<String, Val> = f.params.iter().map(|p| p.0.clone()).zip(all(a)?).collect(); self.eval(&f.body, &en)? }
        })
    }
}
pub fn tdivrem(x: &BigInt, y: &BigInt) -> (BigInt, BigInt) { let q = x.abs() / y.abs(); let q = if x.is_negative() != y.is_negative() { -q } else { q }; let m = x - y * &q; (q, m) }
pub fn tagw(n: usize) -> usize { let mut k = 0; while (1usize << k) < n { k += 1 } k }

// ---------------------------------------------------------------- generation
pub struct Gen<'a> { pub r: &'a mut Rng, pub p: Prog, pub cfg: Cfg, pub fresh: usize, pub nodes: usize }
type Env = Vec<(String, Ty)>;
impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, cfg: Cfg) -> Gen<'a> { Gen { r, p: Prog::default(), cfg, fresh: 0, nodes: 0 } }
    fn name(&mut self) -> String { self.fresh += 1; format!("v{}", self.fresh) }
    pub fn num_ty(&mut self) -> Ty { let w = match self.r.below(10) { 0 => 1, 1 => 2, 2 => 1 + self.r.us(self.cfg.max_w), 3 => self.cfg.max_w, _ => 2 + self.r.us(8) }; if self.r.chance(1, 2) { Ty::U(w) } else { Ty::I(w) } }
    pub fn scalar(&mut self) -> Ty { if self.r.chance(1, 4) { Ty::B } else { self.num_ty() } }
    pub fn any_ty(&mut self, d: usize) -> Ty {
        if d == 0 || !self.cfg.agg { return self.scalar() }
        match self.r.below(9) {
            0 | 1 => { let n = 1 + self.r.us(4); Ty::T((0..n.max(2)).map(|_| self.any_ty(d - 1)).collect()) }
            2 | 3 => { let n = 1 + self.r.us(5); Ty::A(Box::new(self.any_ty(d - 1)), n) }
            4 | 5 if !self.p.structs.is_empty() => Ty::S(self.r.us(self.p.structs.len())),
            6 | 7 if !self.p.enums.is_empty() => Ty::E(self.r.us(self.p.enums.len())),
            _ => self.scalar(),
        }
    }
    pub fn small_ty(&mut self, d: usize) -> Ty { for _ in 0..5 { let t = self.any_ty(d); if self.p.cases(&t) <= 300.0 { return t } } self.scalar() }
    pub fn defs(&mut self) {
        for _ in 0..3 { let n = 1 + self.r.us(4); let f = (0..n).map(|i| (format!("f{i}"), self.any_ty(1))).collect(); self.p.structs.push(f);
            let vs = [1, 2, 2, 3, 4, 5, 7][self.r.us(7)];
            let e = (0..vs).map(|_| { let k = [0, 1, 1, 2, 3][self.r.us(5)]; (0..k).map(|i| (format!("m{i}"), self.any_ty(1))).collect() }).collect(); self.p.enums.push(e) }
    }
    pub fn fun(&mut self, name: String, params: Vec<(String, Ty)>, ret: Ty) {
        let d = self.cfg.depth; let env = params.clone(); self.nodes = 0;
        let body = self.expr(&ret, d, &env);
        let inline = self.r.chance(1, 6);
        self.p.funs.push(Fun { name, params, ret, body, inline })
    }
    pub fn lit(&mut self, t: &Ty) -> Ex {
        // the most negative literal has no positive counterpart: use the neighbour
        fn fix(p: &Prog, v: Val, t: &Ty) -> Val {
            match (v, t) {
                (Val::N(n), Ty::I(w)) if n == -p2(w - 1) => Val::N(if *w == 1 { BigInt::zero() } else { n + 1 }),
                (Val::L(v), t) => Val::L(v.into_iter().zip(p.fields(t)).map(|(v, t)| fix(p, v, &t)).collect()),
                (Val::E(k, v), Ty::E(i)) => Val::E(k, v.into_iter().zip(&p.enums[*i][k]).map(|(v, t)| fix(p, v, &t.1)).collect()),
                (v, _) => v,
            }
        }
        let v = self.p.rand_val(self.r, t); Ex::Lit(fix(&self.p, v, t), t.clone())
    }
    fn bx(&mut self, t: &Ty, d: usize, env: &Env) -> Box<Ex> { Box::new(self.expr(t, d, env)) }
    pub fn pattern(&mut self, t: &Ty, d: usize, refutable: bool, binds: &mut Env) -> Pat {
        if d == 0 || self.r.chance(1, 5) { if self.r.chance(1, 3) { return Pat::Wild } let n = self.name(); binds.push((n.clone(), t.clone())); return Pat::Bind(n) }
        if self.r.chance(1, 8) { let n = self.name(); binds.push((n.clone(), t.clone())); return Pat::At(n, Box::new(self.pattern(t, d, refutable, binds))) }
        match t {
            Ty::B if refutable => Pat::Bool(self.r.chance(1, 2)),
            Ty::U(_) | Ty::I(_) if refutable => match self.p.rand_val(self.r, t) { Val::N(n) if !n.is_negative() => Pat::Int(n), _ => Pat::Int(BigInt::zero()) },
            Ty::T(v) => Pat::Tup(v.iter().map(|t| self.pattern(t, d - 1, refutable, binds)).collect()),
            Ty::A(..) => Pat::Arr(self.p.fields(t).iter().map(|t| self.pattern(t, d - 1, refutable, binds)).collect()),
            Ty::S(i) => { let f = self.p.fields(t); let nm = self.r.chance(1, 2); Pat::Struct(*i, f.iter().map(|t| self.pattern(t, d - 1, refutable, binds)).collect(), nm) }
            Ty::E(i) if refutable => { let k = self.r.us(self.p.enums[*i].len()); let nm = self.r.chance(1, 2); let f = self.p.enums[*i][k].clone(); Pat::Var(*i, k, f.iter().map(|t| self.pattern(&t.1, d - 1, true, binds)).collect(), nm) }
            _ => { let n = self.name(); binds.push((n.clone(), t.clone())); Pat::Bind(n) }
        }
    }
    pub fn expr(&mut self, t: &Ty, d: usize, env: &Env) -> Ex {
        self.nodes += 1; let d = if self.nodes > 60 { 0 } else { d };
        let vars: Vec<String> = env.iter().filter(|v| v.1 == *t).map(|v| v.0.clone()).collect();
        if !vars.is_empty() && self.r.chance(if d == 0 { 9 } else { 2 }, 10) { return Ex::Var(vars[self.r.us(vars.len())].clone()) }
        if d == 0 { 
            if self.r.chance(1, 2) { if let Some(e) = self.proj(t, env) { return e } }
            return self.build(t, 0, env)
        }
        let d1 = d - 1;
        match self.r.below(24) {
            0 | 1 => { let c = self.bx(&Ty::B, d1, env); Ex::If(c, self.bx(t, d1, env), self.bx(t, d1, env)) }
            2 | 3 | 4 => {
                let st = self.small_ty(2); let s = self.bx(&st, d1, env);
                let n = 1 + self.r.us(4); let mut arms = vec![];
                for _ in 0..n { let mut b = env.clone(); let p = self.pattern(&st, 3, true, &mut b); arms.push((p, self.expr(t, d1, &b))) }
                arms.push((Pat::Wild, self.expr(t, d1, env)));
                // arms after an irrefutable one would be unreachable
                let cut = arms.iter().position(|a| irref(&a.0)).unwrap(); arms.truncate(cut + 1);
                Ex::Match(s, arms)
            }
            5 | 6 => {
                let vt = self.small_ty(2); let a = self.bx(&vt, d1, env); let mut b = env.clone();
                let p = self.pattern(&vt, 2, false, &mut b); let ann = if self.r.chance(1, 2) { Some(vt) } else { None };
                Ex::Let(p, ann, a, self.bx(t, d1, &b))
            }
            7 | 8 | 9 if self.cfg.agg => { // build something containing t and take it out again
                match self.r.below(5) {
                    0 => { let k = 1 + self.r.us(4); let i = self.r.us(k); let ts: Vec<Ty> = (0..k.max(2)).map(|j| if j == i { t.clone() } else { self.any_ty(1) }).collect(); Ex::TupIdx(self.bx(&Ty::T(ts), d1, env), i) }
                    1 => { let n = 1 + self.r.us(6); let a = self.bx(&Ty::A(Box::new(t.clone()), n), d1, env); let i = self.index(n, d1, env); Ex::Idx(a, Box::new(i), n) }
                    2 => { let n = 2 + self.r.us(4); let at = Ty::A(Box::new(t.clone()), n); let a = self.bx(&at, d1, env); let x = self.r.us(n); let y = x + 1 + self.r.us(n - x);
                        let rg = Ex::Range(a, x, y, if y == n && self.r.chance(1, 2) { 1 } else if x == 0 && self.r.chance(1, 2) { 2 } else { 0 });
                        let i = self.r.us(y - x); Ex::Idx(Box::new(rg), Box::new(Ex::Lit(Val::N(i.into()), Ty::U(idx_w(y - x)))), y - x) }
                    3 => { let c: Vec<(usize, usize)> = self.p.structs.iter().enumerate().flat_map(|(i, s)| s.iter().enumerate().filter(|f| f.1.1 == *t).map(move |f| (i, f.0)).collect::<Vec<_>>()).collect();
                        if c.is_empty() { return self.build(t, d, env) } let (i, f) = c[self.r.us(c.len())]; Ex::Field(self.bx(&Ty::S(i), d1, env), i, f) }
                    _ => { // enum payload through match
                        let c: Vec<(usize, usize, usize)> = self.p.enums.iter().enumerate().flat_map(|(i, e)| e.iter().enumerate().flat_map(move |(k, v)| v.iter().enumerate().filter(|f| f.1.1 == *t).map(move |f| (i, k, f.0)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
                        if c.is_empty() || c.iter().any(|c| self.p.cases(&Ty::E(c.0)) > 300.0) { return self.build(t, d, env) }
                        let (i, k, m) = c[self.r.us(c.len())]; let x = self.name();
                        let len = self.p.enums[i][k].len();
                        let pat = Pat::Var(i, k, (0..len).map(|j| if j == m { Pat::Bind(x.clone()) } else { Pat::Wild }).collect(), self.r.chance(1, 2));
                        let mut arms = vec![(pat, Ex::Var(x))]; if self.p.enums[i].len() > 1 { arms.push((Pat::Wild, self.expr(t, d1, env))) }
                        Ex::Match(self.bx(&Ty::E(i), d1, env), arms)
                    }
                }
            }
            10 | 11 => if let Some(e) = self.proj(t, env) { e } else { self.build(t, d, env) },
            12 if !self.p.funs.is_empty() => {
                let c: Vec<usize> = (0..self.p.funs.len()).filter(|i| self.p.funs[*i].ret == *t).collect();
                if c.is_empty() { return self.build(t, d, env) }
                let i = c[self.r.us(c.len())]; let ps = self.p.funs[i].params.clone();
                let a = ps.iter().map(|p| self.expr(&p.1, d1, env)).collect(); Ex::Call(i, a, [0, 0, 1, 2][self.r.us(4)])
            }
            13 if self.cfg.array_fns => self.arr_out(t, d1, env),
            _ => self.build(t, d, env),
        }
    }
    fn index(&mut self, n: usize, d: usize, env: &Env) -> Ex {
        if n == 1 || self.r.chance(1, 3) { return Ex::Lit(Val::N(self.r.us(n).into()), Ty::U(idx_w(n))) }
        self.expr(&Ty::U(idx_w(n)), d, env)
    }
    /// a path into some variable in scope that ends in type t
    fn proj(&mut self, t: &Ty, env: &Env) -> Option<Ex> {
        let mut c: Vec<Ex> = vec![];
        for (n, vt) in env { self.paths(Ex::Var(n.clone()), vt, t, &mut c, 3) }
        if c.is_empty() { None } else { Some(c[self.r.us(c.len())].clone()) }
    }
    fn paths(&self, e: Ex, vt: &Ty, t: &Ty, out: &mut Vec<Ex>, d: usize) {
        if vt == t { out.push(e.clone()) }
        if d == 0 { return }
        match vt {
            Ty::T(v) => for (i, f) in v.iter().enumerate() { self.paths(Ex::TupIdx(Box::new(e.clone()), i), f, t, out, d - 1) },
            Ty::S(s) => for (i, f) in self.p.structs[*s].iter().enumerate() { self.paths(Ex::Field(Box::new(e.clone()), *s, i), &f.1, t, out, d - 1) },
            Ty::A(f, n) => for i in 0..*n { self.paths(Ex::Idx(Box::new(e.clone()), Box::new(Ex::Lit(Val::N(i.into()), Ty::U(idx_w(*n)))), *n), f, t, out, d - 1) },
            _ => {}
        }
    }
    fn arr_out(&mut self, t: &Ty, d: usize, env: &Env) -> Ex {
        let fun = |f: &'static str, a: Vec<Ex>, t: Ty, r: Ty| Ex::Fun(f, a, t, r);
        match t {
            Ty::A(el, n) => {
                let at = |k: usize| Ty::A(el.clone(), k);
                match self.r.below(9) {
                    0 if *n >= 2 => { let k = 1 + self.r.us(n - 1); let a = vec![self.tlet(&at(k), d, env), self.tlet(&at(n - k), d, env)]; fun("aconcat", a, at(k), t.clone()) }
                    1 => { let a = vec![self.tlet(t, d, env)]; fun("reversed", a, t.clone(), t.clone()) }
                    2 if *n >= 2 => { let a = vec![self.tlet(&at(n - 1), d, env), self.expr(el, d, env)]; fun("push_back", a, at(n - 1), t.clone()) }
                    3 if *n >= 2 => { let a = vec![self.tlet(&at(n - 1), d, env), self.expr(el, d, env)]; fun("push_front", a, at(n - 1), t.clone()) }
                    4 => { let a = vec![self.tlet(t, d, env), self.expr(el, d, env)]; fun("shift_back", a, t.clone(), t.clone()) }
                    5 => { let a = vec![self.tlet(t, d, env), self.expr(el, d, env)]; fun("shift_front", a, t.clone(), t.clone()) }
                    6 if n % 2 == 0 && *n > 0 => { let a = vec![self.tlet(&at(n / 2), d, env), self.tlet(&at(n / 2), d, env)]; fun("interleave", a, at(n / 2), t.clone()) }
                    7 => { if let Ty::T(v) = &**el { if v.len() == 2 { let (x, y) = (Ty::A(Box::new(v[0].clone()), *n), Ty::A(Box::new(v[1].clone()), *n)); let a = vec![self.tlet(&x, d, env), self.tlet(&y, d, env)]; return fun("zip", a, x, t.clone()) } } self.build(t, d, env) }
                    8 if *n == 4 || *n == 6 => { let it = Ty::A(Box::new(at(2)), n / 2); let a = vec![self.tlet(&it, d, env)]; fun("flatten", a, it, t.clone()) }
                    _ => self.build(t, d, env),
                }
            }
            _ => { let n = 1 + self.r.us(4); let at = Ty::A(Box::new(t.clone()), n); let a = vec![self.tlet(&at, d, env)]; let f = if self.r.chance(1, 2) { "first" } else { "last" }; fun(f, a, at, t.clone()) }
        }
    }
    /// a method receiver must have a known type: bind it with an annotation
    fn tlet(&mut self, t: &Ty, d: usize, env: &Env) -> Ex {
        let e = self.expr(t, d, env); if let Ex::Var(_) = e { return e }
        let n = self.name(); Ex::Let(Pat::Bind(n.clone()), Some(t.clone()), Box::new(e), Box::new(Ex::Var(n)))
    }
    /// an expression whose outermost node produces t
    pub fn build(&mut self, t: &Ty, d: usize, env: &Env) -> Ex {
        let d1 = d.saturating_sub(1);
        match t {
            Ty::T(v) => Ex::Tup(v.iter().map(|t| self.expr(t, d1, env)).collect()),
            Ty::A(el, n) => if self.r.chance(1, 6) { Ex::ArrRep(self.bx(el, d1, env), *n) } else { Ex::Arr((0..*n).map(|_| self.expr(el, d1, env)).collect()) },
            Ty::S(i) => { let f = self.p.fields(t); let m = self.r.below(3) as u8; Ex::Struct(*i, f.iter().map(|t| self.expr(t, d1, env)).collect(), m) }
            Ty::E(i) => { let k = self.r.us(self.p.enums[*i].len()); let f = self.p.enums[*i][k].clone(); let m = self.r.below(3) as u8; Ex::Enum(*i, k, f.iter().map(|t| self.expr(&t.1, d1, env)).collect(), m) }
            _ if d == 0 || !self.cfg.ops => self.lit(t),
            Ty::B => match self.r.below(9) {
                0 | 1 => { let o = *self.r.pick(&["&&", "||", "^^"]); Ex::Bin(o, self.bx(t, d1, env), self.bx(t, d1, env), Ty::B, Ty::B) }
                2 => Ex::Un("!", self.bx(t, d1, env), Ty::B),
                3 => { let nt = self.num_ty(); let o = *self.r.pick(&["reduce_and", "reduce_or", "reduce_xor", "msb", "lsb"]); let a = vec![self.tlet(&nt, d1, env)]; Ex::Fun(o, a, nt, Ty::B) }
                4 => { let ct = self.eq_ty(); let o = *self.r.pick(&["==", "!="]); let a = self.tlet(&ct, d1, env); let b = self.tlet(&ct, d1, env); Ex::Bin(o, Box::new(a), Box::new(b), ct, Ty::B) }
                _ => { let nt = self.num_ty(); let o = *self.r.pick(&["<", ">", "<=", ">=", "==", "!="]); let a = self.tlet(&nt, d1, env); let b = self.tlet(&nt, d1, env); Ex::Bin(o, Box::new(a), Box::new(b), nt, Ty::B) }
            },
            Ty::U(w) | Ty::I(w) => {
                let w = *w; let sg = matches!(t, Ty::I(_));
                match self.r.below(20) {
                    0 | 1 if w >= 2 => { let o = *self.r.pick(&["+", "-"]); let ot = of_w(t, w - 1); Ex::Bin(o, self.bx(&ot, d1, env), self.bx(&ot, d1, env), ot, t.clone()) }
                    2 if w >= 2 => { let k = 1 + self.r.us(w - 1); let (x, y) = (of_w(t, k), of_w(t, w - k)); Ex::Bin("*", self.bx(&x, d1, env), self.bx(&y, d1, env), x, t.clone()) }
                    3 | 4 => { let o = *self.r.pick(&["+.", "-.", "*.", "<<.", ">>."]); let a = self.tlet(t, d1, env); Ex::Bin(o, Box::new(a), self.bx(t, d1, env), t.clone(), t.clone()) }
                    5 | 6 => { let o = *self.r.pick(&["&", "|", "^"]); let a = self.tlet(t, d1, env); Ex::Bin(o, Box::new(a), self.bx(t, d1, env), t.clone(), t.clone()) }
                    7 | 8 => { let o = *self.r.pick(&["<<", ">>", ">>>"]); let amt = if self.r.chance(1, 2) { let m = self.r.us(w + 2); let v = wrap(t, m.into()); Ex::Lit(Val::N(if v.is_negative() { BigInt::zero() } else { v }), t.clone()) } else { self.expr(t, d1, env) }; Ex::Bin(o, self.bx(t, d1, env), Box::new(amt), t.clone(), t.clone()) }
                    9 if sg => { let o = *self.r.pick(&["-", "-."]); let a = self.tlet(t, d1, env); Ex::Un(o, Box::new(a), t.clone()) }
                    10 => { let a = self.tlet(t, d1, env); Ex::Un("~", Box::new(a), t.clone()) }
                    11 | 12 => { let ot = of_w(t, w + 1 + self.r.us(6)); let a = vec![self.expr(&ot, d1, env)]; Ex::Fun("trunc", a, ot, t.clone()) }
                    13 => { let ot = of_w(t, 1 + self.r.us(w)); let a = vec![self.expr(&ot, d1, env)]; Ex::Fun(if sg { "sext" } else { "zext" }, a, ot, t.clone()) }
                    14 if w >= 2 => { let k = 1 + self.r.us(w - 1); let (x, y) = (of_w(t, k), of_w(t, w - k)); let a = vec![self.tlet(&x, d1, env), self.expr(&y, d1, env)]; Ex::Fun("concat", a, x, t.clone()) }
                    15 => { let ot = if sg { Ty::U(w) } else { Ty::I(w) }; let a = vec![self.tlet(&ot, d1, env)]; if !sg && self.r.chance(1, 3) { Ex::Fun("abs", a, ot, t.clone()) } else { Ex::Fun(if sg { "as_int" } else { "as_uint" }, a, ot, t.clone()) } }
                    16 => { let o = *self.r.pick(&["min", "max"]); let a = vec![self.tlet(t, d1, env), self.expr(t, d1, env)]; Ex::Fun(o, a, t.clone(), t.clone()) }
                    17 if sg && w >= 2 => { let ot = Ty::U(w - 1); let a = vec![self.tlet(&ot, d1, env)]; Ex::Fun("to_int", a, ot, t.clone()) }
                    17 if !sg && w % 2 == 0 => { let ot = Ty::U(w / 2); let a = vec![self.tlet(&ot, d1, env), self.expr(&ot, d1, env)]; Ex::Fun("interleave", a, ot, t.clone()) }
                    18 if self.cfg.div => { let o = *self.r.pick(&["/", "%", "comb_div", "comb_mod"]);
                        if o.len() == 1 { let hi = if sg { w.saturating_sub(1) } else { w }; if hi == 0 { return self.lit(t) } let k = self.r.us(hi); let a = self.bx(t, d1, env); Ex::Bin(o, a, Box::new(Ex::Lit(Val::N(p2(k)), t.clone())), t.clone(), t.clone()) }
                        else { let a = vec![self.expr(t, d1, env), self.expr(t, d1, env)]; Ex::Fun(o, a, t.clone(), t.clone()) } }
                    19 if w == 1 && !sg => { let a = vec![self.tlet(&Ty::B, d1, env)]; Ex::Fun("as_uint", a, Ty::B, t.clone()) }
                    _ => self.lit(t),
                }
            }
        }
    }
    fn eq_ty(&mut self) -> Ty { match self.r.below(4) { 0 => Ty::B, 1 => { let n = 1 + self.r.us(4); Ty::A(Box::new(self.scalar()), n) } 2 => { let n = 2 + self.r.us(3); Ty::T((0..n).map(|_| self.scalar()).collect()) } _ => self.num_ty() } }
}
pub fn irref(p: &Pat) -> bool { match p { Pat::Wild | Pat::Bind(_) => true, Pat::At(_, q) => irref(q), Pat::Tup(v) | Pat::Arr(v) | Pat::Struct(_, v, _) => v.iter().all(irref), _ => false } }

// ---------------------------------------------------------------- differential runner
pub fn module<'a>(mods: &'a [crate::vlog::Module], name: &str) -> Option<&'a crate::vlog::Module> { let s = format!("::{name}"); mods.iter().find(|m| m.name == name || m.name.trim().ends_with(&s)) }
pub fn fill_x(r: &mut Rng, b: Bv) -> Bv { Bv(b.0.into_iter().map(|x| if x >= 2 { r.below(2) as u8 } else { x }).collect()) }

/// Compiles one random program of `units` functions, simulates every function on `vecs` random
/// inputs, and reports any output bit that differs from the reference evaluation.
pub fn round(rep: &mut Rep, r: &mut Rng, cfg: &Cfg, units: usize, vecs: usize, passes: &[&str], key: &str) {
    let mut g = Gen::new(r, cfg.clone());
    if cfg.agg { g.defs() }
    let names = ["a", "b", "c", "d"];
    for k in 0..units {
        let np = 1 + g.r.us(4);
        let agg_in = k < 4 || g.r.chance(1, 4);
        let params: Vec<(String, Ty)> = (0..np).map(|i| (names[i].to_string(), if agg_in { g.any_ty(2) } else { g.scalar() })).collect();
        let ret = if g.r.chance(1, 3) { g.any_ty(2) } else { g.scalar() };
        g.fun(format!("u{k}"), params, ret);
    }
    let p = g.p;
    let t0 = std::time::Instant::now();
    let mut live: Vec<bool> = vec![true; p.funs.len()];
    let mut compiled = None;
    for _ in 0..4 {
        let mut lines = p.defs_text(); let base = lines.len();
        let ids: Vec<usize> = (0..p.funs.len()).filter(|i| live[*i]).collect();
        lines.extend(ids.iter().map(|i| p.fun_text(&p.funs[*i])));
        let src = lines.join("\n");
        let c = compile_opt(&src, true, passes);
        if let Some(e) = &c.panicked { rep.fail(&format!("{key}-panic"), format!("the compiler panics on a valid program: {e}"), src.clone()); if std::env::var("VH_SHOW").is_ok() { eprintln!("PANIC {e}\n{src}") } return }
        let el = error_lines(&c.diags);
        if c.ok && el.is_empty() { compiled = Some((c, src)); break }
        let mut any = false;
        for (l, m) in &el { if *l > base && l - base <= ids.len() { if live[ids[l - base - 1]] { live[ids[l - base - 1]] = false; any = true; rep.note("rejected"); if !m.contains("cannot produce zero size values") { rep.fail(&format!("{key}-rejected"), format!("a valid program is rejected: {m}"), format!("{}\n{}", lines[l - 1], src)) } if std::env::var("VH_SHOW").is_ok() { eprintln!("REJECT {m}: {}", lines[l - 1]) } } } else { rep.note("rejected-def") } }
        if !any { rep.note("compile-failed"); if std::env::var("VH_SHOW").is_ok() { eprintln!("FAILED {}", &c.diags[..c.diags.len().min(1500)]) } return }
        // functions calling a dropped one go too
        for i in 0..p.funs.len() { if live[i] && calls(&p.funs[i].body).iter().any(|j| !live[*j]) { live[i] = false } }
    }
    if std::env::var("VH_TIME").is_ok() { if t0.elapsed().as_secs() > 3 { std::fs::write("/tmp/slow.spade", p.defs_text().into_iter().chain(p.funs.iter().map(|f| p.fun_text(f))).collect::<Vec<_>>().join("\n")).unwrap() } eprintln!("compiled {:?} {} bytes", t0.elapsed(), compiled.as_ref().map(|c| c.0.verilog.len()).unwrap_or(0)) }
    let Some((c, _)) = compiled else { rep.note("compile-failed"); return };
    let mods = match crate::vlog::parse(&c.verilog) { Ok(m) => m, Err(e) => { rep.fail(&format!("{key}-text"), format!("generated Verilog cannot be parsed: {e}"), p.defs_text().join("\n") + "\n" + &p.funs.iter().map(|f| p.fun_text(f)).collect::<Vec<_>>().join("\n")); return } };
    for i in 0..p.funs.len() {
        if !live[i] { continue }
        let f = &p.funs[i];
        let Some(m) = module(&mods, &f.name) else { rep.note("no-module"); continue };
        let ft = p.fun_text(f);
        let full = || { let mut need = vec![i]; let mut q = vec![i]; while let Some(j) = q.pop() { for c in calls(&p.funs[j].body) { if !need.contains(&c) { need.push(c); q.push(c) } } } need.sort(); format!("{}\n{}", p.defs_text().join("\n"), need.iter().map(|j| p.fun_text(&p.funs[*j])).collect::<Vec<_>>().join("\n")) };
        rep.case(&ft, true);
        let mut s = match crate::vlog::Sim::new(&mods, &m.name) { Ok(s) => s, Err(e) => { rep.fail(&format!("{key}-elab"), format!("generated Verilog for `{ft}` is ill-formed: {e}"), full()); continue } };
        if let Some(e) = s.errors.first() { rep.fail(&format!("{key}-elab"), format!("generated Verilog for `{ft}` is ill-formed: {e}"), full()); continue }
        for _ in 0..vecs {
            let vals: Vec<Val> = f.params.iter().map(|x| p.rand_val(r, &x.1)).collect();
            let env: HashMap<String, Val> = f.params.iter().map(|x| x.0.clone()).zip(vals.iter().cloned()).collect();
            let mut bad = None;
            for (x, v) in f.params.iter().zip(&vals) { let b = fill_x(r, p.encode(&x.1, v)); if b.w() > 0 { if let Err(e) = s.set(&format!("{}_i", x.0), b) { bad = Some(e) } } }
            let Some(want) = p.eval(&f.body, &env) else { rep.note("undefined"); continue };
            let want = p.encode(&f.ret, &want);
            if want.w() == 0 { continue }
            let res = match bad { Some(e) => Err(e), None => s.settle().and_then(|_| s.get("output__")) };
            match res {
                Err(e) => { rep.fail(&format!("{key}-sim"), format!("`{ft}` cannot be simulated: {e}"), full()); break }
                Ok(got) => if !want.refines(&got) { rep.fail(key, format!("`{ft}` with {:?} gives {} but its value is {}", f.params.iter().zip(&vals).map(|(p, v)| format!("{}={}", p.0, show(v))).collect::<Vec<_>>(), got.str(), want.str()), full()); break },
            }
        }
    }
}
pub fn show(v: &Val) -> String { match v { Val::N(n) => n.to_string(), Val::B(b) => b.to_string(), Val::L(v) => format!("({})", v.iter().map(show).collect::<Vec<_>>().join(",")), Val::E(k, v) => format!("V{k}({})", v.iter().map(show).collect::<Vec<_>>().join(",")) } }
pub fn calls(e: &Ex) -> Vec<usize> {
    let mut o = vec![]; walk(e, &mut |e| if let Ex::Call(i, ..) = e { o.push(*i) }); o
}
pub fn walk(e: &Ex, f: &mut dyn FnMut(&Ex)) {
    f(e);
    match e {
        Ex::Var(_) | Ex::Lit(..) => {}
        Ex::Bin(_, a, b, ..) | Ex::Idx(a, b, _) | Ex::Let(_, _, a, b) => { walk(a, f); walk(b, f) }
        Ex::Un(_, a, _) | Ex::TupIdx(a, _) | Ex::ArrRep(a, _) | Ex::Range(a, ..) | Ex::Field(a, ..) => walk(a, f),
        Ex::Fun(_, v, ..) | Ex::Tup(v) | Ex::Arr(v) | Ex::Struct(_, v, _) | Ex::Enum(_, _, v, _) | Ex::Call(_, v, _) => for x in v { walk(x, f) },
        Ex::If(a, b, c) => { walk(a, f); walk(b, f); walk(c, f) }
        Ex::Match(s, v) => { walk(s, f); for x in v { walk(&x.1, f) } }
    }
}
