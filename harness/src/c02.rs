//! C02: construct / project round trips.
use crate::mirb::*;
use crate::prog::*;
use crate::util::*;
use crate::vlog::Bv;
use num::ToPrimitive;
use spade_mir::types::Type;
use spade_mir::{ConstantValue, Operator};

fn members(t: &Type) -> Vec<Type> {
    match t { Type::Tuple(v) => v.clone(), Type::Struct(v) => v.iter().map(|x| x.1.clone()).collect(), Type::Array { inner, length } => vec![(**inner).clone(); length.to_usize().unwrap()], _ => panic!() }
}
const OUT: &[(&str, usize)] = &[];

/// members -> aggregate -> members, in both directions
fn roundtrip(rep: &mut Rep, r: &mut Rng, agg: &Type, mode: u8) {
    let ms = members(agg);
    if ms.is_empty() { return }
    let k = ms.len();
    let is_arr = matches!(agg, Type::Array { .. });
    let inputs = (0..k).map(|i| input(&format!("m{i}"), n(0, &format!("m{i}")), ms[i].clone())).collect();
    let mut st = vec![bind(e(0), agg.clone(), if is_arr { Operator::ConstructArray } else { Operator::ConstructTuple }, (0..k).map(|i| n(0, &format!("m{i}"))).collect())];
    let mode = if is_arr && mode != 2 { 1 } else { mode };
    let copy = mode == 3;
    if copy { st.push(bind(e(1), Type::CopyView(Box::new(agg.clone())), Operator::ConstructCopyView, vec![e(0)])) }
    let src = if copy { e(1) } else { e(0) };
    // (projection value id, first member, count)
    let mut proj: Vec<(u64, usize, usize)> = vec![];
    match mode {
        1 if is_arr => for i in 0..k {
            let iw = idx_w(k).max(1);
            st.push(konst(e(100 + i as u64), Type::UInt(u(iw)), ConstantValue::int(i as i32)));
            st.push(bind(e(200 + i as u64), ms[i].clone(), Operator::IndexArray, vec![src.clone(), e(100 + i as u64)]));
            proj.push((200 + i as u64, i, 1));
        },
        2 if is_arr => {
            let mut a = 0;
            while a < k {
                let b = a + 1 + r.us(k - a);
                let Type::Array { inner, .. } = agg else { panic!() };
                st.push(bind(e(200 + a as u64), Type::Array { inner: inner.clone(), length: u(b - a) }, Operator::RangeIndexArray { start: u(a), end_exclusive: u(b) }, vec![src.clone()]));
                proj.push((200 + a as u64, a, b - a));
                a = b;
            }
        }
        _ => for i in 0..k {
            let t = if copy { Type::CopyView(Box::new(ms[i].clone())) } else { ms[i].clone() };
            st.push(bind(e(200 + i as u64), t, Operator::IndexTuple(i as u64), vec![src.clone()]));
            proj.push((200 + i as u64, i, 1));
        },
    }
    st.push(konst(e(999), Type::Bool, ConstantValue::Bool(true)));
    let ent = entity("top", inputs, e(999), Type::Bool, st);
    let desc = format!("construct {agg} then project (mode {mode}{}) [{:?}]", if proj.len() < k { format!(", ranges {:?}", proj.iter().map(|p| (p.1, p.1 + p.2)).collect::<Vec<_>>()) } else { String::new() }, OUT.len());
    let (fw, bw) = fb(agg);
    rep.case(&desc, fw + bw > 1 && k > 1);
    let text = match guard(|| code_raw(&ent)) { Ok(t) => t, Err(x) => return rep.fail("mir-roundtrip", format!("code generation panicked: {x}"), desc) };
    let mut s = match sim(&text) { Ok(s) => s, Err(x) => return rep.fail("mir-roundtrip", format!("generated Verilog is ill formed: {x}"), format!("{desc}\n{text}")) };
    let go = |s: &mut crate::vlog::Sim, r: &mut Rng| -> Result<(), String> {
        let fv: Vec<Bv> = ms.iter().map(|t| r.bits(fb(t).0)).collect();
        for (i, v) in fv.iter().enumerate() { if v.w() > 0 { s.set(&format!("m{i}_i"), v.clone())? } }
        let mut bv: Vec<Bv> = vec![];
        for (id, a, c) in &proj {
            let parts: Vec<Bv> = (0..*c).map(|j| r.bits(if copy { 0 } else { fb(&ms[a + j]).1 })).collect();
            let all = Bv::concat_msb(&parts.iter().rev().cloned().collect::<Vec<_>>());
            if all.w() > 0 { s.set(&format!("_e_{id}_mut"), all)? }
            bv.extend(parts);
        }
        s.settle()?;
        for (id, a, c) in &proj {
            let exp = Bv::concat_msb(&(0..*c).rev().map(|j| fv[a + j].clone()).collect::<Vec<_>>());
            if exp.w() > 0 { let got = s.get(&format!("_e_{id}"))?; if got != exp { return Err(format!("member {a}..{} holds {} instead of {}", a + c, got.str(), exp.str())) } }
        }
        for (i, v) in bv.iter().enumerate() {
            if v.w() > 0 { let got = s.get(&format!("m{i}_o"))?; if got != *v { return Err(format!("backward bits of member {i} are {} instead of {}", got.str(), v.str())) } }
        }
        Ok(())
    };
    for _ in 0..3 {
        if let Err(x) = go(&mut s, r) { return rep.fail("mir-roundtrip", x, format!("{desc}\n{text}")) }
    }
}
/// dynamic array index
fn dyn_index(rep: &mut Rep, r: &mut Rng, inner: &Type, k: usize) {
    let w = fb(inner).0;
    if w == 0 { return }
    let agg = Type::Array { inner: Box::new(inner.clone()), length: u(k) };
    let iw = idx_w(k);
    let ent = entity("top", vec![input("a", n(0, "a"), agg.clone()), input("i", n(0, "i"), Type::UInt(u(iw)))], e(1), inner.clone(), vec![bind(e(1), inner.clone(), Operator::IndexArray, vec![n(0, "a"), n(0, "i")])]);
    let desc = format!("index {agg} with every index");
    rep.case(&desc, k > 1);
    let text = match guard(|| code_raw(&ent)) { Ok(t) => t, Err(x) => return rep.fail("mir-index", format!("code generation panicked: {x}"), desc) };
    let mut s = match sim(&text) { Ok(s) => s, Err(x) => return rep.fail("mir-index", format!("generated Verilog is ill formed: {x}"), format!("{desc}\n{text}")) };
    let v = r.bits(w * k);
    for i in 0..k {
        let res = (|| { s.set("a_i", v.clone())?; s.set("i_i", Bv::from_u(&u(i), iw))?; s.settle()?; s.get("output__") })();
        match res { Ok(g) if g == v.slice((i * w) as i128, w) => {} o => return rep.fail("mir-index", format!("element {i} of {} reads {o:?}", v.str()), format!("{desc}\n{text}")) }
    }
}
fn enum_round(rep: &mut Rep, r: &mut Rng, vs: &[Vec<Type>]) {
    let ty = Type::Enum(vs.to_vec());
    if fb(&ty).0 == 0 { return }
    for (vi, ms) in vs.iter().enumerate() {
        let inputs = ms.iter().enumerate().map(|(i, t)| input(&format!("m{i}"), n(0, &format!("m{i}")), t.clone())).collect();
        let mut st = vec![bind(e(0), ty.clone(), Operator::ConstructEnum { variant: vi }, (0..ms.len()).map(|i| n(0, &format!("m{i}"))).collect())];
        for j in 0..vs.len() { st.push(bind(e(100 + j as u64), Type::Bool, Operator::IsEnumVariant { variant: j }, vec![e(0)])) }
        for (i, t) in ms.iter().enumerate() { st.push(bind(e(200 + i as u64), t.clone(), Operator::EnumMember { variant: vi, member_index: i }, vec![e(0)])) }
        let ent = entity("top", inputs, e(0), ty.clone(), st);
        let desc = format!("construct variant {vi} of {ty}, test every variant, read every member");
        rep.case(&desc, !ms.is_empty());
        let text = match guard(|| code_raw(&ent)) { Ok(t) => t, Err(x) => { rep.fail("mir-enum", format!("code generation panicked: {x}"), desc); continue } };
        let mut s = match sim(&text) { Ok(s) => s, Err(x) => { rep.fail("mir-enum", format!("generated Verilog is ill formed: {x}"), format!("{desc}\n{text}")); continue } };
        let mut go = || -> Result<(), String> {
            let fv: Vec<Bv> = ms.iter().map(|t| r.bits(fb(t).0)).collect();
            for (i, v) in fv.iter().enumerate() { if v.w() > 0 { s.set(&format!("m{i}_i"), v.clone())? } }
            s.settle()?;
            for j in 0..vs.len() { let g = s.get(&format!("_e_{}", 100 + j))?; if g != Bv(vec![(j == vi) as u8]) { return Err(format!("test for variant {j} gives {}", g.str())) } }
            for (i, v) in fv.iter().enumerate() { if v.w() > 0 { let g = s.get(&format!("_e_{}", 200 + i))?; if g != *v { return Err(format!("member {i} holds {} instead of {}", g.str(), v.str())) } } }
            Ok(())
        };
        for _ in 0..2 { if let Err(x) = go() { rep.fail("mir-enum", x, format!("{desc}\n{text}")); break } }
    }
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "an aggregate of at least two bits and two members (MIR level), or a compiled program whose function returned the expected value (end to end)".into();
    let mut r = Rng::new(seed);
    // small shapes first: every combination of member widths 0,1,2,3 up to three members, forward and backward
    let base: Vec<Type> = [0usize, 1, 2, 3].iter().flat_map(|w| vec![Type::UInt(u(*w)), Type::Backward(Box::new(Type::UInt(u(*w)))), Type::Tuple(vec![Type::UInt(u(*w)), Type::Backward(Box::new(Type::UInt(u((*w + 1) % 3))))])]).collect();
    for a in &base { for b in &base {
        roundtrip(rep, &mut r, &Type::Tuple(vec![a.clone(), b.clone()]), 0);
        for c in base.iter().take(6) { roundtrip(rep, &mut r, &Type::Tuple(vec![c.clone(), a.clone(), b.clone()]), 0); }
    } roundtrip(rep, &mut r, &Type::Struct(vec![("a".into(), a.clone())]), 0);
      for k in 1..5 { for m in 0..3 { roundtrip(rep, &mut r, &Type::Array { inner: Box::new(a.clone()), length: u(k) }, m) } dyn_index(rep, &mut r, a, k) } }
    let fw: Vec<Type> = [0usize, 1, 2, 3].iter().map(|w| Type::UInt(u(*w))).collect();
    for a in &fw {
        enum_round(rep, &mut r, &[vec![a.clone()]]);
        for b in &fw {
            enum_round(rep, &mut r, &[vec![a.clone(), b.clone()]]);
            enum_round(rep, &mut r, &[vec![a.clone()], vec![b.clone()]]);
            for c in &fw { enum_round(rep, &mut r, &[vec![a.clone(), b.clone()], vec![c.clone()]]); enum_round(rep, &mut r, &[vec![a.clone(), b.clone(), c.clone()]]); enum_round(rep, &mut r, &[vec![a.clone()], vec![b.clone()], vec![c.clone()]]) }
        }
    }
    for m in 1..20 { enum_round(rep, &mut r, &(0..m).map(|i| if i % 3 == 0 { vec![Type::UInt(u(i))] } else { vec![] }).collect::<Vec<_>>()) }
    let cfg = Cfg { depth: 4, ops: false, agg: true, max_w: 40, div: false, array_fns: true };
    for i in 0..1000000 {
        if !rep.time_left() { break }
        for _ in 0..60 {
            let t = gty(&mut r, 3, true);
            match &t {
                Type::Enum(v) => enum_round(rep, &mut r, v),
                Type::Array { inner, length } => { let m = r.below(4) as u8; roundtrip(rep, &mut r, &t, m); if i % 4 == 0 { dyn_index(rep, &mut r, inner, us(length)) } }
                Type::Tuple(_) | Type::Struct(_) => { let m = if r.chance(1, 5) { 3 } else { 0 }; roundtrip(rep, &mut r, &t, m) }
                _ => {}
            }
        }
        ports(rep, &mut r, 12);
        round(rep, &mut r, &cfg, 25, 6, &[], "e2e"); rep.note("rounds")
    }
}

// ------------------------------------------------------------------ ports end to end
#[derive(Clone, Debug)]
enum Pt { F(Ty), I(Ty), T(Vec<Pt>), S(usize), A(Box<Pt>, usize) }
struct PG<'a> { r: &'a mut Rng, p: Prog, st: Vec<Vec<Pt>>, fresh: usize }
impl<'a> PG<'a> {
    fn leaf(&mut self) -> Ty { match self.r.below(4) { 0 => Ty::B, 1 => Ty::T(vec![Ty::U(1 + self.r.us(3)), Ty::B]), 2 => Ty::U(1), _ => Ty::U(1 + self.r.us(6)) } }
    fn pt(&mut self, d: usize) -> Pt {
        let k = self.r.below(if d == 0 { 5 } else { 11 });
        match k {
            0 | 1 => Pt::F(self.leaf()), 2..=4 => Pt::I(self.leaf()),
            5 | 6 => { let n = 2 + self.r.us(3); Pt::T((0..n).map(|_| self.pt(d - 1)).collect()) }
            7 | 8 if !self.st.is_empty() => Pt::S(self.r.us(self.st.len())),
            _ => { let n = 1 + self.r.us(3); Pt::A(Box::new(self.pt(d - 1)), n) }
        }
    }
    fn ty(&self, t: &Pt) -> String {
        match t { Pt::F(t) => self.p.ty(t), Pt::I(t) => format!("inv {}", self.p.ty(t)), Pt::T(v) => format!("({})", v.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")), Pt::S(i) => format!("P{i}"), Pt::A(t, n) => format!("[{}; {n}]", self.ty(t)) }
    }
    fn leaves(&self, t: &Pt, o: &mut Vec<Pt>) { match t { Pt::T(v) => for x in v { self.leaves(x, o) }, Pt::S(i) => for x in &self.st[*i] { self.leaves(x, o) }, Pt::A(t, n) => for _ in 0..*n { self.leaves(t, o) }, t => o.push(t.clone()) } }
    fn nm(&mut self) -> String { self.fresh += 1; format!("x{}", self.fresh) }
    fn build(&mut self, t: &Pt, next: &mut Vec<String>) -> String {
        match t {
            Pt::T(v) => format!("({})", v.iter().map(|t| self.build(t, next)).collect::<Vec<_>>().join(", ")),
            Pt::A(t, n) => format!("[{}]", (0..*n).map(|_| self.build(t, next)).collect::<Vec<_>>().join(", ")),
            Pt::S(i) => { let f = self.st[*i].clone(); let x: Vec<String> = f.iter().map(|t| self.build(t, next)).collect(); if self.r.chance(1, 2) { format!("P{i}({})", x.join(", ")) } else { let mut y: Vec<String> = x.iter().enumerate().map(|(k, e)| format!("f{k}: {e}")).collect(); y.reverse(); format!("P{i}$({})", y.join(", ")) } }
            _ => next.remove(0),
        }
    }
    fn take(&mut self, path: &str, t: &Pt, lines: &mut Vec<String>, out: &mut Vec<String>) {
        let pat = self.r.chance(1, 3);
        match t {
            Pt::T(v) => if pat { let xs: Vec<String> = v.iter().map(|_| self.nm()).collect(); lines.push(format!("let ({}) = {path};", xs.join(", "))); for (x, t) in xs.iter().zip(v) { self.take(x, t, lines, out) } }
                else { for (i, t) in v.iter().enumerate() { self.take(&format!("{path}.{i}"), t, lines, out) } },
            Pt::S(i) => { let v = self.st[*i].clone(); if pat { let xs: Vec<String> = v.iter().map(|_| self.nm()).collect(); let named = self.r.chance(1, 2); lines.push(if named { format!("let P{i}$({}) = {path};", xs.iter().enumerate().rev().map(|(k, x)| format!("f{k}: {x}")).collect::<Vec<_>>().join(", ")) } else { format!("let P{i}({}) = {path};", xs.join(", ")) }); for (x, t) in xs.iter().zip(&v) { self.take(x, t, lines, out) } }
                else { for (i, t) in v.iter().enumerate() { self.take(&format!("{path}.f{i}"), t, lines, out) } } }
            Pt::A(t, n) => if pat { let xs: Vec<String> = (0..*n).map(|_| self.nm()).collect(); lines.push(format!("let [{}] = {path};", xs.join(", "))); for x in &xs { self.take(x, t, lines, out) } }
                else { let mut path = path.to_string(); if self.r.chance(1, 3) { let x = self.nm(); lines.push(format!("let {x} = {path}[0..{n}];")); path = x } for i in 0..*n { self.take(&format!("{path}[{i}]"), t, lines, out) } },
            _ => out.push(path.to_string()),
        }
    }
}
fn ports(rep: &mut Rep, r: &mut Rng, batch: usize) {
    let mut g = PG { r, p: Prog::default(), st: vec![], fresh: 0 };
    for _ in 0..3 { let n = 1 + g.r.us(3); let v = (0..n).map(|_| g.pt(1)).collect(); g.st.push(v) }
    let defs: Vec<String> = g.st.iter().enumerate().map(|(i, v)| format!("struct P{i} {{ {} }}", v.iter().enumerate().map(|(k, t)| format!("f{k}: {}", g.ty(t))).collect::<Vec<_>>().join(", "))).collect();
    let mut units: Vec<(Vec<Pt>, String)> = vec![];
    for k in 0..batch {
        let t = loop { let t = g.pt(3); if !matches!(t, Pt::F(_) | Pt::I(_)) { break t } };
        let mut ls = vec![]; g.leaves(&t, &mut ls);
        if ls.len() > 24 { continue }
        let params = |pre: &str| ls.iter().enumerate().map(|(i, t)| match t { Pt::F(t) | Pt::I(t) => format!("{pre}{i}: {}", g.p.ty(t)), _ => panic!() }).collect::<Vec<_>>();
        let inv: Vec<usize> = (0..ls.len()).filter(|i| matches!(ls[*i], Pt::I(_))).collect();
        let fwd: Vec<usize> = (0..ls.len()).filter(|i| matches!(ls[*i], Pt::F(_))).collect();
        let all = params("v");
        let lty = |i: usize| match &ls[i] { Pt::F(t) | Pt::I(t) => t.clone(), _ => panic!() };
        // sink
        let (mut lines, mut out) = (vec![], vec![]);
        g.take("p", &t, &mut lines, &mut out);
        for i in &inv { lines.push(format!("set {} = v{i};", out[*i])) }
        let rt: Vec<String> = fwd.iter().map(|i| g.p.ty(&lty(*i))).chain(["bool".into(), "bool".into()]).collect();
        let re: Vec<String> = fwd.iter().map(|i| out[*i].clone()).chain(["true".into(), "false".into()]).collect();
        let mut a = vec![format!("p: {}", g.ty(&t))]; a.extend(inv.iter().map(|i| all[*i].clone()));
        let sink = format!("entity sink{k}({}) -> ({}) {{ {} ({}) }}", a.join(", "), rt.join(", "), lines.join(" "), re.join(", "));
        // source
        let mut s = vec![];
        for i in &inv { s.push(format!("let (r{i}, i{i}) = port::<{}>();", g.p.ty(&lty(*i)))) }
        let mut next: Vec<String> = (0..ls.len()).map(|i| if inv.contains(&i) { format!("i{i}") } else { format!("v{i}") }).collect();
        let b = g.build(&t, &mut next);
        let mut args = vec![b]; args.extend(inv.iter().map(|i| format!("v{i}")));
        s.push(format!("let res = inst sink{k}({});", args.join(", ")));
        let src_ret: Vec<String> = ls.iter().map(|t| match t { Pt::F(t) | Pt::I(t) => g.p.ty(t), _ => panic!() }).chain(["bool".into()]).collect();
        let src_e: Vec<String> = (0..ls.len()).map(|i| if inv.contains(&i) { format!("r{i}") } else { format!("res.{}", fwd.iter().position(|x| *x == i).unwrap()) }).chain([format!("res.{}", fwd.len())]).collect();
        let src = format!("entity src{k}({}) -> ({}) {{ {} ({}) }}", all.join(", "), src_ret.join(", "), s.join(" "), src_e.join(", "));
        units.push((ls, format!("{sink}\n{src}")));
        let _ = k;
    }
    let text = format!("{}\n{}", defs.join("\n"), units.iter().map(|u| u.1.clone()).collect::<Vec<_>>().join("\n"));
    let c = compile_opt(&text, true, &[]);
    if let Some(e) = &c.panicked { return rep.fail("ports-panic", format!("the compiler panics on a valid program: {e}"), text) }
    if !c.ok { 
        let tl: Vec<&str> = text.lines().collect();
        let el = error_lines(&c.diags);
        if std::env::var("VH_SHOW").is_ok() { eprintln!("{}\n{text}", c.diags) }
        return rep.fail("ports-rejected", format!("a program that drives every inverted leaf exactly once is rejected: {}", el.first().map(|x| format!("{} in `{}`", x.1, tl.get(x.0 - 1).unwrap_or(&""))).unwrap_or(c.diags.chars().take(300).collect())), text) }
    let mods = match crate::vlog::parse(&c.verilog) { Ok(m) => m, Err(e) => return rep.fail("ports-text", format!("generated Verilog cannot be parsed: {e}"), text) };
    let p = Prog::default();
    for (ls, u) in &units {
        let name = u[u.find("\nentity src").unwrap() + 8..].split('(').next().unwrap().to_string();
        let Some(m) = module(&mods, &name) else { rep.note("no-module"); continue };
        rep.case(u, true);
        let full = format!("{}\n{u}", defs.join("\n"));
        let mut go = || -> Result<(), String> {
            let mut s = crate::vlog::Sim::new(&mods, &m.name)?;
            if let Some(e) = s.errors.first() { return Err(format!("ill-formed: {e}")) }
            for _ in 0..3 {
                let vals: Vec<Bv> = ls.iter().map(|t| match t { Pt::F(t) | Pt::I(t) => r.bits(p.width(t)), _ => panic!() }).collect();
                for (i, v) in vals.iter().enumerate() { s.set(&format!("v{i}_i"), v.clone())? }
                s.settle()?;
                let mut e = vals.clone(); e.push(Bv(vec![1]));
                let want = Bv::concat_msb(&e);
                let got = s.get("output__")?;
                if got != want { return Err(format!("leaves come back as {} instead of {}", got.str(), want.str())) }
            }
            Ok(())
        };
        if let Err(e) = go() { rep.fail("ports", e, full) }
    }
}
