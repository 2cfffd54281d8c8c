//! C12: random mid-level units (aliases, compound and enum registers, resets, initial values, repeated
//! bindings) simulated as written and after every combination of rewrites.
use crate::mirb::*;
use crate::util::*;
use crate::vlog::{Bv, Sim};
use spade_common::id_tracker::ExprIdTracker;
use spade_common::location_info::Loc;
use spade_mir::passes::{deduplicate_mut_wires::DeduplicateMutWires, mir_passes, MirPass};
use spade_mir::types::Type;
use spade_mir::{ConstantValue, Entity, Operator, Statement, ValueName};

#[derive(Clone)]
struct It { n: ValueName, t: Type, /// all of the value may be compared
    plain: bool }
struct G<'a> { r: &'a mut Rng, st: Vec<Loc<Statement>>, it: Vec<It>, id: u64, nid: u64 }
fn leaf(t: &Type) -> bool { matches!(t, Type::Bool | Type::Int(_) | Type::UInt(_)) }
fn has_enum(t: &Type) -> bool { match t { Type::Enum(_) => true, Type::Tuple(v) => v.iter().any(has_enum), Type::Struct(v) => v.iter().any(|x| has_enum(&x.1)), Type::Array { inner, .. } => has_enum(inner), _ => false } }
impl<'a> G<'a> {
    fn ty(&mut self, d: usize) -> Type {
        let k = if d == 0 { self.r.us(3) } else { self.r.us(9) };
        match k {
            0 => Type::Bool,
            1 => Type::UInt(u(1 + self.r.us(6))),
            2 => if self.r.chance(1, 8) { Type::Tuple(vec![]) } else { Type::Int(u(1 + self.r.us(6))) },
            3 | 4 => Type::Tuple((0..1 + self.r.us(3)).map(|_| self.ty(d - 1)).collect()),
            5 => Type::Struct((0..1 + self.r.us(3)).map(|i| (format!("f{i}"), self.ty(d - 1))).collect()),
            6 => Type::Array { inner: Box::new(self.ty(d - 1)), length: u(1 + self.r.us(3)) },
            7 => Type::Enum(vec![vec![], (0..self.r.us(3)).map(|_| self.ty(d - 1)).collect()]),
            _ => Type::Enum((0..1 + self.r.us(3)).map(|_| (0..self.r.us(3)).map(|_| self.ty(d - 1)).collect()).collect()),
        }
    }
    fn name(&mut self) -> ValueName {
        if self.r.chance(1, 2) { self.id += 1; e(self.id) } else { self.nid += 1; n(self.nid, ["a", "b", "v"][self.r.us(3)]) }
    }
    fn add(&mut self, t: Type, op: Operator, ops: Vec<ValueName>) -> ValueName {
        let nm = self.name();
        self.st.push(bind(nm.clone(), t.clone(), op, ops));
        let plain = !has_enum(&t);
        self.it.push(It { n: nm.clone(), t, plain });
        nm
    }
    fn of(&mut self, t: &Type) -> Option<ValueName> { let c: Vec<ValueName> = self.it.iter().filter(|i| i.t == *t).map(|i| i.n.clone()).collect(); if c.is_empty() { None } else { Some(self.r.pick(&c).clone()) } }
    /// a value of the type: an existing one or a new one built for it
    fn make(&mut self, t: &Type) -> ValueName {
        if self.r.chance(2, 3) { if let Some(n) = self.of(t) { return n } }
        match t {
            Type::Bool | Type::Int(_) | Type::UInt(_) => {
                let nm = self.name();
                let c = if let Type::Bool = t { ConstantValue::Bool(self.r.chance(1, 2)) } else { let w = fb(t).0; ConstantValue::int((self.r.below(1 << w.min(6)) >> 1) as i32) };
                self.st.push(konst(nm.clone(), t.clone(), c));
                self.it.push(It { n: nm.clone(), t: t.clone(), plain: true });
                nm
            }
            Type::Tuple(v) => { let ops = v.iter().map(|t| self.make(t)).collect(); self.add(t.clone(), Operator::ConstructTuple, ops) }
            Type::Struct(v) => { let ops = v.iter().map(|t| self.make(&t.1)).collect(); self.add(t.clone(), Operator::ConstructTuple, ops) }
            Type::Array { inner, length } => { let ops = (0..us(length)).map(|_| self.make(inner)).collect(); self.add(t.clone(), Operator::ConstructArray, ops) }
            Type::Enum(vs) => { let k = self.r.us(vs.len()); let ops = vs[k].iter().map(|t| self.make(t)).collect(); self.add(t.clone(), Operator::ConstructEnum { variant: k }, ops) }
            _ => unreachable!(),
        }
    }
    /// statements that build a constant of the type
    fn init(&mut self, t: &Type, st: &mut Vec<Loc<Statement>>) -> ValueName {
        let (ts, op) = match t {
            Type::Tuple(v) => (v.clone(), Operator::ConstructTuple),
            Type::Struct(v) => (v.iter().map(|x| x.1.clone()).collect(), Operator::ConstructTuple),
            Type::Array { inner, length } => (vec![(**inner).clone(); us(length)], Operator::ConstructArray),
            _ => {
                self.id += 1;
                let c = if let Type::Bool = t { ConstantValue::Bool(self.r.chance(1, 2)) } else { ConstantValue::int((self.r.below(1 << fb(t).0.min(6)) >> 1) as i32) };
                st.push(konst(e(self.id), t.clone(), c));
                return e(self.id);
            }
        };
        let ops = ts.iter().map(|t| self.init(t, st)).collect();
        self.id += 1;
        let nm = e(self.id);
        st.push(bind(nm.clone(), t.clone(), op, ops));
        nm
    }
    /// look into an enum value: the tag, and a member where the variant has it
    fn read(&mut self, it: &It) {
        let Type::Enum(vs) = &it.t else { return };
        let full: Vec<usize> = (0..vs.len()).filter(|k| !vs[*k].is_empty()).collect();
        let k = if !full.is_empty() && self.r.chance(3, 4) { *self.r.pick(&full) } else { self.r.us(vs.len()) };
        let tag = self.add(Type::Bool, Operator::IsEnumVariant { variant: k }, vec![it.n.clone()]);
        if !vs[k].is_empty() {
            let m = self.r.us(vs[k].len());
            let t = vs[k][m].clone();
            self.id += 1;
            let raw = e(self.id);
            self.st.push(bind(raw.clone(), t.clone(), Operator::EnumMember { variant: k, member_index: m }, vec![it.n.clone()]));
            let other = self.make(&t);
            self.add(t, Operator::Select, vec![tag, raw, other]);
        }
    }
    fn step(&mut self) {
        let it = { let k = self.r.us(self.it.len()); self.it[k].clone() };
        match self.r.below(12) {
            0 | 1 | 2 => { self.add(it.t, Operator::Alias, vec![it.n]); }
            3 | 4 => match &it.t {
                Type::Tuple(v) if !v.is_empty() => { let k = self.r.us(v.len()); self.add(v[k].clone(), Operator::IndexTuple(k as u64), vec![it.n]); }
                Type::Struct(v) => { let k = self.r.us(v.len()); self.add(v[k].1.clone(), Operator::IndexTuple(k as u64), vec![it.n]); }
                Type::Enum(_) => self.read(&it),
                Type::Bool => { let o = self.make(&Type::Bool); let op = [Operator::LogicalAnd, Operator::LogicalOr, Operator::LogicalXor][self.r.us(3)].clone(); self.add(Type::Bool, op, vec![it.n, o]); }
                Type::Int(_) | Type::UInt(_) => { let o = self.make(&it.t); self.add(it.t, Operator::BitwiseXor, vec![it.n, o]); }
                _ => {}
            },
            5 | 6 => { let t = self.ty(2); self.make(&t); }
            7 => { let c = self.make(&Type::Bool); let o = self.make(&it.t); self.add(it.t, Operator::Select, vec![c, it.n, o]); }
            8 if !self.st.is_empty() => {
                // the same binding again under another name
                let k = self.r.us(self.st.len());
                if let Statement::Binding(b) = &self.st[k].inner { if !matches!(b.operator, Operator::EnumMember { .. }) { let b = b.clone(); self.add(b.ty, b.operator, b.operands.into_iter().map(|o| o.inner).collect()); } }
            }
            _ => {
                let t = if self.r.chance(1, 2) { it.t.clone() } else { self.ty(2) };
                let nm = self.name();
                let this = It { n: nm.clone(), t: t.clone(), plain: !has_enum(&t) };
                let fb_before = self.r.chance(1, 4);
                if fb_before { self.it.push(this.clone()) }
                // a register that may keep its value
                let v = self.make(&t);
                let v = if fb_before && self.r.chance(1, 2) { let c = self.make(&Type::Bool); self.add(t.clone(), Operator::Select, vec![c, v, nm.clone()]) } else { v };
                let reset = if self.r.chance(1, 2) { let c = if self.r.chance(1, 2) { n(2, "rst") } else { self.make(&Type::Bool) }; Some((c, self.make(&t))) } else { None };
                let initial = if !has_enum(&t) && self.r.chance(1, 3) { let mut st = vec![]; self.init(&t, &mut st); Some(st) } else { None };
                self.st.push(reg(nm, t, n(1, "clk"), reset, initial, v));
                if !fb_before { self.it.push(this.clone()) }
                if self.r.chance(3, 4) { self.read(&this) }
            }
        }
    }
}
fn unit(r: &mut Rng) -> Entity {
    let mut g = G { r, st: vec![], it: vec![], id: 0, nid: 20 };
    let mut ins = vec![input("clk", n(1, "clk"), Type::Bool), input("rst", n(2, "rst"), Type::Bool)];
    for (i, nm) in ["p", "q", "x", "y"].iter().enumerate() {
        let t = if i == 0 { Type::Bool } else { g.ty(2) };
        let t = if has_bad_padding(&t) { Type::UInt(u(4)) } else { t };
        ins.push(input(nm, n(3 + i as u64, nm), t.clone()));
        g.it.push(It { n: n(3 + i as u64, nm), plain: !has_enum(&t), t });
    }
    g.it.push(It { n: n(2, "rst"), t: Type::Bool, plain: true });
    for _ in 0..4 + g.r.us(12) { g.step() }
    let mut c: Vec<It> = g.it.iter().filter(|i| i.plain).cloned().collect();
    g.r.shuffle(&mut c);
    c.truncate(5 + g.r.us(8));
    let (out, ot) = if g.r.chance(1, 5) { let i = c[0].clone(); (i.n, i.t) } else {
        let t = Type::Tuple(c.iter().map(|i| i.t.clone()).collect());
        g.id += 1;
        let o = e(g.id);
        g.st.push(bind(o.clone(), t.clone(), Operator::ConstructTuple, c.iter().map(|i| i.n.clone()).collect()));
        (o, t)
    };
    let st = std::mem::take(&mut g.st);
    entity("u", ins, out, ot, st)
}
/// tags that encode no variant: inputs would have to avoid them
fn has_bad_padding(t: &Type) -> bool { match t { Type::Enum(v) => !v.len().is_power_of_two() || v.iter().flatten().any(has_bad_padding), Type::Tuple(v) => v.iter().any(has_bad_padding), Type::Struct(v) => v.iter().any(|x| has_bad_padding(&x.1)), Type::Array { inner, .. } => has_bad_padding(inner), _ => false } }

fn show(e: &Entity) -> String { format!("{e}") }
fn compare(rep: &mut Rep, what: &str, ent: &Entity, a: &str, b: &str, seed: u64) -> bool {
    let w = fb(&ent.output_type).0;
    if w == 0 { return true }
    let mut sa = match sim(a) { Ok(s) => s, Err(x) => { rep.note(&format!("unsupported: {}", &x[..x.len().min(60)])); return true } };
    let mut sb: Sim = match sim(b) { Ok(s) => s, Err(x) => { rep.fail("rewrite-elab", format!("after {what} the Verilog is ill-formed: {x}\n{b}"), show(ent)); return false } };
    let mut r = Rng::new(seed);
    let mut log = String::new();
    for t in 0..10 {
        for i in &ent.inputs {
            if i.name == "clk" { continue }
            let w = fb(&i.ty).0;
            if w == 0 { continue }
            let v = if i.name == "rst" { Bv(vec![(t == 1 || r.chance(1, 4)) as u8]) } else { r.bits(w) };
            log += &format!("{}={} ", i.name, v.str());
            let p = format!("{}_i", i.name);
            let _ = sa.set(&p, v.clone()); let _ = sb.set(&p, v);
        }
        log += "| ";
        let (ga, gb) = (sa.settle().and_then(|_| sa.get("output__")), sb.settle().and_then(|_| sb.get("output__")));
        match (ga, gb) {
            (Ok(x), Ok(y)) => { if !x.refines(&y) { rep.fail("rewrite-value", format!("after {what} the unit outputs {} in cycle {t} instead of {} (inputs {log})\nbefore:\n{a}\nafter:\n{b}", y.str(), x.str()), show(ent)); return false } }
            (Err(_), _) => return true,
            (_, Err(x)) => { rep.fail("rewrite-sim", format!("after {what} the unit cannot be simulated: {x}\n{b}"), show(ent)); return false }
        }
        if let Err(_) = sa.cycle("clk_i") { return true }
        if let Err(x) = sb.cycle("clk_i") { rep.fail("rewrite-sim", format!("after {what} the unit cannot be simulated: {x}"), show(ent)); return false }
    }
    true
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "a generated mid-level unit with at least one register or alias, simulated as written and after a combination of rewrites".into();
    let mut r = Rng::new(seed);
    let passes = mir_passes();
    let dedup = DeduplicateMutWires {};
    let mut names: Vec<&str> = passes.keys().copied().collect();
    names.sort();
    while rep.time_left() {
        let ent = unit(&mut r);
        rep.cur(&show(&ent));
        rep.case(&show(&ent), ent.statements.iter().any(|s| matches!(&s.inner, Statement::Register(_)) || matches!(&s.inner, Statement::Binding(b) if b.operator == Operator::Alias)));
        let raw = match guard(|| code_raw(&ent)) { Ok(x) => x, Err(_) => { rep.note("raw-panic"); continue } };
        let s = r.next();
        // alias flattening and renaming alone
        match guard(|| code(&ent)) { Ok(b) => { if !compare(rep, "alias flattening", &ent, &raw, &b, s) { continue } } Err(x) => { rep.fail("rewrite-panic", format!("alias flattening panics: {x}"), show(&ent)); continue } }
        let mut order: Vec<&dyn MirPass> = vec![];
        let mut what = vec![];
        for _ in 0..1 + r.us(2) {
            if r.chance(1, 3) { order.push(&dedup); what.push("DeduplicateMutWires") } else { let k = *r.pick(&names); order.push(&*passes[k]); what.push(k) }
        }
        let what = what.join(", ");
        let mut e2 = ent.clone();
        let tr = ExprIdTracker::new_at(1_000_000);
        let res = guard(|| { let mut st = ent.statements.clone(); for p in &order { st = p.transform_statements(&st, &tr) } st });
        match res { Ok(st) => e2.statements = st, Err(x) => { rep.fail("rewrite-panic", format!("{what} panics: {x}"), show(&ent)); continue } }
        let raw2 = r.chance(1, 2);
        match guard(|| if raw2 { code_raw(&e2) } else { code(&e2) }) { Ok(b) => { compare(rep, &what, &ent, &raw, &b, s); } Err(x) => rep.fail("rewrite-panic", format!("code generation after {what} panics: {x}"), show(&ent)) }
    }
}
