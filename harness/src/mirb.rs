//! building MIR entities and running the Verilog they generate
use crate::vlog::{self, Bv, Sim};
use num::BigUint;
use spade_common::id_tracker::ExprID;
use spade_common::location_info::{Loc, WithLocation};
use spade_mir::codegen::{entity_code, prepare_codegen, Codegenable};
use spade_mir::types::Type;
use spade_mir::unit_name::InstanceMap;
use spade_mir::{Binding, ConstantValue, Entity, MirInput, Operator, Register, Statement, UnitName, ValueName};

pub fn u(n: usize) -> BigUint { BigUint::from(n) }
pub fn us(b: &BigUint) -> usize { use num::ToPrimitive; b.to_usize().unwrap_or(usize::MAX) }
pub fn e(id: u64) -> ValueName { ValueName::Expr(ExprID(id)) }
pub fn n(id: u64, s: &str) -> ValueName { ValueName::_test_named(id, s.to_string()) }
pub fn bind(name: ValueName, ty: Type, operator: Operator, ops: Vec<ValueName>) -> Loc<Statement> {
    Statement::Binding(Binding { name: name.nowhere(), operator, operands: ops.into_iter().map(|o| o.nowhere()).collect(), ty, loc: None }).nowhere()
}
pub fn konst(name: ValueName, ty: Type, v: ConstantValue) -> Loc<Statement> { Statement::Constant(name.nowhere(), ty, v).nowhere() }
pub fn reg(name: ValueName, ty: Type, clock: ValueName, reset: Option<(ValueName, ValueName)>, initial: Option<Vec<Loc<Statement>>>, value: ValueName) -> Loc<Statement> {
    Statement::Register(Register { name: name.nowhere(), ty, clock: clock.nowhere(), reset: reset.map(|(a, b)| (a.nowhere(), b.nowhere())), initial, value: value.nowhere(), loc: None }).nowhere()
}
pub fn set(target: ValueName, value: ValueName) -> Loc<Statement> { Statement::Set { target: target.nowhere(), value: value.nowhere() }.nowhere() }
pub fn input(name: &str, v: ValueName, ty: Type) -> MirInput { MirInput { name: name.into(), val_name: v.nowhere(), ty, no_mangle: None } }
pub fn entity(name: &str, inputs: Vec<MirInput>, output: ValueName, output_type: Type, statements: Vec<Loc<Statement>>) -> Entity {
    Entity { name: UnitName::_test_from_strs(&[name]), inputs, output: output.nowhere(), output_type, verilog_attr_groups: vec![], statements, inline: false }
}
pub fn code(ent: &Entity) -> String { entity_code(&prepare_codegen(ent.clone()), &mut InstanceMap::new(), &None).0.to_string() }
/// generated text without alias flattening and renaming
pub fn code_raw(ent: &Entity) -> String { entity_code(&Codegenable(ent.clone()), &mut InstanceMap::new(), &None).0.to_string() }
/// parse + elaborate the text of one entity
pub fn sim(text: &str) -> Result<Sim, String> {
    let m = vlog::parse(text)?;
    let top = m.last().ok_or("no module")?.name.clone();
    let s = Sim::new(&m, &top)?;
    if let Some(x) = s.errors.first() { return Err(x.clone()) }
    Ok(s)
}
/// drive the named inputs, settle, read the outputs
pub fn run(s: &mut Sim, ins: &[(String, Bv)], outs: &[String]) -> Result<Vec<Bv>, String> {
    for (n, v) in ins { if v.w() > 0 { s.set(n, v.clone())? } }
    s.settle()?;
    outs.iter().map(|o| s.get(o)).collect()
}
use crate::prog::tagw;
use crate::util::Rng;
/// layout oracle, independent of spade_mir: (forward, backward) width
pub fn fb(t: &Type) -> (usize, usize) {
    let sum = |v: &mut dyn Iterator<Item = (usize, usize)>| v.fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1));
    match t {
        Type::Int(n) | Type::UInt(n) => (us(n), 0),
        Type::Bool => (1, 0),
        Type::Tuple(v) => sum(&mut v.iter().map(fb)),
        Type::Struct(v) => sum(&mut v.iter().map(|x| fb(&x.1))),
        Type::Array { inner, length } | Type::Memory { inner, length } => { let (a, b) = fb(inner); (a * us(length), b * us(length)) }
        Type::Enum(v) => (tagw(v.len()) + v.iter().map(|v| v.iter().map(|t| fb(t).0).sum::<usize>()).max().unwrap_or(0), 0),
        Type::Backward(i) => (0, fb(i).0),
        Type::CopyView(i) => (fb(i).0, 0),
        Type::InOut(i) => (fb(i).0, 0),
    }
}
pub fn gty(r: &mut Rng, d: usize, back: bool) -> Type {
    let k = r.below(if d == 0 { 4 } else { 10 });
    match k {
        0 | 1 => Type::UInt(u(if r.chance(1, 12) { 0 } else if r.chance(1, 3) { 1 } else { 1 + r.us(9) })),
        2 => Type::Int(u(1 + r.us(70))),
        3 => if back { Type::Backward(Box::new(gty(r, d.saturating_sub(1), false))) } else { Type::Bool },
        4 | 5 => Type::Tuple((0..{ r.us(5) }).map(|_| gty(r, d - 1, back)).collect()),
        6 => Type::Struct((0..r.us(5)).map(|i| (format!("f{i}"), gty(r, d - 1, back))).collect()),
        7 => Type::Array { inner: Box::new(gty(r, d - 1, back)), length: u(1 + r.us(5)) },
        8 => if back { Type::Backward(Box::new(gty(r, d - 1, false))) } else { Type::Bool },
        _ => { let big = if r.chance(1, 6) { 9 } else { 4 }; let n = 1 + r.us(big); Type::Enum((0..n).map(|_| { let m = r.us(4); (0..m).map(|_| gty(r, d - 1, false)).collect() }).collect()) }
    }
}
