//! C15: match_args_with_params against a direct reading of the rule (every name, order, duplicate,
//! default), and whole calls (functions, entities, pipelines, methods, structs, enum variants, patterns,
//! type parameters) whose outputs tell which argument reached which parameter.
use crate::util::*;
use crate::vlog::{self, Bv, Sim};
use num::BigInt;
use spade_common::location_info::{Loc, WithLocation};
use spade_common::name::{Identifier, NameID, Path};
use spade_hir::expression::NamedArgument;
use spade_hir::param_util::{match_args_with_params, ArgumentError, ArgumentKind};
use spade_hir::{ArgumentList, Generic, Parameter, ParameterList, Selfness, TypeExpression, TypeParam, TypeSpec};
use spade_types::meta_types::MetaType;

fn id(n: usize) -> Loc<Identifier> { Identifier::intern(&format!("p{n}")).nowhere() }

/// the parameter (by number) each argument is written for
#[derive(Debug, Clone)]
enum Args { Pos(usize), Named(Vec<(usize, bool)>) } // named: parameter number, shorthand
#[derive(Debug, PartialEq)]
enum Out { Bound(Vec<(usize, Option<usize>)>), TooMany, TooFew, NoSuch, Missing(Vec<usize>), Dup }

fn oracle(a: &Args, n: usize, defaults: &[bool]) -> Vec<Out> {
    match a {
        Args::Pos(k) => if *k > n { vec![Out::TooMany] } else if (*k..n).any(|i| !defaults[i]) { vec![Out::TooFew] } else { vec![Out::Bound((0..n).map(|i| (i, (i < *k).then_some(i))).collect())] },
        Args::Named(v) => {
            let mut o = vec![];
            if v.iter().any(|(p, _)| *p >= n) { o.push(Out::NoSuch) }
            if (0..v.len()).any(|i| v[..i].iter().any(|x| x.0 == v[i].0)) { o.push(Out::Dup) }
            if !o.is_empty() { return o }
            let miss: Vec<usize> = (0..n).filter(|i| !defaults[*i] && !v.iter().any(|x| x.0 == *i)).collect();
            if !miss.is_empty() { return vec![Out::Missing(miss)] }
            vec![Out::Bound((0..n).map(|i| (i, v.iter().position(|x| x.0 == i))).collect())]
        }
    }
}

fn api(rep: &mut Rep, a: &Args, n: usize, defaults: &[bool], is_method: bool) {
    let desc = format!("{n} parameters, defaults {defaults:?}, method {is_method}, arguments {a:?}");
    rep.case(&desc, n > 0);
    let val = |k: usize| TypeExpression::Integer(BigInt::from(100 + k)).nowhere();
    let dv = |k: usize| TypeExpression::Integer(BigInt::from(500 + k)).nowhere();
    let list = match a {
        Args::Pos(k) => ArgumentList::Positional((0..*k).map(val).collect()),
        Args::Named(v) => ArgumentList::Named(v.iter().enumerate().map(|(i, (p, s))| if *s { NamedArgument::Short(id(*p), val(i)) } else { NamedArgument::Full(id(*p), val(i)) }).collect()),
    }.nowhere();
    let want = oracle(a, n, defaults);
    // what the real function says, the same through both kinds of parameter list
    let read = |r: Result<Vec<(usize, &TypeExpression, ArgumentKind)>, ArgumentError>| -> Result<Out, String> {
        match r {
            Ok(v) => {
                let mut o = vec![];
                for (t, x, k) in v {
                    let TypeExpression::Integer(x) = x else { return Err("a value that was never passed".into()) };
                    let src = (0..40usize).find(|i| *x == BigInt::from(100 + i));
                    let kind = match k { ArgumentKind::Positional => 0, ArgumentKind::Named => 1, ArgumentKind::ShortNamed => 2, ArgumentKind::Default => 3 };
                    let wk = match (a, src) { (_, None) => 3, (Args::Pos(_), _) => 0, (Args::Named(v), Some(i)) => if v[i].1 { 2 } else { 1 } };
                    if kind != wk { return Err(format!("parameter p{t} is marked as the wrong kind of argument ({kind} for {wk})")) }
                    if src.is_none() && *x != BigInt::from(500 + t) { return Err(format!("parameter p{t} gets a default which is not its own")) }
                    o.push((t, src));
                }
                Ok(Out::Bound(o))
            }
            Err(e) => {
                let num = |i: &Identifier| (0..40).find(|k| *i == *id(*k)).unwrap_or(99);
                let o = match &e {
                    ArgumentError::TooManyArguments { got, expected, extra, .. } => { let Args::Pos(k) = a else { return Err("too many arguments for a named list".into()) }; let m = is_method as usize; if *got != k - m || *expected != n - m || extra.len() != k - n { return Err(format!("reports {got} given, {expected} expected, {} extra", extra.len())) } Out::TooMany }
                    ArgumentError::TooFewArguments { expected, missing, .. } => { let Args::Pos(k) = a else { return Err("too few arguments for a named list".into()) }; if *expected != n - is_method as usize || missing.iter().map(&num).ne(*k..n) { return Err(format!("reports {expected} expected, missing {missing:?}")) } Out::TooFew }
                    ArgumentError::NoSuchArgument { name } => { if num(name) < n { return Err(format!("{name} is said not to exist")) } Out::NoSuch }
                    ArgumentError::MissingArguments { missing, .. } => { let mut m: Vec<usize> = missing.iter().map(num).collect(); m.sort(); Out::Missing(m) }
                    ArgumentError::DuplicateNamedBindings { new, .. } => { let Args::Named(v) = a else { return Err("duplicate in a positional list".into()) }; if v.iter().filter(|x| x.0 == num(new)).count() < 2 { return Err(format!("{new} is said to be given twice")) } Out::Dup }
                };
                guard(|| { let _ = spade_diagnostics::Diagnostic::from(e); }).map_err(|e| format!("rendering the error panics: {e}"))?;
                Ok(o)
            }
        }
    };
    let judge = |rep: &mut Rep, which: &str, r: Result<Result<Out, String>, String>| match r {
        Err(e) => rep.fail("match", format!("{which}: panics: {e}"), desc.clone()),
        Ok(Err(e)) => rep.fail("match", format!("{which}: {e}"), desc.clone()),
        Ok(Ok(o)) => if !want.contains(&o) { rep.fail("match", format!("{which}: gives {o:?}, expected {want:?}"), desc.clone()) },
    };
    if !defaults.iter().any(|d| *d) {
        let pl = ParameterList((0..n).map(|i| Parameter { no_mangle: None, wire: None, name: id(i), ty: TypeSpec::Tuple((0..i).map(|_| TypeSpec::Tuple(vec![]).nowhere()).collect()).nowhere(), field_translator: None }).collect(), Selfness::Static);
        judge(rep, "value parameters", guard(|| read(match_args_with_params(&list, &pl, is_method).and_then(|v| {
            Ok(v.into_iter().map(|x| {
                let t = (0..n).find(|k| **x.target == *id(*k)).unwrap_or(99);
                // the type must be the one declared for that parameter
                let t = if matches!(x.target_type, TypeSpec::Tuple(m) if m.len() == t) { t } else { 98 };
                (t, &x.value.inner, x.kind)
            }).collect()) }))));
    }
    if !is_method {
        let ps: Vec<Loc<TypeParam>> = (0..n).map(|i| TypeParam { name: Generic::Named(NameID(i as u64, Path::from_strs(&[&format!("p{i}")])).nowhere()), trait_bounds: vec![], meta: MetaType::Any, default: defaults[i].then(|| Box::new(dv(i))) }.nowhere()).collect();
        let sl = &ps[..];
        judge(rep, "type parameters", guard(|| read(match_args_with_params(&list, &sl, false).map(|v| v.into_iter().map(|x| ((0..n).find(|k| **x.target == *id(*k)).unwrap_or(99), &x.value.inner, x.kind)).collect()))));
    }
}

fn small(rep: &mut Rep) {
    for n in 0..4usize {
        for d in 0..(1usize << n) {
            let defaults: Vec<bool> = (0..n).map(|i| d >> i & 1 == 1).collect();
            for m in [false, true] {
                if m && n == 0 { continue }
                for k in (m as usize)..=n + 2 { api(rep, &Args::Pos(k), n, &defaults, m) }
                // all lists of names up to n+1 long over n+1 names
                for len in 0..=(n + 1).min(3) {
                    let base = n + 1;
                    for code in 0..base.pow(len as u32) {
                        let mut c = code; let v: Vec<(usize, bool)> = (0..len).map(|i| { let p = c % base; c /= base; (p, (code + i + d) % 3 == 0) }).collect();
                        api(rep, &Args::Named(v), n, &defaults, m);
                    }
                }
            }
        }
    }
}

fn random(rep: &mut Rep, r: &mut Rng) {
    let n = r.us(12);
    let nodef = r.chance(1, 2);
    let defaults: Vec<bool> = (0..n).map(|_| !nodef && r.chance(1, 2)).collect();
    let m = n > 0 && r.chance(1, 3);
    let a = if r.chance(1, 3) { Args::Pos((r.us(n + 3)).max(m as usize)) } else {
        let mut v: Vec<usize> = (0..n).collect(); r.shuffle(&mut v);
        match r.below(6) { 0 if n > 0 => { v.remove(r.us(v.len())); } 1 => v.insert(r.us(v.len() + 1), r.us(n + 1)), 2 => v.push(n), 3 => v.retain(|i| !defaults[*i]), _ => {} }
        Args::Named(v.into_iter().map(|p| (p, r.chance(1, 3))).collect())
    };
    api(rep, &a, n, &defaults, m);
}

/// how a source list looks and whether the rule accepts it
fn written(a: &Args, vals: &dyn Fn(usize) -> String) -> (bool, String) {
    match a {
        Args::Pos(k) => (false, (0..*k).map(|i| vals(i)).collect::<Vec<_>>().join(", ")),
        Args::Named(v) => (true, v.iter().enumerate().map(|(i, (p, s))| if *s { format!("p{p}") } else { format!("p{p}: {}", vals(i)) }).collect::<Vec<_>>().join(", ")),
    }
}
/// a call of a random kind; every parameter is uint<5>, the outputs are all parameters
fn calls(rep: &mut Rep, r: &mut Rng) {
    let n = 1 + r.us(5);
    let wrong = r.chance(1, 4);
    let a = if r.chance(1, 3) { Args::Pos(if wrong { *r.pick(&[n - 1, n + 1]) } else { n }) } else {
        let mut v: Vec<usize> = (0..n).collect(); r.shuffle(&mut v);
        if wrong { match r.below(3) { 0 => { v.remove(r.us(n)); } 1 => v.insert(r.us(n + 1), r.us(n)), _ => { let i = r.us(n); v[i] = n } } }
        Args::Named(v.into_iter().map(|p| (p, r.chance(1, 3))).collect())
    };
    // the variable p<i> in scope has the value 20+i, the argument written at position i the value 1+i
    let lit = |i: usize| format!("{}u5", 1 + i);
    let (nm, txt) = written(&a, &lit);
    let dol = if nm { "$" } else { "" };
    let params = (0..n).map(|i| format!("p{i}: uint<5>")).collect::<Vec<_>>().join(", ");
    let names = (0..n).map(|i| format!("p{i}")).collect::<Vec<_>>().join(", ");
    let tup = if n == 1 { "uint<5>".to_string() } else { format!("({})", vec!["uint<5>"; n].join(", ")) };
    let body = if n == 1 { "p0".to_string() } else { format!("({names})") };
    let kind = r.below(9);
    let lets = (0..=n).map(|i| format!("    let p{i} = {}u5;\n", 20 + i)).collect::<String>();
    let (decl, expr): (String, String) = match kind {
        0 => (format!("fn f({params}) -> {tup} {{ {body} }}\n"), format!("f{dol}({txt})")),
        1 => (format!("entity f({params}) -> {tup} {{ {body} }}\n"), format!("inst f{dol}({txt})")),
        2 => (format!("struct W {{ w: bool }}\nimpl W {{ fn f(self, {params}) -> {tup} {{ {body} }} }}\n"), format!("W(true).f{dol}({txt})")),
        3 => (format!("struct W {{ w: bool }}\nimpl W {{ entity f(self, {params}) -> {tup} {{ {body} }} }}\n"), format!("W(true).inst f{dol}({txt})")),
        4 => (format!("struct S {{ {params} }}\n"), {
            let g = (0..n).map(|i| format!("s.p{i}")).collect::<Vec<_>>().join(", ");
            format!("{{ let s = S{dol}({txt}); {} }}", if n == 1 { g } else { format!("({g})") }) }),
        5 => (format!("enum E {{ A, B{{ {params} }} }}\n"), format!("match E::B{dol}({txt}) {{ E::A => {}, E::B({names}) => {body} }}", if n == 1 { "0".to_string() } else { format!("({})", vec!["0"; n].join(", ")) })),
        6 | 7 => {
            // a pattern: the sub-pattern written for field i is bound to a name of its own
            let (sname, sdecl) = if kind == 6 { ("S".to_string(), format!("struct S {{ {params} }}\n")) } else { ("E::B".into(), format!("enum E {{ A, B{{ {params} }} }}\n")) };
            let sub = |i: usize| format!("q{i}");
            let (_, pt) = written(&a, &sub);
            // afterwards field i is visible under the name its pattern gave it
            let seen: Vec<String> = match &a { Args::Pos(k) => (0..n).map(|i| if i < *k { format!("q{i}") } else { "p0".into() }).collect(), Args::Named(v) => (0..n).map(|i| match v.iter().position(|x| x.0 == i) { Some(j) => if v[j].1 { format!("p{i}") } else { format!("q{j}") }, None => "p0".into() }).collect() };
            let out = if n == 1 { seen[0].clone() } else { format!("({})", seen.join(", ")) };
            let ctor = (0..n).map(|i| format!("{}u5", 7 + i)).collect::<Vec<_>>().join(", ");
            let e = if kind == 6 && r.chance(1, 2) { format!("{{ let S{dol}({pt}) = S({ctor}); {out} }}") } else {
                format!("match {sname}({ctor}) {{ {sname}{dol}({pt}) => {out}{} }}", if kind == 7 { format!(", E::A => {}", if n == 1 { "0".to_string() } else { format!("({})", vec!["0"; n].join(", ")) }) } else { String::new() }) };
            (sdecl, e)
        }
        _ => {
            // type parameters: literals of the given widths
            let gp = (0..n).map(|i| format!("#uint p{i}")).collect::<Vec<_>>().join(", ");
            let (_, t) = written(&a, &|i| format!("{}", 1 + i));
            let outs = (0..n).map(|i| format!("p{i}")).collect::<Vec<_>>();
            (format!("fn f<{gp}>() -> {tup} {{ {} }}\n", if n == 1 { outs[0].clone() } else { format!("({})", outs.join(", ")) }), format!("f::{dol}<{t}>()"))
        }
    };
    // shorthand type arguments name a type in scope: put them in a generic wrapper
    let short = matches!(&a, Args::Named(v) if v.iter().any(|x| x.1));
    if kind == 8 && short {
        let src = String::new(); let _ = src;
        let gp = (0..=n).map(|i| format!("#uint p{i}")).collect::<Vec<_>>().join(", ");
        let gv = (0..=n).map(|i| (20 + i).to_string()).collect::<Vec<_>>().join(", ");
        let src = format!("{decl}fn wrap<{gp}>() -> {tup} {{ {expr} }}\nentity top(x: bool) -> {tup} {{ wrap::<{gv}>() }}\n");
        return judge_call(rep, src, &a, n, kind);
    }
    let src = format!("{decl}entity top(x: bool) -> {tup} {{\n{lets}    {expr}\n}}\n");
    judge_call(rep, src, &a, n, kind);
}
fn judge_call(rep: &mut Rep, src: String, a: &Args, n: usize, kind: u64) {
    rep.case(&src, true);
    let ok = matches!(oracle(a, n, &vec![false; n])[0], Out::Bound(_));
    let c = compile(&src);
    if let Some(e) = c.panicked { return rep.fail("call", format!("the compiler panics: {e}"), src) }
    if !ok { if c.ok { rep.fail("call", "an incomplete, surplus, repeated or unknown argument is accepted".into(), src) } return }
    if !c.ok { return rep.fail("call", format!("a complete argument list is rejected: {:?}", error_lines(&c.diags).first()), src) }
    let want: Vec<u64> = (0..n).map(|i| if kind == 6 || kind == 7 { 7 + i as u64 } else { match a { Args::Pos(_) => 1 + i as u64, Args::Named(v) => { let j = v.iter().position(|x| x.0 == i).unwrap(); if v[j].1 { 20 + i as u64 } else { 1 + j as u64 } } } }).collect();
    let got = (|| -> Result<Bv, String> { let m = vlog::parse(&c.verilog)?; let t = m.iter().find(|x| x.name.contains("top")).ok_or("no module top")?.name.clone(); let mut s = Sim::new(&m, &t)?; s.set("x_i", Bv::zero(1))?; s.settle()?; s.get("output__") })();
    let wb = Bv::concat_msb(&want.iter().map(|v| Bv::from_u(&num::BigUint::from(*v), 5)).collect::<Vec<_>>());
    match got {
        Err(e) => rep.note(&format!("simulation: {e}")),
        Ok(g) => if g.0 != wb.0 { rep.fail("call", format!("the parameters receive {}, written for them are {} (first parameter leftmost)", g.str(), wb.str()), src) }
    }
}

pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "at least one parameter".into();
    let mut r = Rng::new(seed);
    small(rep);
    let mut k = 0u64;
    while rep.time_left() { if k % 40 == 0 { calls(rep, &mut r) } else { random(rep, &mut r) } k += 1 }
}
