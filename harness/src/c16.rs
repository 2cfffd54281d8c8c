//! C16: the parser's tree against the operator table: every pair and triple of operators, and random
//! expressions of every form, printed with the parentheses the table needs (and some it does not).
use crate::pexpr::*;
use crate::util::*;

fn one(rep: &mut Rep, r: &mut Rng, e: E, extra: bool, spaces: u8) {
    let e = canon(r, e, extra);
    let mut o = Out::new(spaces);
    let want = o.put(r, &e);
    rep.case(&o.s, want.nodes() > 2);
    match parse(&o.s) {
        Err(m) => rep.fail("parse", format!("a valid expression is not parsed: {m}\n{}", o.s), o.s.clone()),
        Ok(t) => if t.shape() != want.shape() { rep.fail("tree", format!("{}\n parses as {}\n instead of {}", o.s, t.shape(), want.shape()), o.s.clone()) }
    }
    // fully parenthesised: the same tree
    let mut q = Out::new(spaces);
    let f = full(e);
    let wf = q.put(r, &f);
    if wf.bare() != want.bare() { return } // a parenthesised literal is not negated in place
    rep.cur(&q.s);
    match parse(&q.s) {
        Err(m) => rep.fail("parse", format!("a fully parenthesised expression is not parsed: {m}\n{}", q.s), q.s.clone()),
        Ok(t) => if t.bare() != want.bare() { rep.fail("tree", format!("{}\n parses as {}\n instead of {}", q.s, t.bare(), want.bare()), q.s.clone()) }
    }
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "an expression with at least two nodes".into();
    let mut r = Rng::new(seed);
    let id = |s: &str| Box::new(E::Id(vec![s.into()]));
    let os = ops();
    for a in &os {
        for u in UNARY {
            one(rep, &mut r, E::Bin(a, Box::new(E::Un(u, id("x"))), id("y")), false, 2);
            one(rep, &mut r, E::Bin(a, id("x"), Box::new(E::Un(u, id("y")))), false, 2);
            one(rep, &mut r, E::Un(u, Box::new(E::Bin(a, id("x"), id("y")))), false, 2);
            for v in UNARY { one(rep, &mut r, E::Un(u, Box::new(E::Un(v, Box::new(E::Field(id("x"), "f".into()))))), false, 2); }
        }
        for b in &os {
            one(rep, &mut r, E::Bin(a, id("x"), Box::new(E::Bin(b, id("y"), id("z")))), false, 2);
            one(rep, &mut r, E::Bin(a, Box::new(E::Bin(b, id("x"), id("y"))), id("z")), false, 2);
            one(rep, &mut r, E::Infix("f".into(), Box::new(E::Bin(a, id("x"), id("y"))), Box::new(E::Bin(b, id("x"), id("y")))), false, 2);
            for c in os.iter().skip(r.us(4)).step_by(4) {
                one(rep, &mut r, E::Bin(a, Box::new(E::Bin(b, id("w"), id("x"))), Box::new(E::Bin(c, id("y"), id("z")))), false, 2);
                one(rep, &mut r, E::Bin(a, id("w"), Box::new(E::Bin(b, Box::new(E::Bin(c, id("x"), id("y"))), id("z")))), false, 2);
                one(rep, &mut r, E::Bin(a, Box::new(E::Bin(b, id("w"), Box::new(E::Bin(c, id("x"), id("y"))))), Box::new(E::Un("-", id("z")))), false, 2);
            }
        }
    }
    while rep.time_left() {
        let d = 1 + r.us(6);
        let e = mk(&mut r, d);
        let (x, s) = (r.chance(1, 2), r.us(4) as u8);
        one(rep, &mut r, e, x, s);
    }
}
