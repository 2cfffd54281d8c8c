//! C14: random pipelines (stages, latencies, stage references, stage conditions, valid/ready) against a
//! model that delays every value, and programs that use values too early against rejection.
use crate::util::*;
use crate::vlog::{parse, Bv, Sim};

type V = Option<u8>;
#[derive(Clone, Debug)]
enum Ex {
    Const(u8), Name(usize), Ref(usize, usize), Bin(&'static str, Box<Ex>, Box<Ex>), If(Box<Ex>, &'static str, Box<Ex>, Box<Ex>, Box<Ex>),
    MatchZ(u8, Box<Ex>, Box<Ex>, Box<Ex>), Guard(Box<Ex>, Box<Ex>, Box<Ex>, Box<Ex>), Inst(usize, Box<Ex>), Valid(Box<Ex>, Box<Ex>), Ready(Box<Ex>, Box<Ex>),
    Pick(Vec<Ex>, usize), Blk(Box<Ex>),
}
#[derive(Clone, Debug)]
enum Cond { Cmp(Box<Ex>, &'static str, Box<Ex>), Bool(usize) } // Bool: a boolean input
#[derive(Clone, Debug)]
enum St { Let(Vec<usize>, Vec<Ex>), Wire(usize, Ex), Reg(usize, Ex), Mark(usize, Option<Cond>), Label(usize) }
#[derive(Clone)]
struct Nm { text: String, stage: usize, ready: usize, wire: bool, taint: bool, cond_ok: bool }
struct Pipe { name: String, n: usize, names: Vec<Nm>, st: Vec<St>, res: Ex, conds: Vec<Option<Cond>>, labels: Vec<Option<usize>>, at: Vec<usize>, depth: i64 }
const IN: usize = 3; // x y z: uint<8>; names 0..IN; plus wires p q r: bool

fn kids<'a>(e: &'a Ex) -> Vec<&'a Ex> {
    match e { Ex::Bin(_, a, b) | Ex::Valid(a, b) | Ex::Ready(a, b) => vec![a, b], Ex::If(a, _, b, c, d) | Ex::Guard(a, b, c, d) => vec![a, b, c, d], Ex::MatchZ(_, a, b, c) => vec![a, b, c], Ex::Inst(_, a) | Ex::Blk(a) => vec![a], Ex::Pick(v, _) => v.iter().collect(), _ => vec![] }
}
fn taint(p: &[Nm], e: &Ex) -> bool { matches!(e, Ex::Ready(..)) || matches!(e, Ex::Name(i) | Ex::Ref(_, i) if p[*i].taint) || kids(e).iter().any(|x| taint(p, x)) }

struct G<'a> { r: &'a mut Rng, names: Vec<Nm>, labels: Vec<Option<usize>>, n: usize, conds: bool, refs: bool }
impl<'a> G<'a> {
    fn atom(&mut self, k: usize) -> Ex {
        if self.r.chance(1, 8) { return Ex::Const(self.r.below(256) as u8) }
        if self.refs && self.r.chance(1, 4) {
            // any stage in which some name is available
            let i = self.r.us(self.names.len());
            let nm = &self.names[i];
            if nm.ready <= self.n && !nm.wire { let s = self.r.range(nm.ready as u64, self.n as u64) as usize; return Ex::Ref(s, i) }
        }
        let ok: Vec<usize> = (0..self.names.len()).filter(|i| self.names[*i].wire || self.names[*i].ready <= k).collect();
        Ex::Name(*self.r.pick(&ok))
    }
    /// an expression in stage `k` with latency `m` (0: none)
    fn ex(&mut self, k: usize, m: usize, d: usize) -> Ex {
        let cmps = ["==", "<", ">=", "!="];
        if m == 0 {
            if d == 0 { return self.atom(k) }
            return match self.r.below(12) {
                0 | 1 | 2 => { let o = *self.r.pick(&["+.", "-.", "^", "&", "|"]); Ex::Bin(o, Box::new(self.ex(k, 0, d - 1)), Box::new(self.ex(k, 0, d - 1))) }
                3 => { let o = *self.r.pick(&cmps); Ex::If(Box::new(self.ex(k, 0, d - 1)), o, Box::new(self.ex(k, 0, d - 1)), Box::new(self.ex(k, 0, d - 1)), Box::new(self.ex(k, 0, d - 1))) }
                4 => Ex::MatchZ(self.r.below(4) as u8, Box::new(self.ex(k, 0, d - 1)), Box::new(self.ex(k, 0, d - 1)), Box::new(self.ex(k, 0, d - 1))),
                5 => Ex::Guard(Box::new(self.ex(k, 0, d - 1)), Box::new(self.ex(k, 0, d - 1)), Box::new(self.ex(k, 0, d - 1)), Box::new(self.ex(k, 0, d - 1))),
                6 => { let v: Vec<Ex> = (0..2 + self.r.us(2)).map(|_| self.ex(k, 0, d - 1)).collect(); let i = self.r.us(v.len()); Ex::Pick(v, i) }
                7 => Ex::Valid(Box::new(self.ex(k, 0, d - 1)), Box::new(self.ex(k, 0, d - 1))),
                8 => Ex::Ready(Box::new(self.ex(k, 0, d - 1)), Box::new(self.ex(k, 0, d - 1))),
                9 => Ex::Blk(Box::new(self.ex(k, 0, d - 1))),
                _ => self.atom(k),
            }
        }
        let d1 = d.saturating_sub(1);
        let w = if d == 0 { 0 } else { self.r.below(8) };
        match w {
            0 | 1 | 2 => { let m1 = 1 + self.r.us(m); Ex::Inst(m1, Box::new(self.ex(k, m - m1, d1))) }
            3 | 4 => { let o = *self.r.pick(&["+.", "^", "&"]); let b = if self.r.chance(1, 4) { Ex::Const(self.r.below(256) as u8) } else { self.ex(k, m, d1) }; Ex::Bin(o, Box::new(self.ex(k, m, d1)), Box::new(b)) }
            5 => { let o = *self.r.pick(&cmps); Ex::If(Box::new(self.ex(k, m, d1)), o, Box::new(self.ex(k, m, d1)), Box::new(self.ex(k, m, d1)), Box::new(self.ex(k, m, d1))) }
            6 => Ex::MatchZ(self.r.below(4) as u8, Box::new(self.ex(k, m, d1)), Box::new(self.ex(k, m, d1)), Box::new(self.ex(k, m, d1))),
            _ => { let v: Vec<Ex> = (0..2).map(|_| self.ex(k, m, d1)).collect(); let i = self.r.us(v.len()); Ex::Pick(v, i) }
        }
    }
}
fn gen_pipe(r: &mut Rng, name: String) -> Pipe {
    let n = r.us(6);
    let conds = r.chance(1, 2);
    let mut names: Vec<Nm> = (0..IN).map(|i| Nm { text: ["x", "y", "z"][i].into(), stage: 0, ready: 0, wire: false, taint: false, cond_ok: true }).collect();
    let mut g = G { r, names: std::mem::take(&mut names), labels: vec![None; n + 1], n, conds, refs: false };
    g.refs = g.r.chance(2, 3);
    let mut st = vec![]; let mut cs = vec![]; let mut at = vec![];
    let mut k = 0;
    loop {
        if g.r.chance(1, 3) { g.labels[k] = Some(k); st.push(St::Label(k)); at.push(k) }
        for _ in 0..1 + g.r.us(3) {
            let c = g.r.below(10);
            if c == 0 { let e = g.ex(k, 0, 2); let t = taint(&g.names, &e); let i = g.names.len(); g.names.push(Nm { text: format!("w{i}"), stage: k, ready: 0, wire: true, taint: t, cond_ok: true }); st.push(St::Wire(i, e)); at.push(k); continue }
            if c == 1 { let e = g.ex(k, 0, 2); let i = g.names.len(); g.names.push(Nm { text: format!("r{i}"), stage: k, ready: k, wire: false, taint: false, cond_ok: true }); st.push(St::Reg(i, e)); at.push(k); continue }
            let m = if conds || n == k || g.r.chance(1, 2) { 0 } else { 1 + g.r.us((n - k).min(3)) };
            let cnt = if g.r.chance(1, 4) { 2 } else { 1 };
            let es: Vec<Ex> = (0..cnt).map(|_| g.ex(k, m, 2)).collect();
            let t = es.iter().any(|e| taint(&g.names, e));
            let ids: Vec<usize> = (0..cnt).map(|_| { let i = g.names.len(); g.names.push(Nm { text: format!("v{i}"), stage: k, ready: k + m, wire: false, taint: t, cond_ok: true }); i }).collect();
            st.push(St::Let(ids, es)); at.push(k);
        }
        if k == n { break }
        // one or several boundaries; a condition only reads names of its own stage (known finding) or wires
        let step = if !conds && g.r.chance(1, 4) { (1 + g.r.us(3)).min(n - k) } else { 1 };
        let c = if conds && g.r.chance(2, 3) {
            let ok: Vec<usize> = (0..g.names.len()).filter(|i| { let x = &g.names[*i]; (x.wire || x.stage == k) && !x.taint }).collect();
            if g.r.chance(1, 2) { Some(Cond::Bool(g.r.us(3))) }
            else if ok.is_empty() { None } else { let a = Ex::Name(*g.r.pick(&ok)); let b = if g.r.chance(1, 2) { Ex::Name(*g.r.pick(&ok)) } else { Ex::Const(g.r.below(256) as u8) }; let o = *g.r.pick(&["<", ">=", "!="]); Some(Cond::Cmp(Box::new(a), o, Box::new(b))) }
        } else { None };
        st.push(St::Mark(step, c.clone())); at.push(k);
        for _ in 0..step { cs.push(c.clone()); }
        k += step;
    }
    let res = g.ex(n, 0, 2);
    let (names, labels) = (g.names, g.labels);
    Pipe { name, n, names, st, res, conds: cs, labels, at, depth: n as i64 }
}
impl Pipe {
    fn ex(&self, e: &Ex, k: usize) -> String {
        let t = |e: &Ex| self.ex(e, k);
        match e {
            Ex::Const(c) => format!("{c}u8"), Ex::Name(i) => self.names[*i].text.clone(),
            Ex::Ref(s, i) => { let n = &self.names[*i].text; match self.labels[*s] { Some(l) if l <= k && (i + s) % 2 == 0 => format!("stage(l{s}).{n}"), _ => if *s >= k { format!("stage(+{}).{n}", s - k) } else { format!("stage(-{}).{n}", k - s) } } }
            Ex::Bin(o, a, b) => format!("({} {o} {})", t(a), t(b)), Ex::If(a, o, b, c, d) => format!("if {} {o} {} {{ {} }} else {{ {} }}", t(a), t(b), t(c), t(d)),
            Ex::MatchZ(z, a, b, c) => format!("match {} {{ {z} => {}, _ => {} }}", t(a), t(b), t(c)), Ex::Guard(a, b, c, d) => format!("match {} {{ v if v < {} => {}, _ => {} }}", t(a), t(b), t(c), t(d)),
            Ex::Inst(m, a) => format!("inst({m}) s{m}(clk, {})", t(a)), Ex::Valid(a, b) => format!("if stage.valid {{ {} }} else {{ {} }}", t(a), t(b)), Ex::Ready(a, b) => format!("if stage.ready {{ {} }} else {{ {} }}", t(a), t(b)),
            Ex::Pick(v, i) => format!("({})#{i}", v.iter().map(|x| t(x)).collect::<Vec<_>>().join(", ")), Ex::Blk(a) => format!("{{ {} }}", t(a)),
        }
    }
    fn cond(&self, c: &Cond, k: usize) -> String { match c { Cond::Cmp(a, o, b) => format!("{} {o} {}", self.ex(a, k), self.ex(b, k)), Cond::Bool(i) => ["p", "q", "r"][*i].into() } }
    fn text(&self) -> String {
        let mut s = format!("pipeline({}) {}(clk: clock, x: uint<8>, y: uint<8>, z: uint<8>, wire p: bool, wire q: bool, wire r: bool) -> uint<8> {{ ", self.depth, self.name);
        for (st, k) in self.st.iter().zip(&self.at) {
            s += &match st {
                St::Let(i, e) if i.len() == 1 => format!("let {} = {}; ", self.names[i[0]].text, self.ex(&e[0], *k)),
                St::Let(i, e) => format!("let ({}) = ({}); ", i.iter().map(|i| self.names[*i].text.clone()).collect::<Vec<_>>().join(", "), e.iter().map(|e| self.ex(e, *k)).collect::<Vec<_>>().join(", ")),
                St::Wire(i, e) => format!("let wire {} = {}; ", self.names[*i].text, self.ex(e, *k)),
                St::Reg(i, e) => format!("reg(clk) {}: uint<8> = {}; ", self.names[*i].text, self.ex(e, *k)),
                St::Mark(1, None) => "reg; ".into(), St::Mark(m, None) => format!("reg * {m}; "), St::Mark(_, Some(c)) => format!("reg[{}]; ", self.cond(c, *k)),
                St::Label(k) => format!("'l{k} "),
            }
        }
        s + &self.ex(&self.res, self.n) + " }"
    }
}
#[derive(Default)]
struct H { sig: Vec<Vec<V>>, reg: Vec<Vec<Vec<V>>>, valid: Vec<Vec<Option<bool>>>, ready: Vec<Vec<Option<bool>>>, bools: Vec<[bool; 3]> }
fn cmp(o: &str, a: V, b: V) -> Option<bool> { let (a, b) = (a?, b?); Some(match o { "==" => a == b, "!=" => a != b, "<" => a < b, _ => a >= b }) }
impl H {
    fn val(&self, p: &Pipe, i: usize, k: usize, t: usize) -> V { let n = &p.names[i]; if n.wire || k <= n.ready { self.sig[t][i] } else { self.reg[t][i][k] } }
    fn ex(&self, p: &Pipe, e: &Ex, k: usize, t: usize) -> V {
        let v = |e: &Ex| self.ex(p, e, k, t);
        match e {
            Ex::Const(c) => Some(*c), Ex::Name(i) => self.val(p, *i, k, t), Ex::Ref(s, i) => self.val(p, *i, *s, t),
            Ex::Bin(o, a, b) => { let (a, b) = (v(a)?, v(b)?); Some(match *o { "+." => a.wrapping_add(b), "-." => a.wrapping_sub(b), "^" => a ^ b, "&" => a & b, _ => a | b }) }
            Ex::If(a, o, b, c, d) => if cmp(o, v(a), v(b))? { v(c) } else { v(d) },
            Ex::MatchZ(z, a, b, c) => if v(a)? == *z { v(b) } else { v(c) },
            Ex::Guard(a, b, c, d) => if v(a)? < v(b)? { v(c) } else { v(d) },
            Ex::Inst(m, a) => if t < *m { None } else { Some(self.ex(p, a, k, t - m)?.wrapping_add(3)) },
            Ex::Valid(a, b) => if self.valid[t][k]? { v(a) } else { v(b) },
            Ex::Ready(a, b) => if self.ready[t][k]? { v(a) } else { v(b) },
            Ex::Pick(w, i) => v(&w[*i]), Ex::Blk(a) => v(a),
        }
    }
    /// one cycle with inputs `inp`; returns the result
    fn cycle(&mut self, p: &Pipe, inp: &[u8], b: [bool; 3]) -> V {
        let t = self.sig.len();
        let nn = p.names.len();
        self.bools.push(b);
        // registers: from the previous cycle
        let mut reg = vec![vec![None; p.n + 1]; nn];
        let mut valid = vec![Some(true); p.n + 1];
        let mut sig = vec![None; nn];
        for i in 0..IN { sig[i] = Some(inp[i]) }
        if t > 0 {
            for i in 0..nn { let nm = &p.names[i]; if !nm.wire { for k in nm.ready + 1..=p.n { reg[i][k] = match self.ready[t - 1][k - 1] { None => None, Some(true) => self.val(p, i, k - 1, t - 1), Some(false) => self.reg[t - 1][i][k] } } } }
        }
        for k in 0..p.n {
            // without any condition every stage is always valid; otherwise validity is a register that starts unknown
            let local = |t: usize| -> Option<bool> { match &p.conds[k] { None => Some(true), Some(c) => self.cond(p, c, k, t) } };
            valid[k + 1] = if p.conds.iter().all(|c| c.is_none()) { Some(true) } else if t == 0 { None } else {
                let rd = self.ready[t - 1].get(k + 1).cloned().unwrap_or(Some(true));
                match (rd, local(t - 1)) {
                    (Some(true), Some(false)) => Some(false),
                    (Some(_), Some(_)) => match self.ready[t - 1][k] { None => None, Some(true) => self.valid[t - 1][k], Some(false) => self.valid[t - 1][k + 1] },
                    _ => None,
                }
            };
        }
        self.reg.push(reg); self.valid.push(valid); self.ready.push(vec![None; p.n + 1]); self.sig.push(sig);
        for _ in 0..2 {
            for (st, k) in p.st.iter().zip(&p.at) {
                match st {
                    St::Let(ids, es) => for (i, e) in ids.iter().zip(es) { let v = self.ex(p, e, *k, t); self.sig[t][*i] = v },
                    St::Wire(i, e) => { let v = self.ex(p, e, *k, t); self.sig[t][*i] = v }
                    St::Reg(i, e) => { let v = if t == 0 { None } else { self.ex(p, e, *k, t - 1) }; self.sig[t][*i] = v }
                    _ => {}
                }
            }
            for k in 0..=p.n {
                let mut r = Some(true);
                for b in k..p.n { if let Some(c) = &p.conds[b] { match self.cond(p, c, b, t) { Some(false) => { r = Some(false) } None => if r == Some(true) { r = None }, _ => {} } } }
                self.ready[t][k] = r;
            }
        }
        self.ex(p, &p.res, p.n, t)
    }
    fn cond(&self, p: &Pipe, c: &Cond, k: usize, t: usize) -> Option<bool> { match c { Cond::Bool(i) => Some(self.bools[t][*i]), Cond::Cmp(a, o, b) => cmp(o, self.ex(p, a, k, t), self.ex(p, b, k, t)) } }
}
fn subs() -> Vec<String> { (1..=6).map(|m| format!("pipeline({m}) s{m}(clk: clock, a: uint<8>) -> uint<8> {{ reg * {m}; a +. 3u8 }}")).collect() }

fn simulate(rep: &mut Rep, r: &mut Rng, mods: &[crate::vlog::Module], p: &Pipe, full: &str) {
    let ft = p.text();
    let Some(m) = crate::prog::module(mods, &p.name) else { rep.note("no-module"); return };
    rep.case(&ft, p.n > 0);
    let mut s = match Sim::new(mods, &m.name) { Ok(s) => s, Err(e) => { rep.fail("pipeline-elab", format!("the Verilog of `{ft}` is ill-formed: {e}"), full.into()); return } };
    if let Some(e) = s.errors.first() { rep.fail("pipeline-elab", format!("the Verilog of `{ft}` is ill-formed: {e}"), full.into()); return }
    let mut h = H::default();
    let mut log = String::new();
    let _ = s.set("clk_i", Bv(vec![0]));
    for t in 0..18usize {
        let inp: Vec<u8> = (0..IN).map(|_| if r.chance(1, 4) { r.below(4) as u8 } else { r.below(256) as u8 }).collect();
        let b = [r.chance(3, 4), r.chance(1, 2), r.chance(3, 4)];
        for (i, n) in ["x", "y", "z"].iter().enumerate() { let _ = s.set(&format!("{n}_i"), Bv((0..8).map(|j| (inp[i] >> j) & 1).collect())); }
        for (i, n) in ["p", "q", "r"].iter().enumerate() { let _ = s.set(&format!("{n}_i"), Bv(vec![b[i] as u8])); }
        log += &format!("{inp:?}{b:?} ");
        let want = h.cycle(p, &inp, b);
        let got = match s.settle().and_then(|_| s.get("output__")) { Ok(g) => g, Err(e) => { rep.fail("pipeline-sim", format!("`{ft}` cannot be simulated: {e}"), full.into()); return } };
        if let Some(w) = want {
            rep.note("compared");
            let w = Bv((0..8).map(|j| (w >> j) & 1).collect());
            if got.0 != w.0 { rep.fail("pipeline-value", format!("`{ft}` in cycle {t} outputs {} but the delayed-value model gives {} (inputs x y z p q per cycle: {log})", got.str(), w.str()), full.into()); return }
        }
        if let Err(e) = s.cycle("clk_i") { rep.fail("pipeline-sim", format!("`{ft}` cannot be simulated: {e}"), full.into()); return }
    }
}
fn batch(rep: &mut Rep, r: &mut Rng) {
    let ps: Vec<Pipe> = (0..8).map(|i| gen_pipe(r, format!("m{i}"))).collect();
    let mut lines = subs(); let base = lines.len();
    lines.extend(ps.iter().map(|p| p.text()));
    let src = lines.join("\n");
    rep.cur(&src);
    let c = compile(&src);
    if let Some(e) = &c.panicked { rep.fail("pipeline-panic", format!("the compiler panics on valid pipelines: {e}"), src); return }
    if !c.ok {
        for (l, m) in error_lines(&c.diags) { let t = if l > base && l <= lines.len() { lines[l - 1].clone() } else { src.clone() }; if std::env::var("VH_SHOW").is_ok() { eprintln!("REJECT {m}: {t}\n{}", c.diags) } rep.fail("pipeline-rejected", format!("a valid pipeline is rejected: {m}: {t}"), format!("{}\n{t}", subs().join("\n"))) }
        rep.note("rejected"); return
    }
    let mods = match parse(&c.verilog) { Ok(m) => m, Err(e) => { rep.fail("pipeline-text", format!("generated Verilog cannot be parsed: {e}"), src); return } };
    for p in &ps { let full = format!("{}\n{}", subs().join("\n"), p.text()); simulate(rep, r, &mods, p, &full) }
}

const HEAD: &str = "(clk: clock, x: uint<8>, y: uint<8>, p: bool) -> uint<8>";
/// pipelines that use a value before it is there, each next to the version that waits
fn early(rep: &mut Rep, r: &mut Rng) {
    let m = 1 + r.us(3); // latency
    let e = 1 + r.us(m); // how much too early
    let w = m - e;
    let i = format!("inst({m}) s{m}(clk, x)");
    let d = |n: usize| if n == 0 { String::new() } else if n == 1 { "reg; ".into() } else { format!("reg * {n}; ") };
    // (body with a hole for the number of boundaries between definition and use, boundaries needed)
    let uses = ["v", "v +. y", "if v == 3u8 { y } else { x }", "match v { 0 => y, _ => x }", "match y { 0 => v, _ => x }", "match y { k if k < v => x, _ => y }", "(v, y)#0", "(y, v)#1", "[v, y][p1]", "s0(v)", "inst s0e(clk, v)", "{ v }", "if p { v } else { y }", "(stage(-0).v)"];
    let u = uses[r.us(uses.len())].replace("p1", "if p { 1u1 } else { 0u1 }");
    let k0 = r.us(3);
    let mk = |gap: usize, u: &str| format!("{}\nfn s0(a: uint<8>) -> uint<8> {{ a }}\nentity s0e(clk: clock, a: uint<8>) -> uint<8> {{ a }}\npipeline({}) t{HEAD} {{ {}let v = {i}; {}let o = {u}; o }}", subs().join("\n"), k0 + gap, d(k0), d(gap));
    verdict(rep, &mk(m, &u), &mk(w, &u), &format!("a value with latency {m} is used {e} stage(s) too early in `{u}`"));
    // operands of one expression with different latencies
    let m2 = if r.chance(1, 2) { 0 } else { m + 1 };
    let o = if m2 == 0 { "y".to_string() } else { format!("inst({m2}) s{m2}(clk, y)") };
    let same = format!("inst({m}) s{m}(clk, y)");
    let mix = ["A +. B", "if A == 3u8 { B } else { B }", "if A == 3u8 { B } else { 1u8 }", "match A { 0 => B, _ => B }", "match A { 0 => 1u8, _ => B }", "if B == 1u8 { A } else { B }", "if B == 1u8 { B } else { A }", "match B { 0 => A, _ => B }", "(A, B)#0", "(B, A)#0", "[A, B][0]", "[B, B][if A == 0u8 { 0u1 } else { 1u1 }]", "s0(A ^ B)", "s2a(A, B)", "s2a$(a: B, b: A)", "inst(1) p2(clk, A, B)", "({ A } ^ B)", "if A == B { 1u8 } else { 2u8 }"];
    let u = mix[r.us(mix.len())];
    let lat = if u.contains("inst(1) p2") { 1 } else { 0 };
    let mk = |b: &str| { let n = m.max(m2) + lat; format!("{}\nfn s0(a: uint<8>) -> uint<8> {{ a }}\nfn s2a(a: uint<8>, b: uint<8>) -> uint<8> {{ a ^ b }}\npipeline(1) p2(clk: clock, a: uint<8>, b: uint<8>) -> uint<8> {{ reg; a ^ b }}\npipeline({n}) t{HEAD} {{ let v = {}; {} v }}", subs().join("\n"), u.replace('A', &i).replace('B', b), d(n)) };
    verdict(rep, &mk(&same), &mk(&o), &format!("values with latencies {m} and {m2} meet in `{u}`"));
    match r.below(6) {
        0 => { let mk = |gap: usize| format!("{}\npipeline({}) t{HEAD} {{ {}let v = {i}; {} v }}", subs().join("\n"), k0 + m, d(k0), d(gap)); verdict(rep, &mk(m), &mk(m + 1), "a pipeline has one stage more than it declares"); if m > 0 { verdict(rep, &mk(m), &mk(m - 1), "a pipeline has one stage less than it declares") } }
        1 => { let mk = |u: &str| format!("{}\npipeline({}) t{HEAD} {{ {}let v = {u}; {} v }}", subs().join("\n"), k0 + m, d(k0), d(m)); verdict(rep, &mk(&i), &mk(&format!("inst({}) s{m}(clk, x)", m + 1)), "a pipeline is instantiated with a latency it does not have") }
        2 => { let mk = |u: &str| format!("{}\npipeline({k0}) t{HEAD} {{ {} {u} }}", subs().join("\n"), d(k0)); verdict(rep, &mk("x"), &mk(&i), "the result of a pipeline has a latency") }
        3 => { let mk = |s: usize| format!("{}\npipeline({}) t{HEAD} {{ {}let v = {i}; let o = stage(+{s}).v; {} o }}", subs().join("\n"), k0 + m, d(k0), d(m)); verdict(rep, &mk(m), &mk(w), "a stage reference names a stage in which the value is not there yet") }
        4 => { let mk = |s: usize| format!("{}\npipeline({}) t{HEAD} {{ {}let v = {i}; let o = stage(+{s}).v; {} o }}", subs().join("\n"), k0 + m, d(k0), d(m)); verdict(rep, &mk(m), &mk(m + 1), "a stage reference goes past the last stage") }
        _ => { let k1 = k0 + 1; let mk = |b: usize| format!("{}\npipeline({k1}) t{HEAD} {{ {}let v = x ^ y; {} stage(-{b}).v }}", subs().join("\n"), d(k0), d(1)); verdict(rep, &mk(1), &mk(2), "a stage reference names a stage before the definition of the value") }
    }
}
fn verdict(rep: &mut Rep, good: &str, bad: &str, what: &str) {
    rep.case(bad, true);
    let b = compile(bad);
    if let Some(e) = &b.panicked { rep.fail("pipeline-panic", format!("the compiler panics ({e}): {what}"), bad.into()); return }
    if b.ok { rep.fail("early-use", format!("accepted although {what}"), bad.into()) }
    rep.cur(good);
    let g = compile(good);
    if let Some(e) = &g.panicked { rep.fail("pipeline-panic", format!("the compiler panics ({e})"), good.into()); return }
    if !g.ok { if std::env::var("VH_SHOW").is_ok() { eprintln!("GOOD REJECTED {good}\n{}", g.diags) } rep.fail("pipeline-rejected", format!("a valid pipeline is rejected (the counterpart of: {what})"), good.into()) }
}
/// the findings on the unchanged tree, by program
fn known(rep: &mut Rep) {
    let f = "pipeline(1) f(clk: clock, a: bool) -> bool { reg; a }";
    let src = format!("{f}\npipeline(1) m(clk: clock, a: bool) -> bool {{ let x = {{ let y = inst(1) f(clk, a); y }}; reg; x }}");
    let c = compile(&src);
    rep.case(&src, true);
    // f's register and a boundary register: two cycles instead of one
    if c.ok { if let Some(g) = run1(&c.verilog, "m", 1) { if !g { rep.fail("nested-latency", "a value with a latency inside a nested block is treated as available at once: the result is one cycle late".into(), src) } } }
    for (n, body) in [(3, "reg; reg; reg[a]; b"), (2, "let w = b; reg; reg[a]; w")] {
        let src = format!("pipeline({n}) m(clk: clock, a: bool, b: bool) -> bool {{ {body} }}");
        rep.case(&src, true);
        let c = compile(&src);
        if !c.ok { continue }
        // the condition of the last boundary must be a delayed by the stages before it
        let Ok(mods) = parse(&c.verilog) else { continue };
        let Some(m) = crate::prog::module(&mods, "m") else { continue };
        let Ok(mut s) = Sim::new(&mods, &m.name) else { continue };
        let mut ok = true;
        // a is high in cycle 0 only: undelayed, the last boundary opens in cycle 0 instead of cycle n-1
        let mut last = vec![];
        for t in 0..n + 3 {
            let _ = s.set("a_i", Bv(vec![(t == 0) as u8])); let _ = s.set("b_i", Bv(vec![(t < n) as u8]));
            if s.settle().is_err() { ok = false; break }
            last.push(s.get("output__").ok().map(|b| b.0[0]).unwrap_or(2));
            if s.cycle("clk_i").is_err() { ok = false; break }
        }
        if ok && last[n] != 1 { rep.fail("late-condition", format!("the condition of a stage reads a name of an earlier stage undelayed: pipeline({n}) {{ {body} }}"), src) }
    }
}
/// whether output == input delayed by `n`
fn run1(v: &str, name: &str, n: usize) -> Option<bool> {
    let mods = parse(v).ok()?;
    let m = crate::prog::module(&mods, name)?;
    let mut s = Sim::new(&mods, &m.name).ok()?;
    let mut ins = vec![];
    for t in 0..16usize {
        let b = ((0b1011_0010_1101_0110u32 >> t) & 1) as u8;
        ins.push(b);
        s.set("a_i", Bv(vec![b])).ok()?;
        s.settle().ok()?;
        let o = s.get("output__").ok()?;
        if t > n + 2 && o.0[0] != ins[t - n] { return Some(false) }
        s.cycle("clk_i").ok()?;
    }
    Some(true)
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "a generated pipeline with at least one boundary whose outputs were compared with the delayed-value model, or a pipeline that uses a value too early together with its waiting counterpart".into();
    let mut r = Rng::new(seed);
    known(rep);
    while rep.time_left() { batch(rep, &mut r); for _ in 0..2 { if rep.time_left() { early(rep, &mut r) } } }
}
