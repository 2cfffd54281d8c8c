//! C09: field ranges of ports against an independent layout; values driven and observed through them on the
//! generated Verilog.
use crate::prog::*;
use crate::util::*;
use crate::vlog::{Bv, Sim};
use spade_simulation_ext::{BitString, Spade, field_ref::{FieldRef, FieldSource}};
use std::collections::HashMap;

/// a data type or a struct with members of both directions; `true`: seen through `inv`
#[derive(Clone, PartialEq, Debug)]
enum N { Data(Ty, bool), Port(usize, bool) }
struct Design { p: Prog, ports: Vec<Vec<(String, N)>>, params: Vec<(String, N, bool)>, out: N, body: String, links: Vec<(Vec<String>, Vec<String>)> }
fn flip(n: &N, f: bool) -> N { match n { N::Data(t, i) => N::Data(t.clone(), *i != f), N::Port(k, i) => N::Port(*k, *i != f) } }
impl Design {
    fn kids(&self, n: &N) -> Vec<(String, N)> {
        match n {
            N::Data(Ty::S(i), inv) => self.p.structs[*i].iter().map(|(f, t)| (f.clone(), N::Data(t.clone(), *inv))).collect(),
            N::Port(k, inv) => self.ports[*k].iter().map(|(f, m)| (f.clone(), flip(m, *inv))).collect(),
            _ => vec![],
        }
    }
    fn size(&self, n: &N, back: bool) -> usize {
        match n { N::Data(t, i) => if *i == back { self.p.width(t) } else { 0 }, n => self.kids(n).iter().map(|k| self.size(&k.1, back)).sum() }
    }
    fn ty(&self, n: &N) -> String { match n { N::Data(t, i) => format!("{}{}", if *i { "inv " } else { "" }, self.p.ty(t)), N::Port(k, i) => format!("{}P{k}", if *i { "inv " } else { "" }) } }
    fn src(&self) -> String {
        let mut l = self.p.defs_text();
        for (i, m) in self.ports.iter().enumerate() { l.push(format!("struct P{i} {{ {} }}", m.iter().map(|(f, n)| format!("{f}: {}", self.ty(n))).collect::<Vec<_>>().join(", "))) }
        l.push(format!("entity dut({}) -> {} {{ {} }}", self.params.iter().map(|(f, n, nm)| format!("{}{f}: {}", if *nm { "#[no_mangle] " } else { "" }, self.ty(n))).collect::<Vec<_>>().join(", "), self.ty(&self.out), self.body));
        l.join("\n")
    }
}
fn node(g: &mut Gen, ports: usize) -> N {
    let inv = g.r.chance(1, 3);
    if ports > 0 && g.r.chance(2, 5) { return N::Port(g.r.us(ports), inv) }
    if g.r.chance(1, 12) { return N::Data(Ty::T(vec![]), false) }
    let t = if g.r.chance(1, 4) { Ty::S(g.r.us(g.p.structs.len())) } else { g.small_ty(2) };
    N::Data(t, inv)
}
fn design(r: &mut Rng) -> Design {
    let mut g = Gen::new(r, Cfg { depth: 1, ops: false, agg: true, max_w: 9, div: false, array_fns: false });
    g.defs();
    let names = [["x", "y", "val", "input"], ["ab", "a", "b", "abc"], ["output", "out", "o", "put"]][g.r.us(3)];
    let mut ports: Vec<Vec<(String, N)>> = vec![];
    for k in 0..3 { let n = 1 + g.r.us(4); let m = (0..n).map(|i| (names[i].to_string(), node(&mut g, k))).collect(); ports.push(m) }
    let np = 1 + g.r.us(3);
    let pn = ["a", "o", "i"];
    let params: Vec<(String, N, bool)> = (0..np).map(|i| { let n = node(&mut g, 3); (pn[i].to_string(), n, false) }).collect();
    let mut d = Design { p: g.p, ports, params, out: N::Data(Ty::B, false), body: String::new(), links: vec![] };
    for i in 0..np { if matches!(d.params[i].1, N::Data(..)) && d.size(&d.params[i].1, false) + d.size(&d.params[i].1, true) > 0 && r.chance(1, 4) { d.params[i].2 = true; d.params[i].0 = format!("nm{i}"); } }
    // every parameter, or its members one by one, goes to a member of the output
    let mut m = vec![];
    for (f, n, _) in &d.params {
        if let (N::Port(..), true) = (n, r.chance(1, 2)) { for (k, c) in d.kids(n) { m.push((vec![f.clone(), k.clone()], format!("{f}.{k}"), c)) } } else { m.push((vec![f.clone()], f.clone(), n.clone())) }
    }
    r.shuffle(&mut m);
    if m.len() == 1 && r.chance(1, 2) { d.out = m[0].2.clone(); d.body = m[0].1.clone(); d.links.push((m[0].0.clone(), vec![])) }
    else {
        let k = d.ports.len();
        d.ports.push(m.iter().enumerate().map(|(i, x)| (format!("m{i}"), x.2.clone())).collect());
        d.out = N::Port(k, false);
        d.body = format!("P{k}({})", m.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(", "));
        for (i, x) in m.iter().enumerate() { d.links.push((x.0.clone(), vec![format!("m{i}")])) }
    }
    d
}
struct At { path: Vec<String>, n: N, fwd: (usize, usize), back: (usize, usize), root: (usize, usize) }
/// every field reachable from a port, with the bits it must occupy: the members of a struct follow each other
/// in declaration order, forward and inverted bits counted separately
fn fields(d: &Design, at: At, out: &mut Vec<At>) {
    let (mut f, mut b) = (at.fwd.0, at.back.0);
    for (k, c) in d.kids(&at.n) {
        let (fs, bs) = (d.size(&c, false), d.size(&c, true));
        let mut path = at.path.clone(); path.push(k);
        fields(d, At { path, n: c, fwd: (f, f + fs), back: (b, b + bs), root: at.root }, out);
        f += fs; b += bs;
    }
    out.push(at);
}
fn get(s: &mut Spade, path: &[String]) -> Result<FieldRef, String> {
    let e = |e: spade_simulation_ext::error::Error| format!("{e:?}").chars().take(300).collect::<String>();
    let mut f = if path[0] == "\0out" { s.output_as_field_ref().map_err(e)?.ok_or("no output")? } else { s.arg_as_field(&path[0]).map_err(e)? };
    for p in &path[1..] { f = s.field_of_field(&mut f, p).map_err(e)? }
    Ok(f)
}
fn txt(b: &Bv) -> String { b.str() }
fn round_(rep: &mut Rep, r: &mut Rng) {
    let d = design(r);
    let src = d.src();
    rep.cur(&src);
    let (c, st) = compile_state(&src);
    let Some(st) = st else {
        if let Some(p) = &c.panicked { rep.fail("panic", format!("the compiler panics: {p}"), src) } else { rep.note("not compiled"); if std::env::var("VH_SHOW").is_ok() { eprintln!("{src}\n{}", c.diags) } }
        return;
    };
    let s = guard(|| Spade::new("t::dut".into(), st.to_string_lossy().into()));
    let _ = std::fs::remove_file(&st);
    let mut s = match s { Ok(Ok(s)) => s, Ok(Err(e)) => { rep.fail("load", format!("the compiled unit cannot be loaded: {e}"), src); return } Err(e) => { rep.fail("load", format!("panic while loading the compiled unit: {e}"), src); return } };
    let mut all = vec![];
    let mut roots: Vec<(Vec<String>, N)> = d.params.iter().map(|(f, n, _)| (vec![f.clone()], n.clone())).collect();
    roots.push((vec!["\0out".to_string()], d.out.clone()));
    for (path, n) in roots {
        let (f, b) = (d.size(&n, false), d.size(&n, true));
        fields(&d, At { path, n, fwd: (0, f), back: (0, b), root: (f, b) }, &mut all);
    }
    r.shuffle(&mut all);
    let show = |p: &[String]| p.join(".").replace('\0', "");
    let mut refs: HashMap<Vec<String>, FieldRef> = HashMap::new();
    for at in &all {
        let out = at.path[0] == "\0out";
        let f = match guard(|| get(&mut s, &at.path)) { Ok(Ok(f)) => f, Ok(Err(e)) | Err(e) => { rep.fail("access", format!("`{}` cannot be accessed: {e}", show(&at.path)), src); return } };
        let (drv, obs) = if out { (at.back, at.fwd) } else { (at.fwd, at.back) };
        let (drn, obn) = if out { (at.root.1, at.root.0) } else { at.root };
        let want = |x: (usize, usize), n: usize| if x.0 == x.1 { None } else { Some((x.0 as u64, x.1 as u64, x == (0, n))) };
        let (wd, wo) = (want(drv, drn), want(obs, obn));
        let (gd, go) = (f.fwd_range().map(|x| (x.from, x.to, x.is_full)), f.back_range().map(|x| (x.from, x.to, x.is_full)));
        rep.case(&format!("{}:{}", show(&at.path), src), true);
        if gd != wd || go != wo { rep.fail("range", format!("`{}` is driven at {gd:?} and observed at {go:?}; it occupies {wd:?} and {wo:?} (from, to, whole port)", show(&at.path)), src); return }
        if f.write_dir_range().ok().map(|x| (x.from, x.to, x.is_full)) != wd.filter(|_| wo.is_none()) { rep.fail("direction", format!("`{}` can be written although it is not a purely driven field, or the reverse", show(&at.path)), src); return }
        if f.read_dir_range().ok().map(|x| (x.from, x.to, x.is_full)) != wo.filter(|_| wd.is_none()) { rep.fail("direction", format!("`{}` can be read although it is not a purely observed field, or the reverse", show(&at.path)), src); return }
        for (x, n) in [(f.fwd_range(), drn), (f.back_range(), obn)] { if let Some(x) = x { let g = x.as_downto(n as u64); if g != (n as u64 - x.to, n as u64 - x.from) { rep.fail("downto", format!("bits {x:?} of a signal of {n} bits are {g:?} in Verilog"), src); return } } }
        if matches!(f.source, FieldSource::Output {}) != out { rep.fail("direction", format!("`{}` is taken for a field of the wrong side", show(&at.path)), src); return }
        refs.insert(at.path.clone(), f);
    }
    // values
    let mods = match crate::vlog::parse(&c.verilog) { Ok(m) => m, Err(e) => { rep.fail("text", e, src); return } };
    let Some(m) = module(&mods, "dut") else { rep.note("no module"); return };
    let mut sim = match Sim::new(&mods, &m.name) { Ok(s) => s, Err(e) => { rep.fail("text", e, src); return } };
    for _ in 0..3 {
        // (path written, path read, type, value)
        let mut plan: Vec<(Vec<String>, Vec<String>, Ty, Val)> = vec![];
        for (pi, po) in &d.links {
            let mut q = vec![(pi.clone(), { let mut x = vec!["\0out".to_string()]; x.extend(po.iter().cloned()); x })];
            while let Some((a, b)) = q.pop() {
                let n = &all.iter().find(|x| x.path == a).unwrap().n;
                let kids = d.kids(n);
                if !kids.is_empty() && (matches!(n, N::Port(..)) || r.chance(1, 2)) { for (k, _) in kids { let (mut x, mut y) = (a.clone(), b.clone()); x.push(k.clone()); y.push(k); q.push((x, y)) } continue }
                let N::Data(t, inv) = n else { continue };
                if d.p.width(t) == 0 { continue }
                let v = d.p.rand_val(r, t);
                plan.push(if *inv { (b, a, t.clone(), v) } else { (a, b, t.clone(), v) });
            }
        }
        r.shuffle(&mut plan);
        // signals as strings, most significant bit first
        let mut sig: HashMap<String, Vec<char>> = HashMap::new();
        for at in &all { if at.path.len() == 1 { let f = &refs[&at.path]; let n = if at.path[0] == "\0out" { at.root.1 } else { at.root.0 }; if n > 0 { sig.insert(f.source.fwd_mangled().to_string(), vec!['x'; n]); } } }
        for (w, _, t, v) in &plan {
            let f = &refs[w];
            let lit = d.p.lit(v, t);
            let want = txt(&d.p.encode(t, v));
            let got = match guard(|| s.compile_field_value(f, &lit)) { Ok(Ok(b)) => b.0, Ok(Err(e)) => { rep.fail("value", format!("`{lit}` is not accepted for `{}`: {e:?}", show(w)), src); return } Err(e) => { rep.fail("value", format!("panic on `{lit}` for `{}`: {e}", show(w)), src); return } };
            if got.to_lowercase() != want { rep.fail("value", format!("`{lit}` as a value of `{}` is {got}, expected {want}", show(w)), src); return }
            let rg = f.write_dir_range().ok().unwrap();
            let n = sig[f.source.fwd_mangled()].len();
            let (lo, hi) = rg.as_downto(n as u64);
            let b = sig.get_mut(f.source.fwd_mangled()).unwrap();
            // as a testbench does it: bit k of the signal counted from the least significant one
            for (j, ch) in got.chars().enumerate() { let k = hi as usize - 1 - j; if k < lo as usize { break } b[n - 1 - k] = ch.to_ascii_lowercase() }
        }
        let mut bad = None;
        for (k, v) in &sig { let b: String = v.iter().collect(); let b = fill_x(r, Bv::parse(&b)); if let Err(e) = sim.set(k, b) { bad = Some(e) } }
        if let Some(e) = bad.or(sim.settle().err()) { rep.fail("simulate", format!("the testbench cannot drive the unit: {e}"), src); return }
        for (w, o, t, v) in &plan {
            let f = &refs[o];
            let Ok(bits) = sim.get(f.source.back_mangled()) else { rep.fail("simulate", format!("no signal {} for `{}`", f.source.back_mangled(), show(o)), src); return };
            let bs = txt(&bits);
            let at = all.iter().find(|x| x.path == *o).unwrap();
            let rg = if o[0] == "\0out" { at.fwd } else { at.back };
            let part = Bv::parse(&bs[rg.0..rg.1]);
            let mut vals = vec![v.clone()];
            for _ in 0..2 { vals.push(d.p.rand_val(r, t)) }
            for (i, v2) in vals.iter().enumerate() {
                let lit = d.p.lit(v2, t);
                let want = d.p.encode(t, v2).refines(&part);
                if i == 0 && !want { rep.fail("path", format!("`{lit}` written at `{}` is read as {} at `{}`", show(w), part.str(), show(o)), src); return }
                rep.case(&format!("{}{lit}:{src}", show(o)), true);
                match guard(|| s.compare_field(f.clone(), &lit, &BitString(bs.clone()))) {
                    Ok(Ok(c)) => {
                        if c.matches() != want { rep.fail("compare", format!("`{}` with bits {} (of {bs}) {} `{lit}` = {}", show(o), part.str(), if want { "does not match" } else { "matches" }, c.expected_bits.0), src); return }
                        if c.got_bits.0 != part.str() { rep.fail("compare", format!("the bits of `{}` in {bs} are reported as {}", show(o), c.got_bits.0), src); return }
                        rep.note(if want { "comparisons: equal" } else { "comparisons: different" });
                        if i == 0 && matches!(t, Ty::U(_) | Ty::I(_) | Ty::B) {
                            let txt = match v2 { Val::N(n) => n.to_string(), Val::B(b) => b.to_string(), _ => String::new() };
                            if c.got_spade != txt { rep.fail("display", format!("`{}` with the value {txt} is shown as {}", show(o), c.got_spade), src); return }
                        }
                    }
                    Ok(Err(e)) => { rep.fail("compare", format!("`{}` cannot be compared with `{lit}`: {e:?}", show(o)), src); return }
                    Err(e) => { rep.fail("compare", format!("panic comparing `{}` with `{lit}`: {e}", show(o)), src); return }
                }
            }
        }
    }
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "a field of a port of a compiled unit, or a value compared with such a field".into();
    let mut r = Rng::new(seed);
    while rep.time_left() { round_(rep, &mut r) }
}
