//! C17: every combination of spans, the position map against a plain list, and the range of every node of
//! parsed expressions.
use crate::pexpr::*;
use crate::util::*;
use spade_codespan::Span;
use spade_common::loc_map::LocMap;
use spade_common::location_info::{AsLabel, FullSpan, HasCodespan, Loc, WithLocation};

type R = (u32, u32);
fn rg(s: Span) -> R { let x: std::ops::Range<usize> = s.into(); (x.start as u32, x.end as u32) }
fn combos(rep: &mut Rep, a: R, b: R, f: usize, g: usize) {
    let d = format!("spans {a:?} {b:?} files {f} {g}");
    rep.case(&d, a != b);
    let (la, lb) = (Loc::new(7u8, Span::new(a.0, a.1), f), Loc::new("x", Span::new(b.0, b.1), f));
    let lo = Loc::new((), Span::new(b.0, b.1), g);
    let m = (a.0.min(b.0), a.1.max(b.1));
    let mut bad = |k: &str, got: String, want: String| if got != want { rep.fail("combine", format!("{k} of {d}: {got} instead of {want}"), d.clone()) };
    let sh = |l: &Loc<()>| format!("{:?} file {}", rg(l.span), l.file_id);
    let w = |r: R| format!("{r:?} file {f}");
    let r = match guard(|| {
        let mut o: Vec<(&str, String, String)> = vec![];
        o.push(("between_locs", sh(&().between_locs(&la, &lb)), w(m)));
        o.push(("between_locs swapped", sh(&().between_locs(&lb, &la)), w(m)));
        o.push(("between", sh(&().between(f, &la, &lb)), w(m)));
        o.push(("between swapped", sh(&().between(f, &lb.span, &la)), w(m)));
        o.push(("between ranges", sh(&().between(f, &(a.0 as usize..a.1 as usize), &(b.0 as usize..b.1 as usize))), w(m)));
        o.push(("at", sh(&().at(f, &la)), w(a)));
        o.push(("at_loc", sh(&().at_loc(&la)), w(a)));
        o.push(("near_loc", sh(&().near_loc(&la)), w(a)));
        o.push(("loc", sh(&la.loc()), w(a)));
        o.push(("map", sh(&la.map(|_| ())), w(a)));
        o.push(("map_ref", sh(&la.map_ref(|_| ())), w(a)));
        o.push(("try_map", sh(&la.try_map(|_| Ok::<(), ()>(())).unwrap()), w(a)));
        o.push(("try_map_ref", sh(&la.try_map_ref(|_| Ok::<(), ()>(())).unwrap()), w(a)));
        o.push(("transpose", sh(&Loc::new(Some(()), la.span, f).transpose().unwrap()), w(a)));
        o.push(("map_err", sh(&Loc::new(Ok::<(), ()>(()), la.span, f).map_err(|_, _| ()).unwrap()), w(a)));
        o.push(("map_err loc", sh(&Loc::new(Err::<(), ()>(()), la.span, f).map_err(|_, l| l).unwrap_err()), w(a)));
        o.push(("start_span", sh(&la.start_span()), w((a.0, a.0))));
        o.push(("end_span", sh(&la.end_span()), w((a.1, a.1))));
        o.push(("split_loc", sh(&la.split_loc().1), w(a)));
        o.push(("split_loc_ref", sh(&la.split_loc_ref().1), w(a)));
        o.push(("separate_loc", sh(&la.separate_loc().1), w(a)));
        o.push(("split", format!("{:?} {:?} {:?}", rg(la.split().1), rg(la.split_ref().1), rg(la.separate().1)), format!("{a:?} {a:?} {a:?}")));
        let fs: FullSpan = (&la).into();
        o.push(("full span", format!("{:?} {}", rg(fs.0), fs.1), format!("{a:?} {f}")));
        o.push(("label", format!("{:?} {} {:?} {}", AsLabel::span(&la), AsLabel::file_id(&la), AsLabel::span(&fs), AsLabel::file_id(&fs)), format!("{}..{} {f} {}..{} {f}", a.0, a.1, a.0, a.1)));
        o.push(("codespan", format!("{:?} {:?}", rg(la.codespan()), rg((a.0 as usize..a.1 as usize).codespan())), format!("{a:?} {a:?}")));
        o.push(("contains_start", la.contains_start(&lo).to_string(), (f == g && a.0 <= b.0 && b.0 < a.1).to_string()));
        o.push(("ends_before", la.ends_before(&lo).to_string(), (f == g && a.1 < b.0).to_string()));
        o.push(("is_same_loc", la.is_same_loc(&lo).to_string(), (f == g && a == b).to_string()));
        if a.1 - a.0 >= 3 {
            o.push(("shrink_left", sh(&la.shrink_left("é(")), w((a.0 + 3, a.1))));
            o.push(("shrink_right", sh(&la.shrink_right("é(")), w((a.0, a.1 - 3))));
        }
        if a.1 == a.0 { o.push(("shrink empty", sh(&la.shrink_left("(").shrink_right(")")), w(a))); }
        o
    }) { Ok(o) => o, Err(m) => { rep.fail("panic", format!("{d}: {m}"), d.clone()); return } };
    for (k, x, y) in r { bad(k, x, y) }
    if f != g && guard(|| ().between_locs(&la, &lo)).is_ok() { rep.fail("combine", format!("spans of different files combine: {d}"), d) }
}
fn maps(rep: &mut Rep, r: &mut Rng) {
    let n = r.us(40);
    let (m, files) = (1 + r.us(12) as u32, 1 + r.us(3));
    let mut v: Vec<(R, usize)> = vec![];
    for _ in 0..n { let (a, b) = (r.us(m as usize + 1) as u32, r.us(m as usize + 1) as u32); v.push(((a.min(b), a.max(b)), r.us(files))) }
    let mut map: LocMap<usize> = LocMap::new();
    for (i, (s, f)) in v.iter().enumerate() { map.insert(Loc::new(i, Span::new(s.0, s.1), *f)) }
    for _ in 0..12 {
        let (a, b) = (r.us(m as usize + 1) as u32, r.us(m as usize + 1) as u32);
        let (q, f) = if r.chance(1, 2) { ((a, a), r.us(files + 1)) } else { ((a.min(b), a.max(b)), r.us(files + 1)) };
        let d = format!("recorded {v:?}, looked up {q:?} in file {f}");
        rep.case(&d, n > 1);
        let got = match guard(|| map.around(&Loc::new((), Span::new(q.0, q.1), f)).iter().map(|l| (*l.inner, rg(l.span), l.file_id)).collect::<Vec<_>>()) { Ok(g) => g, Err(m) => { rep.fail("panic", format!("{d}: {m}"), d); continue } };
        let mut ids: Vec<usize> = got.iter().map(|x| x.0).collect();
        ids.sort();
        let want: Vec<usize> = (0..v.len()).filter(|i| v[*i].1 == f && v[*i].0 .0 <= q.0 && v[*i].0 .1 >= q.1).collect();
        if ids != want { rep.fail("lookup", format!("{d}: found {ids:?} instead of {want:?}"), d.clone()) }
        for (i, s, g) in &got { if v.get(*i).map(|x| (x.0, x.1)) != Some((*s, *g)) { rep.fail("lookup", format!("{d}: item {i} is said to be at {s:?} in file {g}"), d.clone()) } }
    }
}
fn trees(rep: &mut Rep, r: &mut Rng) {
    let d = 1 + r.us(5);
    let e = mk(r, d);
    let e = canon(r, e, true);
    let mut o = Out::new(2);
    let want = o.put(r, &e);
    rep.case(&o.s, want.nodes() > 2);
    if let Ok(t) = parse(&o.s) {
        if t.shape() == want.shape() {
            if let Some((k, g, w)) = t.diff(&want) { rep.fail("range", format!("in `{}` the node `{k}` is given the range {g:?} `{}` instead of {w:?} `{}`", o.s, o.s.get(g.0..g.1).unwrap_or("?"), o.s.get(w.0..w.1).unwrap_or("?")), o.s.clone()) }
        }
    }
}
pub fn run(seed: u64, rep: &mut Rep) {
    rep.rule = "two different spans, a map with two or more items, or an expression with at least two nodes".into();
    let mut r = Rng::new(seed);
    for a in 0..5u32 { for b in a..5 { for c in 0..5u32 { for d in c..5 { combos(rep, (a, b), (c, d), 1, 1); if (a + d) % 3 == 0 { combos(rep, (a, b), (c, d), 1, 2) } } } } }
    while rep.time_left() {
        for _ in 0..4 {
            let mut q = |r: &mut Rng| { let k = if r.chance(1, 4) { u32::MAX as u64 } else { 300 }; let (a, b) = (r.below(k) as u32, r.below(k) as u32); (a.min(b), a.max(b)) };
            let (a, b) = (q(&mut r), q(&mut r));
            let (f, g) = (r.us(3), r.us(3));
            combos(rep, a, b, f, g);
        }
        maps(rep, &mut r);
        for _ in 0..4 { trees(rep, &mut r) }
    }
}
