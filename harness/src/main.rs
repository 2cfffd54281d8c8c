#![allow(clippy::all)]
mod util;
mod vlog;
#[allow(dead_code)]
mod mirb;
#[allow(dead_code)]
mod prog;
#[allow(dead_code)]
mod pexpr;
include!("modules.rs");

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: f64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(10.0);
    let out = a.get(4).cloned();
    if std::env::var("VH_BT").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    util::watch(out.clone());
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut rep = util::Rep::new(secs);
        if !dispatch(&prop, seed, &mut rep) { eprintln!("unknown property {prop}"); std::process::exit(3) }
        rep
    }).unwrap();
    match h.join() {
        Ok(rep) => { let j = rep.json(); match out { Some(o) => std::fs::write(o, j).unwrap(), None => println!("{j}") } }
        Err(e) => { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); eprintln!("harness panicked: {m}"); std::process::exit(4) }
    }
}
