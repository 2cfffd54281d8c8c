//! shared harness support: deterministic random numbers, reporting, compiling, MIR building
#![allow(dead_code)]
use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E3779B97F4A7C15); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
    pub fn bits(&mut self, w: usize) -> crate::vlog::Bv {
        match self.below(8) {
            0 => crate::vlog::Bv(vec![0; w]),
            1 => crate::vlog::Bv(vec![1; w]),
            2 => { let k = self.us(w.max(1)); crate::vlog::Bv((0..w).map(|i| (i == k) as u8).collect()) }
            _ => crate::vlog::Bv((0..w).map(|_| (self.next() & 1) as u8).collect()),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j) } }
}

pub struct Rep {
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<(String, String, String)>, // key, what, input
    pub notes: BTreeMap<String, u64>,
    pub deadline: Instant,
    pub max_failures: usize,
    pub rule: String,
    pub exhaustive: bool,
}
impl Rep {
    pub fn new(secs: f64) -> Rep { Rep { evals: 0, seen: HashSet::new(), samples: vec![], failures: vec![], notes: BTreeMap::new(), deadline: Instant::now() + Duration::from_secs_f64(secs), max_failures: 8, rule: String::new(), exhaustive: false } }
    pub fn time_left(&self) -> bool { Instant::now() < self.deadline && self.failures.len() < self.max_failures }
    /// note what is about to be evaluated: a hang, a runaway allocation or a crash is blamed on it
    pub fn cur(&self, desc: &str) { set_cur(desc) }
    /// count one case; `nontrivial` per the module's rule
    pub fn case(&mut self, desc: &str, nontrivial: bool) {
        self.evals += 1;
        set_cur(desc);
        if nontrivial {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.seen.insert(h.finish()) && self.samples.len() < 6 && (self.seen.len() % 7 == 1) { self.samples.push(desc.chars().take(600).collect()) }
        }
    }
    pub fn note(&mut self, k: &str) { *self.notes.entry(k.to_string()).or_default() += 1 }
    pub fn fail(&mut self, key: &str, what: String, input: String) {
        if self.failures.iter().any(|f| f.0 == key && f.1 == what) { return }
        if self.failures.iter().filter(|f| f.0 == key).count() >= 3 { return }
        self.failures.push((key.to_string(), what, input))
    }
    pub fn json(&self) -> String {
        let s = |x: &str| jstr(x);
        let mut o = String::from("{");
        o += &format!("\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"exhaustive\":{},", self.evals, self.seen.len(), s(&self.rule), self.exhaustive);
        o += &format!("\"samples\":[{}],", self.samples.iter().map(|x| s(x)).collect::<Vec<_>>().join(","));
        o += &format!("\"notes\":{{{}}},", self.notes.iter().map(|(k, v)| format!("{}:{}", s(k), v)).collect::<Vec<_>>().join(","));
        o += &format!("\"failures\":[{}]", self.failures.iter().map(|(k, w, i)| format!("{{\"key\":{},\"what\":{},\"input\":{}}}", s(k), s(w), s(i))).collect::<Vec<_>>().join(","));
        o + "}"
    }
}
static CUR: std::sync::Mutex<(String, Option<Instant>)> = std::sync::Mutex::new((String::new(), None));
static TRACE: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
pub fn set_cur(desc: &str) {
    { let mut c = CUR.lock().unwrap(); c.0.clear(); c.0.push_str(desc); c.1 = Some(Instant::now()); }
    if let Some(p) = TRACE.get_or_init(|| std::env::var("VH_TRACE").ok()) { let _ = std::fs::write(p, desc); }
}
/// ends the run with a failure when one case takes far too long or the process grows far too large
pub fn watch(out: Option<String>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let (d, t) = { let c = CUR.lock().unwrap(); (c.0.clone(), c.1) };
        let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096;
        let what = if rss > 3 << 30 { "the memory use exceeds 3 GB (no termination)" } else if t.map(|t| t.elapsed() > Duration::from_secs(100)).unwrap_or(false) { "no result after 100 seconds (no termination)" } else { continue };
        let mut rep = Rep::new(0.0);
        rep.evals = 1;
        rep.fail("runaway", what.into(), d);
        let j = rep.json();
        match &out { Some(o) => { let _ = std::fs::write(o, j); } None => println!("{j}") }
        std::process::exit(0)
    });
}
pub fn jstr(x: &str) -> String {
    let mut r = String::from("\"");
    for c in x.chars() {
        match c { '"' => r += "\\\"", '\\' => r += "\\\\", '\n' => r += "\\n", '\t' => r += "\\t", '\r' => r += "\\r", c if (c as u32) < 32 => r += &format!("\\u{:04x}", c as u32), c => r.push(c) }
    }
    r + "\""
}

/// run f, turning a panic into Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() }
    })
}

pub struct Compiled { pub ok: bool, pub verilog: String, pub diags: String, pub mir: Vec<spade_mir::Entity>, pub panicked: Option<String> }

pub fn compile_opt(src: &str, stdlib: bool, passes: &[&str]) -> Compiled { compile_full(src, stdlib, passes, None) }
/// as `compile`, also writing the compiler state a simulator starts from; the caller removes the file
pub fn compile_state(src: &str) -> (Compiled, Option<std::path::PathBuf>) {
    let out = std::env::temp_dir().join(format!("vh_{}_{:?}.state", std::process::id(), std::thread::current().id()));
    let _ = std::fs::remove_file(&out);
    let c = compile_full(src, true, &[], Some(out.clone()));
    let f = out.exists().then_some(out);
    (c, f)
}
fn compile_full(src: &str, stdlib: bool, passes: &[&str], state: Option<std::path::PathBuf>) -> Compiled {
    use spade_codespan_reporting::term::termcolor::Buffer;
    use spade_diagnostics::{DiagHandler, emitter::CodespanEmitter};
    use spade_common::name::Path as SPath;
    let out = std::env::temp_dir().join(format!("vh_{}_{:?}.v", std::process::id(), std::thread::current().id()));
    let _ = std::fs::remove_file(&out);
    let mut buffer = Buffer::no_color();
    let res = guard(|| {
        let opts = spade::Opt {
            error_buffer: &mut buffer, outfile: Some(out.clone()), mir_output: None, verilator_wrapper_output: None,
            state_dump_file: state, item_list_file: None, print_parse_traceback: None, opt_passes: passes.iter().map(|s| s.to_string()).collect(),
        };
        let ns = spade::ModuleNamespace { namespace: SPath::from_strs(&["t"]), base_namespace: SPath::from_strs(&["t"]), file: "t.spade".to_string(), working_dir: None };
        let r = spade::compile(vec![(ns, "t.spade".to_string(), src.to_string())], spade::CompilationGoal::Codegen, stdlib, opts, DiagHandler::new(Box::new(CodespanEmitter)));
        match r { Ok(a) => (true, a.bumpy_mir_entities.unwrap_or_default()), Err(_) => (false, vec![]) }
    });
    let diags = String::from_utf8_lossy(buffer.as_slice()).to_string();
    let verilog = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    match res { Ok((ok, mir)) => Compiled { ok, verilog, diags, mir, panicked: None }, Err(e) => Compiled { ok: false, verilog, diags, mir: vec![], panicked: Some(e) } }
}
/// everything the compiler knows after an accepted compilation
pub fn artefacts(src: &str) -> Option<spade::Artefacts> {
    use spade_codespan_reporting::term::termcolor::Buffer;
    use spade_diagnostics::{DiagHandler, emitter::CodespanEmitter};
    use spade_common::name::Path as SPath;
    let mut buffer = Buffer::no_color();
    guard(|| {
        let opts = spade::Opt { error_buffer: &mut buffer, outfile: None, mir_output: None, verilator_wrapper_output: None, state_dump_file: None, item_list_file: None, print_parse_traceback: None, opt_passes: vec![] };
        let ns = spade::ModuleNamespace { namespace: SPath::from_strs(&["t"]), base_namespace: SPath::from_strs(&["t"]), file: "t.spade".to_string(), working_dir: None };
        spade::compile(vec![(ns, "t.spade".to_string(), src.to_string())], spade::CompilationGoal::Codegen, true, opts, DiagHandler::new(Box::new(CodespanEmitter))).ok()
    }).ok().flatten()
}
pub fn compile(src: &str) -> Compiled { compile_opt(src, true, &[]) }

/// line numbers (1 based) of t.spade mentioned as primary location by error diagnostics
pub fn error_lines(diags: &str) -> Vec<(usize, String)> {
    let mut out = vec![];
    let mut cur = String::new();
    for l in diags.lines() {
        if l.starts_with("error") { cur = l.to_string() }
        if l.starts_with("warning") || l.starts_with("note") { cur.clear() }
        if let Some(i) = l.find("t.spade:") {
            if l.trim_start().starts_with("┌─") && !cur.is_empty() {
                let n: String = l[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(n) = n.parse() { out.push((n, cur.clone())) }
                cur.clear();
            }
        }
    }
    out
}
