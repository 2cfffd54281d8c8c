//! A small four-state simulator for the Verilog subset the Spade code generator emits.
//! Follows IEEE 1364 width and signedness rules for expressions.
use num::{BigInt, BigUint, One, Signed, ToPrimitive, Zero};
use std::collections::{HashMap, HashSet};

pub const X: u8 = 2;
pub const Z: u8 = 3;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Bv(pub Vec<u8>); // lsb first; 0 1 2=x 3=z

impl Bv {
    pub fn xs(w: usize) -> Bv { Bv(vec![X; w]) }
    pub fn zero(w: usize) -> Bv { Bv(vec![0; w]) }
    pub fn from_u(v: &BigUint, w: usize) -> Bv { Bv((0..w).map(|i| v.bit(i as u64) as u8).collect()) }
    pub fn from_i(v: &BigInt, w: usize) -> Bv {
        let m = BigInt::one() << w;
        let r = ((v % &m) + &m) % &m;
        Bv::from_u(&r.to_biguint().unwrap(), w)
    }
    pub fn parse(s: &str) -> Bv {
        Bv(s.chars().rev().map(|c| match c { '0' => 0, '1' => 1, 'z' | 'Z' => Z, _ => X }).collect())
    }
    pub fn w(&self) -> usize { self.0.len() }
    pub fn known(&self) -> bool { self.0.iter().all(|b| *b < 2) }
    pub fn to_u(&self) -> Option<BigUint> {
        if !self.known() { return None; }
        let mut r = BigUint::zero();
        for (i, b) in self.0.iter().enumerate() { if *b == 1 { r.set_bit(i as u64, true) } }
        Some(r)
    }
    pub fn to_i(&self) -> Option<BigInt> {
        let u = BigInt::from(self.to_u()?);
        if self.0.last() == Some(&1) { Some(u - (BigInt::one() << self.w())) } else { Some(u) }
    }
    pub fn ext(&self, w: usize, signed: bool) -> Bv {
        let mut v = self.0.clone();
        if v.len() > w { v.truncate(w) } else {
            let f = if signed { v.last().copied().unwrap_or(0) } else { 0 };
            v.resize(w, f)
        }
        Bv(v)
    }
    pub fn slice(&self, lo: i128, w: usize) -> Bv {
        Bv((0..w as i128).map(|i| { let k = lo + i; if k < 0 || k >= self.w() as i128 { X } else { self.0[k as usize] } }).collect())
    }
    pub fn concat_msb(parts: &[Bv]) -> Bv { let mut r = vec![]; for p in parts.iter().rev() { r.extend(p.0.iter().copied()) } Bv(r) }
    pub fn str(&self) -> String { self.0.iter().rev().map(|b| ['0', '1', 'x', 'z'][*b as usize]).collect() }
    /// every defined bit of `self` (the expected value) equals the bit of other
    pub fn refines(&self, got: &Bv) -> bool { self.w() == got.w() && self.0.iter().zip(&got.0).all(|(e, g)| *e >= 2 || e == g) }
    fn truth(&self) -> u8 { if self.0.iter().any(|b| *b == 1) { 1 } else if self.0.iter().any(|b| *b >= 2) { X } else { 0 } }
}

#[derive(Clone, Debug)]
pub enum Expr {
    Lit(Bv, bool /*signed*/, bool /*fill*/),
    Str,
    Id(String),
    Index(String, Box<Expr>),
    Range(String, Box<Expr>, Box<Expr>),
    Plus(String, Box<Expr>, Box<Expr>, bool),
    Concat(Vec<Expr>),
    Repl(Box<Expr>, Vec<Expr>),
    Un(String, Box<Expr>),
    Bin(String, Box<Expr>, Box<Expr>),
    Tern(Box<Expr>, Box<Expr>, Box<Expr>),
    Sgn(Box<Expr>, bool),
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Block(Vec<Stmt>),
    If(Expr, Box<Stmt>, Option<Box<Stmt>>),
    Blocking(Expr, Expr),
    NonBlocking(Expr, Expr),
    Casez(Expr, Vec<(Expr, Stmt)>),
    Nop,
}

#[derive(Clone, Debug)]
pub struct Decl { pub w: usize, pub scalar: bool, pub mem: Option<usize>, pub kind: &'static str }

#[derive(Clone, Debug)]
pub struct Instance { pub module: String, pub params: Vec<(String, Expr)>, pub name: String, pub conns: Vec<(String, Option<Expr>)> }

#[derive(Clone, Debug, Default)]
pub struct Module {
    pub name: String,
    pub ports: Vec<(String, &'static str, usize)>,
    pub decls: HashMap<String, Decl>,
    pub decl_order: Vec<String>,
    pub dups: Vec<String>,
    pub params: Vec<(String, Expr)>,
    pub assigns: Vec<(Expr, Expr)>,
    pub comb: Vec<Stmt>,
    pub seq: Vec<(Expr, Stmt)>,
    pub initial: Vec<Stmt>,
    pub instances: Vec<Instance>,
    pub defines: Vec<(String, String)>,
}

// ------------------------------------------------------------------ lexer
#[derive(Clone, Debug, PartialEq)]
enum T { Id(String, bool), Num(String), Op(String), Str, Sys(String) }

fn lex(src: &str) -> Result<Vec<T>, String> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() { i += 1; continue; }
        if ch == '/' && c.get(i + 1) == Some(&'/') { while i < c.len() && c[i] != '\n' { i += 1 } continue; }
        if ch == '(' && c.get(i + 1) == Some(&'*') && c.get(i + 2) != Some(&')') {
            i += 2;
            let mut instr = false;
            while i < c.len() { if c[i] == '"' { instr = !instr } if !instr && c[i] == '*' && c.get(i + 1) == Some(&')') { break } i += 1 }
            i += 2; continue;
        }
        if ch == '"' { i += 1; while i < c.len() && c[i] != '"' { if c[i] == '\\' { i += 1 } i += 1 } i += 1; out.push(T::Str); continue; }
        if ch == '\\' { let s = i + 1; while i < c.len() && !c[i].is_whitespace() { i += 1 } out.push(T::Id(c[s..i].iter().collect(), true)); continue; }
        if ch == '`' { let s = i; i += 1; while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1 } out.push(T::Op(c[s..i].iter().collect())); continue; }
        if ch == '$' { let s = i; i += 1; while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1 } out.push(T::Sys(c[s..i].iter().collect())); continue; }
        if ch.is_ascii_digit() || ch == '\'' {
            let s = i;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '_') { i += 1 }
            if i < c.len() && c[i] == '\'' {
                i += 1;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '?' || c[i] == '_') { i += 1 }
            }
            out.push(T::Num(c[s..i].iter().collect())); continue;
        }
        if ch.is_alphabetic() || ch == '_' {
            let s = i; while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') { i += 1 }
            out.push(T::Id(c[s..i].iter().collect(), false)); continue;
        }
        let mut found = false;
        for op in [">>>", "<<<", "===", "!==", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+:", "-:", "~^", "^~", "~&", "~|"] {
            let o: Vec<char> = op.chars().collect();
            if c[i..].starts_with(&o) { out.push(T::Op(op.into())); i += o.len(); found = true; break; }
        }
        if found { continue }
        if "+-*/%&|^~!?:;,.#()[]{}=<>@".contains(ch) { out.push(T::Op(ch.to_string())); i += 1; continue; }
        return Err(format!("lex: unexpected {ch:?}"));
    }
    Ok(out)
}

// ------------------------------------------------------------------ parser
struct P { t: Vec<T>, i: usize }
type R<A> = Result<A, String>;

impl P {
    fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    fn is(&self, o: &str) -> bool { matches!(self.peek(), Some(T::Op(x)) if x == o) }
    fn isk(&self, o: &str) -> bool { matches!(self.peek(), Some(T::Id(x, false)) if x == o) }
    fn eat(&mut self, o: &str) -> bool { if self.is(o) { self.i += 1; true } else { false } }
    fn eatk(&mut self, o: &str) -> bool { if self.isk(o) { self.i += 1; true } else { false } }
    fn need(&mut self, o: &str) -> R<()> { if self.eat(o) { Ok(()) } else { Err(format!("expected {o:?} at {:?}", self.ctx())) } }
    fn needk(&mut self, o: &str) -> R<()> { if self.eatk(o) { Ok(()) } else { Err(format!("expected {o:?} at {:?}", self.ctx())) } }
    fn ctx(&self) -> Vec<T> { self.t[self.i.saturating_sub(3)..(self.i + 4).min(self.t.len())].to_vec() }
    fn id(&mut self) -> R<String> {
        match self.peek().cloned() {
            Some(T::Id(s, esc)) => { if !esc && KEYWORDS.contains(&s.as_str()) { return Err(format!("keyword {s} used as identifier at {:?}", self.ctx())) } self.i += 1; Ok(s) }
            _ => Err(format!("expected identifier at {:?}", self.ctx())),
        }
    }
    fn lit(s: &str) -> R<Expr> {
        if let Some(k) = s.find('\'') {
            let (sz, rest) = (&s[..k], &s[k + 1..]);
            let mut it = rest.chars();
            let base = it.next().ok_or("bad literal")?.to_ascii_lowercase();
            let digits: String = it.filter(|c| *c != '_').collect();
            if digits.is_empty() { return Err(format!("literal {s} has no digits")) }
            let raw = match base {
                'b' => Bv(digits.chars().rev().map(|c| match c { '0' => Ok(0), '1' => Ok(1), 'x' | 'X' => Ok(X), 'z' | 'Z' | '?' => Ok(Z), _ => Err(format!("bad binary literal {s}")) }).collect::<R<Vec<u8>>>()?),
                'd' => {
                    let d = digits.to_lowercase();
                    if d == "x" { Bv(vec![X]) } else if d == "z" { Bv(vec![Z]) } else {
                        let v: BigUint = d.parse().map_err(|_| format!("bad literal {s}"))?;
                        let w = v.bits() as usize; Bv::from_u(&v, w + 1)
                    }
                }
                'h' => { let mut b = vec![]; for c in digits.chars().rev() { let d = c.to_digit(16).ok_or("hex")?; for k in 0..4 { b.push(((d >> k) & 1) as u8) } } Bv(b) }
                _ => return Err(format!("literal base {s}")),
            };
            let fillb = *raw.0.last().unwrap();
            let w = if sz.is_empty() { raw.w().max(32) } else { sz.parse::<usize>().map_err(|_| format!("bad size {s}"))? };
            if w == 0 { return Err(format!("zero width literal {s}")) }
            let mut b = raw.0.clone();
            if !sz.is_empty() && b.len() > w && b[w..].iter().any(|x| *x != 0) { return Err(format!("literal {s} does not fit its size")) }
            let f = if fillb >= 2 { fillb } else { 0 };
            if b.len() > w { b.truncate(w) } else { b.resize(w, f) }
            Ok(Expr::Lit(Bv(b), false, sz.is_empty() && fillb >= 2))
        } else {
            let v: BigUint = s.parse().map_err(|_| format!("bad literal {s}"))?;
            let w = (v.bits() as usize + 1).max(32);
            if v.bits() > 32 { return Err(format!("unsized literal {s} does not fit 32 bits")) }
            Ok(Expr::Lit(Bv::from_u(&v, w.min(32)), true, false))
        }
    }
    fn primary(&mut self) -> R<Expr> {
        match self.peek().cloned() {
            Some(T::Num(s)) => { self.i += 1; P::lit(&s) }
            Some(T::Str) => { self.i += 1; Ok(Expr::Str) }
            Some(T::Sys(s)) if s == "$signed" || s == "$unsigned" => {
                self.i += 1; self.need("(")?; let e = self.expr()?; self.need(")")?;
                Ok(Expr::Sgn(Box::new(e), s == "$signed"))
            }
            Some(T::Op(o)) if o == "(" => { self.i += 1; let e = self.expr()?; self.need(")")?; Ok(e) }
            Some(T::Op(o)) if o == "{" => {
                self.i += 1;
                if self.is("}") { return Err("empty concatenation".into()) }
                let first = self.expr()?;
                if self.is("{") {
                    self.i += 1;
                    let mut v = vec![self.expr()?];
                    while self.eat(",") { v.push(self.expr()?) }
                    self.need("}")?; self.need("}")?;
                    return Ok(Expr::Repl(Box::new(first), v));
                }
                let mut v = vec![first];
                while self.eat(",") { v.push(self.expr()?) }
                self.need("}")?;
                Ok(Expr::Concat(v))
            }
            Some(T::Op(o)) if ["+", "-", "!", "~", "&", "|", "^", "~^", "^~", "~&", "~|"].contains(&o.as_str()) => {
                self.i += 1; let e = self.primary()?; Ok(Expr::Un(o, Box::new(e)))
            }
            Some(T::Id(..)) => {
                let n = self.id()?;
                if self.eat("[") {
                    let a = self.expr()?;
                    let r = if self.eat(":") { let b = self.expr()?; Expr::Range(n, Box::new(a), Box::new(b)) }
                    else if self.eat("+:") { let b = self.expr()?; Expr::Plus(n, Box::new(a), Box::new(b), true) }
                    else if self.eat("-:") { let b = self.expr()?; Expr::Plus(n, Box::new(a), Box::new(b), false) }
                    else { Expr::Index(n, Box::new(a)) };
                    self.need("]")?;
                    if self.is("[") { return Err("double indexing".into()) }
                    Ok(r)
                } else { Ok(Expr::Id(n)) }
            }
            _ => Err(format!("expression expected at {:?}", self.ctx())),
        }
    }
    fn bp(o: &str) -> Option<u8> {
        Some(match o { "*" | "/" | "%" => 11, "+" | "-" => 10, "<<" | ">>" | ">>>" | "<<<" => 9, "<" | "<=" | ">" | ">=" => 8,
            "==" | "!=" | "===" | "!==" => 7, "&" => 6, "^" | "~^" | "^~" => 5, "|" => 4, "&&" => 3, "||" => 2, _ => return None })
    }
    fn bin(&mut self, min: u8) -> R<Expr> {
        let mut l = self.primary()?;
        loop {
            let o = match self.peek() { Some(T::Op(o)) => o.clone(), _ => break };
            match P::bp(&o) { Some(b) if b >= min => { self.i += 1; let r = self.bin(b + 1)?; l = Expr::Bin(o, Box::new(l), Box::new(r)) } _ => break }
        }
        Ok(l)
    }
    fn expr(&mut self) -> R<Expr> {
        let c = self.bin(0)?;
        if self.eat("?") { let a = self.expr()?; self.need(":")?; let b = self.expr()?; return Ok(Expr::Tern(Box::new(c), Box::new(a), Box::new(b))) }
        Ok(c)
    }
    fn stmt(&mut self) -> R<Stmt> {
        if self.eatk("begin") {
            let mut v = vec![];
            while !self.eatk("end") { v.push(self.stmt()?) }
            return Ok(Stmt::Block(v));
        }
        if self.eatk("if") {
            self.need("(")?; let c = self.expr()?; self.need(")")?;
            let a = self.stmt()?;
            let b = if self.eatk("else") { Some(Box::new(self.stmt()?)) } else { None };
            return Ok(Stmt::If(c, Box::new(a), b));
        }
        self.eatk("priority");
        if self.eatk("casez") {
            self.need("(")?; let c = self.expr()?; self.need(")")?;
            let mut v = vec![];
            while !self.eatk("endcase") { let k = self.expr()?; self.need(":")?; let s = self.stmt()?; v.push((k, s)) }
            return Ok(Stmt::Casez(c, v));
        }
        if self.eat(";") { return Ok(Stmt::Nop) }
        let l = self.primary()?;
        if self.eat("<=") { let e = self.expr()?; self.need(";")?; return Ok(Stmt::NonBlocking(l, e)) }
        self.need("=")?; let e = self.expr()?; self.need(";")?;
        Ok(Stmt::Blocking(l, e))
    }
    fn const_w(&mut self) -> R<(usize, bool)> {
        // optional [hi:lo] -> (width, scalar)
        if self.eat("[") {
            let hi = const_eval(&self.expr()?)?; self.need(":")?; let lo = const_eval(&self.expr()?)?; self.need("]")?;
            if lo != 0 || hi < 0 { return Err(format!("bad range [{hi}:{lo}]")) }
            Ok(((hi + 1) as usize, false))
        } else { Ok((1, true)) }
    }
    fn declare(m: &mut Module, n: &str, d: Decl) {
        if m.decls.insert(n.to_string(), d).is_some() { m.dups.push(n.to_string()) }
        m.decl_order.push(n.to_string());
    }
    fn module(&mut self) -> R<Module> {
        let mut m = Module::default();
        self.needk("module")?;
        m.name = self.id()?;
        self.need("(")?;
        while !self.eat(")") {
            let dir = if self.eatk("input") { "input" } else if self.eatk("output") { "output" } else if self.eatk("inout") { "inout" } else { return Err(format!("port direction expected {:?}", self.ctx())) };
            let (w, scalar) = self.const_w()?;
            let n = self.id()?;
            m.ports.push((n.clone(), dir, w));
            P::declare(&mut m, &n, Decl { w, scalar, mem: None, kind: dir });
            self.eat(",");
        }
        self.need(";")?;
        loop {
            if self.eatk("endmodule") { break }
            if self.is("`COCOTB_CODE") { self.i += 1; self.need("(")?; while !self.eat(")") { self.i += 1 } continue; }
            if self.is("`define") {
                self.i += 1; let a = self.id()?; let b = self.id()?; m.defines.push((a, b)); continue;
            }
            if self.is("`ifndef") {
                // skip the SYNTHESIS-guarded assertion (nested `ifndef included)
                let mut depth = 0;
                loop {
                    if self.is("`ifndef") || self.is("`ifdef") { depth += 1 }
                    if self.is("`endif") { depth -= 1 }
                    self.i += 1;
                    if depth == 0 { break }
                    if self.i >= self.t.len() { return Err("unterminated `ifndef".into()) }
                }
                continue;
            }
            if self.isk("logic") || self.isk("reg") || self.isk("wire") {
                let kind = if self.isk("reg") { "reg" } else { "logic" };
                self.i += 1;
                let (w, scalar) = self.const_w()?;
                let n = self.id()?;
                let mem = if self.is("[") { Some(self.const_w()?.0) } else { None };
                self.need(";")?;
                P::declare(&mut m, &n, Decl { w, scalar, mem, kind });
                continue;
            }
            if self.eatk("localparam") {
                let (w, scalar) = self.const_w()?;
                let n = self.id()?; self.need("=")?; let e = self.expr()?; self.need(";")?;
                P::declare(&mut m, &n, Decl { w, scalar, mem: None, kind: "localparam" });
                m.params.push((n, e));
                continue;
            }
            if self.eatk("assign") {
                let l = self.primary()?; self.need("=")?; let e = self.expr()?; self.need(";")?;
                m.assigns.push((l, e)); continue;
            }
            if self.eatk("always_comb") { let s = self.stmt()?; m.comb.push(s); continue; }
            if self.eatk("always") {
                self.need("@")?; self.need("(")?; self.needk("posedge")?; let c = self.expr()?; self.need(")")?;
                let s = self.stmt()?; m.seq.push((c, s)); continue;
            }
            if self.eatk("initial") { let s = self.stmt()?; m.initial.push(s); continue; }
            if matches!(self.peek(), Some(T::Id(..))) {
                let module = self.id()?;
                let mut params = vec![];
                if self.eat("#") {
                    self.need("(")?;
                    while !self.eat(")") { self.need(".")?; let n = self.id()?; self.need("(")?; let e = self.expr()?; self.need(")")?; self.eat(","); params.push((n, e)) }
                }
                let name = self.id()?;
                self.need("(")?;
                let mut conns = vec![];
                while !self.eat(")") {
                    self.need(".")?; let n = self.id()?; self.need("(")?;
                    let e = if self.is(")") { None } else { Some(self.expr()?) };
                    self.need(")")?; self.eat(","); conns.push((n, e))
                }
                self.need(";")?;
                if m.instances.iter().any(|i| i.name == name) { m.dups.push(name.clone()) }
                m.instances.push(Instance { module, params, name, conns });
                continue;
            }
            return Err(format!("module item expected at {:?}", self.ctx()));
        }
        Ok(m)
    }
}

const KEYWORDS: &[&str] = &["module", "endmodule", "input", "output", "inout", "logic", "reg", "wire", "assign", "always", "always_comb", "begin", "end", "if", "else",
    "case", "casez", "endcase", "initial", "localparam", "posedge", "priority", "new", "int", "bit", "byte", "for", "while", "do", "function", "task", "class"];

fn const_eval(e: &Expr) -> R<i128> {
    Ok(match e {
        Expr::Lit(b, _, _) => b.to_u().and_then(|v| v.to_i128()).ok_or("const")?,
        Expr::Bin(o, a, b) => { let (a, b) = (const_eval(a)?, const_eval(b)?); match o.as_str() { "+" => a + b, "-" => a - b, "*" => a * b, "/" => a / b, _ => return Err("const op".into()) } }
        Expr::Un(o, a) if o == "-" => -const_eval(a)?,
        _ => return Err(format!("not a constant: {e:?}")),
    })
}

pub fn parse(src: &str) -> R<Vec<Module>> {
    // drop the cocotb preamble
    let src = strip_preamble(src);
    let mut p = P { t: lex(&src)?, i: 0 };
    let mut out = vec![];
    while p.i < p.t.len() { if p.is("`default_nettype") { p.i += 2; continue } out.push(p.module()?) }
    Ok(out)
}

fn strip_preamble(src: &str) -> String {
    if let Some(i) = src.find("`ifdef COCOTB_SIM") {
        if let Some(j) = src[i..].find("`endif") { return format!("{}{}", &src[..i], &src[i + j + 6..]) }
    }
    src.to_string()
}

// ------------------------------------------------------------------ simulation
/// One flattened module instance tree.
pub struct Sim {
    pub decls: HashMap<String, Decl>,
    pub vals: HashMap<String, Bv>,
    pub mems: HashMap<String, Vec<Bv>>,
    assigns: Vec<(String, Expr, Expr)>,  // scope prefix
    comb: Vec<(String, Stmt)>,
    seq: Vec<(String, Expr, Stmt)>,
    pub top_ports: Vec<(String, &'static str, usize)>,
    alias: HashMap<String, String>,
    clk_prev: Vec<u8>,
    forced: HashSet<String>,
    /// elaboration / width problems that make the text ill-formed
    pub errors: Vec<String>,
}

impl Sim {
    pub fn new(mods: &[Module], top: &str) -> R<Sim> {
        let mut s = Sim { decls: Default::default(), vals: Default::default(), mems: Default::default(), assigns: vec![], comb: vec![], seq: vec![], top_ports: vec![], alias: Default::default(), clk_prev: vec![], forced: Default::default(), errors: vec![] };
        let m = mods.iter().find(|m| m.name == top).ok_or_else(|| format!("no module {top}"))?;
        s.top_ports = m.ports.clone();
        let mut inits = vec![];
        s.elab(mods, m, "", &mut inits, 0)?;
        s.lint();
        for (sc, st) in inits { s.exec(&sc, &st, &mut vec![])?; }
        s.clk_prev = vec![X; s.seq.len()];
        Ok(s)
    }
    fn elab(&mut self, mods: &[Module], m: &Module, pre: &str, inits: &mut Vec<(String, Stmt)>, depth: usize) -> R<()> {
        if depth > 40 { return Err("instance recursion".into()) }
        if !m.dups.is_empty() { self.errors.push(format!("identifier declared twice in {}: {:?}", m.name, m.dups)) }
        for (n, d) in &m.decls {
            let k = format!("{pre}{n}");
            if let Some(l) = d.mem { self.mems.insert(k.clone(), vec![Bv::xs(d.w); l]); } else { self.vals.insert(k.clone(), if d.kind == "logic" || d.kind == "output" || d.kind == "inout" { Bv(vec![Z; d.w]) } else { Bv::xs(d.w) }); }
            self.decls.insert(k, d.clone());
        }
        for (a, b) in &m.defines { self.alias.insert(format!("{pre}{a}"), format!("{pre}{b}")); }
        for (n, e) in &m.params {
            let w = m.decls[n].w;
            let v = self.eval_ctx(pre, e, w)?;
            self.vals.insert(format!("{pre}{n}"), v);
        }
        for (l, e) in &m.assigns { self.assigns.push((pre.to_string(), l.clone(), e.clone())) }
        for c in &m.comb { self.comb.push((pre.to_string(), c.clone())) }
        for (c, st) in &m.seq { self.seq.push((pre.to_string(), c.clone(), st.clone())) }
        for st in &m.initial { inits.push((pre.to_string(), st.clone())) }
        for i in &m.instances {
            let c = mods.iter().find(|x| x.name == i.module).ok_or_else(|| format!("instance of unknown module {}", i.module))?;
            let cp = format!("{pre}{}/", i.name);
            self.elab(mods, c, &cp, inits, depth + 1)?;
            for (pn, e) in &i.conns {
                let Some((_, dir, w)) = c.ports.iter().find(|p| &p.0 == pn) else { return Err(format!("module {} has no port {pn}", c.name)) };
                let Some(e) = e else { continue };
                match *dir {
                    "input" => {
                        let ew = self.size(pre, e)?;
                        if ew != *w { self.errors.push(format!("port {pn} of {} has width {w} but is connected to width {ew}", c.name)) }
                        self.assigns.push(("".into(), abs_expr(&format!("{cp}"), &Expr::Id(pn.clone())), abs_expr(pre, e)));
                    }
                    _ => {
                        let ew = self.size(pre, e)?;
                        if ew != *w { self.errors.push(format!("port {pn} of {} has width {w} but is connected to width {ew}", c.name)) }
                        self.assigns.push(("".into(), abs_expr(pre, e), abs_expr(&cp, &Expr::Id(pn.clone()))));
                    }
                }
            }
            for (pn, dir, _) in &c.ports {
                if *dir == "input" && !i.conns.iter().any(|x| &x.0 == pn) { self.errors.push(format!("input {pn} of {} not connected", c.name)) }
            }
        }
        Ok(())
    }
    /// every wire bit must have at most one continuous driver
    fn lint(&mut self) {
        let mut driven: HashMap<String, Vec<bool>> = HashMap::new();
        let mut errs = vec![];
        let mut tg: Vec<(String, Expr)> = vec![];
        for (sc, l, _) in &self.assigns { if let Expr::Concat(v) = l { for x in v { tg.push((sc.clone(), x.clone())) } } else { tg.push((sc.clone(), l.clone())) } }
        for (sc, l) in &tg {
            let (n, lo, w) = match l {
                Expr::Range(n, a, b) => match (const_eval(a), const_eval(b)) { (Ok(a), Ok(b)) if a >= b => (self.res(sc, n), b, (a - b + 1) as usize), _ => { errs.push(format!("bad part select target of {n}")); continue } },
                Expr::Index(n, i) => match const_eval(i) { Ok(i) => (self.res(sc, n), i, 1), _ => continue },
                Expr::Id(n) => { let k = self.res(sc, n); let w = self.decls.get(&k).map(|d| d.w).unwrap_or(0); (k, 0i128, w) }
                Expr::Plus(n, a, b, true) => match (const_eval(a), const_eval(b)) { (Ok(a), Ok(b)) => (self.res(sc, n), a, b as usize), _ => continue },
                _ => continue,
            };
            let Some(d) = self.decls.get(&n) else { errs.push(format!("assignment to undeclared {n}")); continue };
            if d.kind == "input" && !n.contains('/') { errs.push(format!("assignment to input {n}")) }
            if d.kind == "reg" || d.kind == "localparam" { errs.push(format!("continuous assignment to {} {n}", d.kind)) }
            let v = driven.entry(n.clone()).or_insert_with(|| vec![false; d.w]);
            for i in 0..w { let k = lo + i as i128; if k >= 0 && (k as usize) < v.len() { if v[k as usize] && d.kind != "inout" { errs.push(format!("{n} driven more than once")); break } v[k as usize] = true } else { errs.push(format!("assignment outside {n}")) } }
        }
        self.errors.extend(errs);
    }
    fn res(&self, sc: &str, n: &str) -> String {
        let k = if n.starts_with('\u{1}') { n[1..].to_string() } else { format!("{sc}{n}") };
        let mut k = k; let mut g = 0;
        while let Some(a) = self.alias.get(&k) { k = a.clone(); g += 1; if g > 50 { break } }
        k
    }
    fn decl(&self, sc: &str, n: &str) -> R<&Decl> { let k = self.res(sc, n); self.decls.get(&k).ok_or_else(|| format!("undeclared identifier {k}")) }

    pub fn size(&self, sc: &str, e: &Expr) -> R<usize> {
        Ok(match e {
            Expr::Lit(b, _, _) => b.w(),
            Expr::Str => 8,
            Expr::Id(n) => { let d = self.decl(sc, n)?; if d.mem.is_some() { return Err(format!("memory {n} used as a value")) } d.w }
            Expr::Index(n, _) => { let d = self.decl(sc, n)?; if d.mem.is_some() { d.w } else { if d.scalar { return Err(format!("bit select on scalar {n}")) } 1 } }
            Expr::Range(n, a, b) => {
                let d = self.decl(sc, n)?;
                if d.scalar { return Err(format!("part select on scalar {n}")) }
                if d.mem.is_some() { return Err(format!("part select on memory {n}")) }
                let (a, b) = (const_eval(a)?, const_eval(b)?);
                if a < b { return Err(format!("reversed or empty part select {n}[{a}:{b}]")) }
                (a - b + 1) as usize
            }
            Expr::Plus(n, _, w, _) => {
                let d = self.decl(sc, n)?;
                if d.scalar { return Err(format!("part select on scalar {n}")) }
                let w = const_eval(w)?; if w <= 0 { return Err(format!("part select of width {w} on {n}")) } w as usize
            }
            Expr::Concat(v) => { let mut s = 0; for x in v { s += self.size(sc, x)? } s }
            Expr::Repl(n, v) => { let n = const_eval(n)?; if n <= 0 { return Err("zero replication".into()) } let mut s = 0; for x in v { s += self.size(sc, x)? } s * n as usize }
            Expr::Un(o, a) => match o.as_str() { "+" | "-" | "~" => self.size(sc, a)?, _ => { self.size(sc, a)?; 1 } },
            Expr::Bin(o, a, b) => { let (x, y) = (self.size(sc, a)?, self.size(sc, b)?); match o.as_str() { "+" | "-" | "*" | "/" | "%" | "&" | "|" | "^" | "~^" | "^~" => x.max(y), "<<" | ">>" | ">>>" | "<<<" => x, _ => 1 } }
            Expr::Tern(c, a, b) => { self.size(sc, c)?; self.size(sc, a)?.max(self.size(sc, b)?) }
            Expr::Sgn(a, _) => self.size(sc, a)?,
        })
    }
    fn signed(&self, e: &Expr) -> bool {
        match e {
            Expr::Lit(_, s, _) => *s,
            Expr::Un(o, a) => matches!(o.as_str(), "+" | "-" | "~") && self.signed(a),
            Expr::Bin(o, a, b) => match o.as_str() { "+" | "-" | "*" | "/" | "%" | "&" | "|" | "^" | "~^" | "^~" => self.signed(a) && self.signed(b), "<<" | ">>" | ">>>" | "<<<" => self.signed(a), _ => false },
            Expr::Tern(_, a, b) => self.signed(a) && self.signed(b),
            Expr::Sgn(_, s) => *s,
            _ => false,
        }
    }
    /// evaluate as the right hand side of an assignment to `w` bits
    pub fn eval_ctx(&self, sc: &str, e: &Expr, w: usize) -> R<Bv> {
        if let Expr::Lit(b, _, true) = e { return Ok(Bv(vec![*b.0.last().unwrap(); w])) }
        let s = self.signed(e);
        let n = self.size(sc, e)?.max(w);
        Ok(self.eval(sc, e, n, s)?.ext(w, s))
    }
    fn eval_self(&self, sc: &str, e: &Expr) -> R<Bv> { let s = self.signed(e); let n = self.size(sc, e)?; self.eval(sc, e, n, s) }
    fn eval(&self, sc: &str, e: &Expr, w: usize, sg: bool) -> R<Bv> {
        Ok(match e {
            Expr::Lit(b, _, fill) => if *fill && w > b.w() { Bv(vec![*b.0.last().unwrap(); w]) } else { b.ext(w, sg) },
            Expr::Str => Bv::xs(w),
            Expr::Id(n) => { let k = self.res(sc, n); self.vals.get(&k).ok_or_else(|| format!("undeclared {k}"))?.ext(w, sg) }
            Expr::Index(n, i) => {
                self.size(sc, e)?;
                let k = self.res(sc, n);
                let i = self.eval_self(sc, i)?;
                if let Some(m) = self.mems.get(&k) {
                    let dw = self.decls[&k].w;
                    match i.to_u().and_then(|i| i.to_usize()) { Some(i) if i < m.len() => m[i].clone(), _ => Bv::xs(dw) }.ext(w, false)
                } else {
                    let v = &self.vals[&k];
                    match i.to_u().and_then(|i| i.to_i128()) { Some(i) => v.slice(i, 1), None => Bv::xs(1) }.ext(w, false)
                }
            }
            Expr::Range(n, a, b) => { let n_ = self.size(sc, e)?; let _ = a; let k = self.res(sc, n); self.vals[&k].slice(const_eval(b)?, n_).ext(w, false) }
            Expr::Plus(n, a, _, up) => {
                let n_ = self.size(sc, e)?;
                let k = self.res(sc, n);
                let i = self.eval_self(sc, a)?;
                match i.to_u().and_then(|i| i.to_i128()) {
                    Some(i) => self.vals[&k].slice(if *up { i } else { i - n_ as i128 + 1 }, n_), None => Bv::xs(n_) }.ext(w, false)
            }
            Expr::Concat(v) => { let mut p = vec![]; for x in v { p.push(self.eval_self(sc, x)?) } Bv::concat_msb(&p).ext(w, sg && false) }
            Expr::Repl(n, v) => { self.size(sc, e)?; let mut p = vec![]; for _ in 0..const_eval(n)? { for x in v { p.push(self.eval_self(sc, x)?) } } Bv::concat_msb(&p).ext(w, false) }
            Expr::Sgn(a, _) => self.eval_self(sc, a)?.ext(w, sg),
            Expr::Tern(c, a, b) => {
                let c = self.eval_self(sc, c)?.truth();
                let (a, b) = (self.eval(sc, a, w, sg)?, self.eval(sc, b, w, sg)?);
                match c { 1 => a, 0 => b, _ => Bv(a.0.iter().zip(&b.0).map(|(x, y)| if x == y && *x < 2 { *x } else { X }).collect()) }
            }
            Expr::Un(o, a) => match o.as_str() {
                "+" => self.eval(sc, a, w, sg)?,
                "-" => { let a = self.eval(sc, a, w, sg)?; match a.to_u() { Some(v) => Bv::from_i(&-BigInt::from(v), w), None => Bv::xs(w) } }
                "~" => Bv(self.eval(sc, a, w, sg)?.0.iter().map(|b| match b { 0 => 1, 1 => 0, _ => X }).collect()),
                "!" => { let t = self.eval_self(sc, a)?.truth(); Bv(vec![match t { 0 => 1, 1 => 0, _ => X }]).ext(w, false) }
                r => {
                    let v = self.eval_self(sc, a)?;
                    let b = match r {
                        "&" | "~&" => if v.0.contains(&0) { 0 } else if v.known() { 1 } else { X },
                        "|" | "~|" => v.truth(),
                        _ => if v.known() { v.0.iter().fold(0, |a, b| a ^ b) } else { X },
                    };
                    let b = if r.starts_with('~') || r == "^~" { match b { 0 => 1, 1 => 0, _ => X } } else { b };
                    Bv(vec![b]).ext(w, false)
                }
            },
            Expr::Bin(o, a, b) => match o.as_str() {
                "+" | "-" | "*" | "/" | "%" => {
                    let (a, b) = (self.eval(sc, a, w, sg)?, self.eval(sc, b, w, sg)?);
                    if !a.known() || !b.known() { Bv::xs(w) } else {
                        let (x, y) = if sg { (a.to_i().unwrap(), b.to_i().unwrap()) } else { (a.to_u().unwrap().into(), b.to_u().unwrap().into()) };
                        match o.as_str() {
                            "+" => Bv::from_i(&(x + y), w), "-" => Bv::from_i(&(x - y), w), "*" => Bv::from_i(&(x * y), w),
                            _ if y.is_zero() => Bv::xs(w),
                            "/" => Bv::from_i(&(x / y), w), _ => Bv::from_i(&(x % y), w),
                        }
                    }
                }
                "&" | "|" | "^" | "~^" | "^~" => {
                    let (a, b) = (self.eval(sc, a, w, sg)?, self.eval(sc, b, w, sg)?);
                    Bv(a.0.iter().zip(&b.0).map(|(x, y)| match o.as_str() {
                        "&" => if *x == 0 || *y == 0 { 0 } else if *x == 1 && *y == 1 { 1 } else { X },
                        "|" => if *x == 1 || *y == 1 { 1 } else if *x == 0 && *y == 0 { 0 } else { X },
                        "^" => if *x < 2 && *y < 2 { x ^ y } else { X },
                        _ => if *x < 2 && *y < 2 { 1 - (x ^ y) } else { X },
                    }).collect())
                }
                "<<" | "<<<" | ">>" | ">>>" => {
                    let a = self.eval(sc, a, w, sg)?;
                    let b = self.eval_self(sc, b)?;
                    match b.to_u() {
                        None => Bv::xs(w),
                        Some(n) => {
                            let n = n.to_usize().unwrap_or(usize::MAX).min(w);
                            let mut r = vec![];
                            if o.starts_with('<') { r.resize(n, 0); r.extend(&a.0[..w - n]); }
                            else { r.extend(&a.0[n..]); let f = if o == ">>>" && sg { a.0.last().copied().unwrap_or(0) } else { 0 }; r.resize(w, f); }
                            Bv(r)
                        }
                    }
                }
                "&&" | "||" => {
                    let (x, y) = (self.eval_self(sc, a)?.truth(), self.eval_self(sc, b)?.truth());
                    let r = if o == "&&" { if x == 0 || y == 0 { 0 } else if x == 1 && y == 1 { 1 } else { X } } else if x == 1 || y == 1 { 1 } else if x == 0 && y == 0 { 0 } else { X };
                    Bv(vec![r]).ext(w, false)
                }
                _ => {
                    let n = self.size(sc, a)?.max(self.size(sc, b)?);
                    let s = self.signed(a) && self.signed(b);
                    let (a, b) = (self.eval(sc, a, n, s)?, self.eval(sc, b, n, s)?);
                    let r = if o == "===" { (a == b) as u8 } else if !a.known() || !b.known() {
                        if (o == "==" || o == "!=") && a.0.iter().zip(&b.0).any(|(x, y)| *x < 2 && *y < 2 && x != y) { (o == "!=") as u8 } else { X }
                    } else {
                        let (x, y): (BigInt, BigInt) = if s { (a.to_i().unwrap(), b.to_i().unwrap()) } else { (a.to_u().unwrap().into(), b.to_u().unwrap().into()) };
                        (match o.as_str() { "==" => x == y, "!=" => x != y, "<" => x < y, "<=" => x <= y, ">" => x > y, ">=" => x >= y, _ => return Err(format!("op {o}")) }) as u8
                    };
                    Bv(vec![r]).ext(w, false)
                }
            },
        })
    }
    fn lhs_w(&self, sc: &str, l: &Expr) -> R<usize> { self.size(sc, l) }
    fn store(&mut self, sc: &str, l: &Expr, v: &Bv) -> R<bool> {
        match l {
            Expr::Id(n) => { let k = self.res(sc, n); if self.forced.contains(&k) { return Ok(false) } let cur = self.vals.get_mut(&k).ok_or_else(|| format!("undeclared {k}"))?; let ch = cur != v; if ch { *cur = v.clone() } Ok(ch) }
            Expr::Index(n, i) => {
                let k = self.res(sc, n);
                let i = self.eval_self(sc, i)?;
                let Some(i) = i.to_u().and_then(|i| i.to_usize()) else { return Ok(false) };
                if let Some(m) = self.mems.get_mut(&k) { if i < m.len() { let ch = &m[i] != v; m[i] = v.clone(); return Ok(ch) } return Ok(false) }
                let cur = self.vals.get_mut(&k).ok_or("undeclared")?; if i < cur.w() { let ch = cur.0[i] != v.0[0]; cur.0[i] = v.0[0]; return Ok(ch) } Ok(false)
            }
            Expr::Plus(n, a, _, true) => {
                let k = self.res(sc, n); let a = self.eval_self(sc, a)?.to_u().and_then(|i| i.to_usize()).ok_or("index")?;
                let cur = self.vals.get_mut(&k).ok_or("undeclared")?; let mut ch = false;
                for (j, b) in v.0.iter().enumerate() { if a + j < cur.w() { ch |= cur.0[a + j] != *b; cur.0[a + j] = *b } }
                Ok(ch)
            }
            Expr::Range(n, _, b) => {
                let k = self.res(sc, n); let a = const_eval(b)?.max(0) as usize;
                let cur = self.vals.get_mut(&k).ok_or("undeclared")?; let mut ch = false;
                for (j, b) in v.0.iter().enumerate() { if a + j < cur.w() { ch |= cur.0[a + j] != *b; cur.0[a + j] = *b } }
                Ok(ch)
            }
            Expr::Concat(xs) => {
                let mut hi = v.w(); let mut ch = false;
                for x in xs { let w = self.size(sc, x)?; ch |= self.store(sc, x, &v.slice((hi - w) as i128, w))?; hi -= w }
                Ok(ch)
            }
            _ => Err(format!("unsupported assignment target {l:?}")),
        }
    }
    /// returns (changed); nonblocking assignments are queued
    fn exec(&mut self, sc: &str, st: &Stmt, nb: &mut Vec<(String, Expr, Bv)>) -> R<bool> {
        Ok(match st {
            Stmt::Nop => false,
            Stmt::Block(v) => { let mut c = false; for s in v { c |= self.exec(sc, s, nb)? } c }
            Stmt::If(c, a, b) => if self.eval_self(sc, c)?.truth() == 1 { self.exec(sc, a, nb)? } else if let Some(b) = b { self.exec(sc, b, nb)? } else { false },
            Stmt::Blocking(l, e) => { let w = self.lhs_w(sc, l)?; let v = self.eval_ctx(sc, e, w)?; self.store(sc, l, &v)? }
            Stmt::NonBlocking(l, e) => { let w = self.lhs_w(sc, l)?; let v = self.eval_ctx(sc, e, w)?;
                let l = match l { Expr::Index(n, i) => { let i = self.eval_self(sc, i)?; Expr::Index(n.clone(), Box::new(Expr::Lit(i, false, false))) } x => x.clone() };
                nb.push((sc.to_string(), l, v)); false }
            Stmt::Casez(c, arms) => {
                let n = { let mut n = self.size(sc, c)?; for (k, _) in arms { n = n.max(self.size(sc, k)?) } n };
                let v = self.eval(sc, c, n, false)?;
                for (k, s) in arms {
                    let kv = self.eval(sc, k, n, false)?;
                    if v.0.iter().zip(&kv.0).all(|(a, b)| *a == Z || *b == Z || a == b) { return self.exec(sc, s, nb) }
                }
                false
            }
        })
    }
    pub fn settle(&mut self) -> R<()> {
        let assigns = std::mem::take(&mut self.assigns);
        let comb = std::mem::take(&mut self.comb);
        let mut r = Ok(());
        let max = assigns.len() + comb.len() + 5;
        'o: {
            for _ in 0..max.max(20) {
                let mut ch = false;
                for (sc, l, e) in &assigns {
                    match self.lhs_w(sc, l).and_then(|w| self.eval_ctx(sc, e, w)).and_then(|v| self.store(sc, l, &v)) { Ok(c) => ch |= c, Err(e) => { r = Err(e); break 'o } }
                }
                for (sc, s) in &comb { match self.exec(sc, s, &mut vec![]) { Ok(c) => ch |= c, Err(e) => { r = Err(e); break 'o } } }
                if !ch { break 'o }
            }
            r = Err("combinational loop does not settle".into());
        }
        self.assigns = assigns; self.comb = comb;
        r
    }
    pub fn set(&mut self, n: &str, v: Bv) -> R<()> {
        let d = self.decls.get(n).ok_or_else(|| format!("no port {n}"))?;
        if d.w != v.w() { return Err(format!("port {n} has width {} but the value has width {}", d.w, v.w())) }
        self.vals.insert(n.to_string(), v);
        Ok(())
    }
    pub fn get(&self, n: &str) -> R<Bv> { self.vals.get(n).cloned().ok_or_else(|| format!("no signal {n}")) }
    /// settle, then run every always block whose clock rose since the last call
    pub fn step(&mut self) -> R<()> {
        self.settle()?;
        for _ in 0..10 {
            let mut nb = vec![];
            let seq = std::mem::take(&mut self.seq);
            let mut any = false;
            let mut err = None;
            for (i, (sc, c, s)) in seq.iter().enumerate() {
                let v = match self.eval_self(sc, c) { Ok(v) => v.0[0], Err(e) => { err = Some(e); break } };
                if v == 1 && self.clk_prev[i] != 1 { any = true; if let Err(e) = self.exec(sc, s, &mut nb) { err = Some(e); break } }
                self.clk_prev[i] = v;
            }
            self.seq = seq;
            if let Some(e) = err { return Err(e) }
            for (sc, l, v) in nb { self.store(&sc, &l, &v)?; }
            self.settle()?;
            if !any { break }
        }
        Ok(())
    }
    pub fn cycle(&mut self, clk: &str) -> R<()> {
        self.set(clk, Bv(vec![0]))?; self.step()?;
        self.set(clk, Bv(vec![1]))?; self.step()
    }
}

fn abs_expr(pre: &str, e: &Expr) -> Expr {
    let n = |s: &String| if s.starts_with('\u{1}') { s.clone() } else { format!("\u{1}{pre}{s}") };
    let b = |x: &Box<Expr>| Box::new(abs_expr(pre, x));
    match e {
        Expr::Id(s) => Expr::Id(n(s)),
        Expr::Index(s, i) => Expr::Index(n(s), b(i)),
        Expr::Range(s, x, y) => Expr::Range(n(s), b(x), b(y)),
        Expr::Plus(s, x, y, u) => Expr::Plus(n(s), b(x), b(y), *u),
        Expr::Concat(v) => Expr::Concat(v.iter().map(|x| abs_expr(pre, x)).collect()),
        Expr::Repl(k, v) => Expr::Repl(b(k), v.iter().map(|x| abs_expr(pre, x)).collect()),
        Expr::Un(o, x) => Expr::Un(o.clone(), b(x)),
        Expr::Bin(o, x, y) => Expr::Bin(o.clone(), b(x), b(y)),
        Expr::Tern(c, x, y) => Expr::Tern(b(c), b(x), b(y)),
        Expr::Sgn(x, s) => Expr::Sgn(b(x), *s),
        x => x.clone(),
    }
}
#[allow(unused)] fn _unused(x: &BigInt) -> bool { x.is_negative() }
