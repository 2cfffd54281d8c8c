//! random operator expressions: the text, the tree the precedence table gives, and the source range of every
//! node; and a reader of the parser's tree into the same form. Used by C16 (trees) and C17 (ranges).
use crate::util::*;
use num::BigInt;
use spade_ast::{ArgumentList, BinaryOperator, Expression, IntLiteral, NamedArgument, UnaryOperator};
use spade_common::location_info::Loc;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Id(Vec<String>), Int(BigInt, &'static str, u8), Bool(bool), Tri(u8), Paren(Box<E>), Un(&'static str, Box<E>), Bin(&'static str, Box<E>, Box<E>), Infix(String, Box<E>, Box<E>),
    Call(Vec<String>, Vec<E>), Named(Vec<String>, Vec<(String, Option<E>)>), Method(Box<E>, String, Vec<E>), Field(Box<E>, String), Tup(Box<E>, u64, bool),
    Index(Box<E>, Box<E>), Range(Box<E>, Option<Box<E>>, Option<Box<E>>), Tuple(Vec<E>), Array(Vec<E>), Rep(Box<E>, Box<E>), If(Box<E>, Box<E>, Box<E>), Cast(Box<E>), Block(Box<E>),
}
/// the operator table, loosest first
pub const TABLE: &[&[&str]] = &[&["||"], &["&&"], &["^^"], &["==", "!="], &["<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>", ">>>", "<<.", ">>."], &["+", "-", "+.", "-."], &["*", "/", "%", "*."]];
pub const UNARY: &[&str] = &["-", "!", "~", "-.", "*", "&"];
pub fn level(op: &str) -> usize { TABLE.iter().position(|l| l.contains(&op)).unwrap() }
pub fn ops() -> Vec<&'static str> { TABLE.iter().flat_map(|l| l.iter().copied()).collect() }
fn idn(r: &mut Rng) -> String { r.pick(&["a", "b", "c", "foo", "x1", "_y", "été", "valu", "iff", "truer", "r#let"]).to_string() }
fn path(r: &mut Rng) -> Vec<String> { (0..1 + r.us(4) / 3).map(|_| idn(r)).collect() }
pub fn mk(r: &mut Rng, d: usize) -> E {
    if d == 0 || r.chance(1, 9) { return match r.below(8) { 0 | 1 => { let k = r.us(4); E::Int(if r.chance(1, 5) { BigInt::from(r.next()) * BigInt::from(r.next()) } else { BigInt::from(r.below(300)) }, ["", "i", "i8", ""][k], r.us(4) as u8) } 2 => E::Bool(r.chance(1, 2)), 3 => if r.chance(1, 3) { E::Tri(r.us(3) as u8) } else { E::Id(path(r)) }, _ => E::Id(path(r)) } }
    let s = |r: &mut Rng| Box::new(mk(r, d - 1));
    match r.below(40) {
        0..=19 => { let o = ops(); let k = r.us(o.len()); E::Bin(o[k], s(r), s(r)) }
        20..=24 => { let k = r.us(UNARY.len()); E::Un(UNARY[k], s(r)) }
        25 => E::Paren(s(r)),
        26 => E::Infix(idn(r), s(r), s(r)),
        27 => { let n = r.us(4); E::Call(path(r), (0..n).map(|_| *s(r)).collect()) }
        28 => { let n = r.us(3); E::Named(path(r), (0..n).map(|_| (idn(r), if r.chance(1, 4) { None } else { Some(*s(r)) })).collect()) }
        29 => { let n = r.us(3); E::Method(s(r), idn(r), (0..n).map(|_| *s(r)).collect()) }
        30 => E::Field(s(r), idn(r)),
        31 => E::Tup(s(r), r.below(12), r.chance(1, 5)),
        32 | 33 => E::Index(s(r), s(r)),
        34 => { let a = if r.chance(2, 3) { Some(s(r)) } else { None }; let b = if r.chance(2, 3) { Some(s(r)) } else { None }; E::Range(s(r), a, b) }
        35 => { let n = r.us(4); E::Tuple((0..n).map(|_| *s(r)).collect()) }
        36 => if r.chance(1, 3) { E::Rep(s(r), s(r)) } else { let n = r.us(4); E::Array((0..n).map(|_| *s(r)).collect()) },
        37 => E::If(s(r), s(r), s(r)),
        38 => E::Cast(s(r)),
        _ => E::Block(s(r)),
    }
}
/// insert the parentheses the table requires, and some it does not
pub fn canon(r: &mut Rng, e: E, extra: bool) -> E {
    let p = |e: E| E::Paren(Box::new(e));
    // the operand of a suffix: an expression that binds tightest; a cast ends the suffixes
    fn suffix(e: E) -> E { match e { E::Bin(..) | E::Un(..) | E::Infix(..) | E::Cast(_) => E::Paren(Box::new(e)), e => e } }
    let c = |r: &mut Rng, e: Box<E>| { let e = canon(r, *e, extra); if extra && r.chance(1, 12) { E::Paren(Box::new(e)) } else { e } };
    let cb = |r: &mut Rng, e: Box<E>| Box::new(c(r, e));
    match e {
        E::Un(o, x) => { let x = c(r, x); E::Un(o, Box::new(match x { E::Bin(..) | E::Infix(..) => p(x), x => x })) }
        E::Bin(o, a, b) => {
            let (a, b) = (c(r, a), c(r, b));
            let a = match &a { E::Bin(q, ..) if level(q) < level(o) => p(a), E::Infix(..) => p(a), _ => a };
            let b = match &b { E::Bin(q, ..) if level(q) <= level(o) => p(b), E::Infix(..) => p(b), _ => b };
            E::Bin(o, Box::new(a), Box::new(b))
        }
        E::Infix(n, a, b) => { let (a, b) = (c(r, a), cb(r, b)); E::Infix(n, Box::new(match a { E::Infix(..) => p(a), a => a }), b) }
        E::Paren(x) => E::Paren(cb(r, x)),
        E::Call(n, v) => E::Call(n, v.into_iter().map(|x| c(r, Box::new(x))).collect()),
        E::Named(n, v) => E::Named(n, v.into_iter().map(|(k, x)| (k, x.map(|x| c(r, Box::new(x))))).collect()),
        E::Method(t, n, v) => { let t = suffix(c(r, t)); E::Method(Box::new(t), n, v.into_iter().map(|x| c(r, Box::new(x))).collect()) }
        E::Field(t, n) => E::Field(Box::new(suffix(c(r, t))), n),
        E::Tup(t, n, o) => E::Tup(Box::new(suffix(c(r, t))), n, o),
        E::Index(t, i) => { let t = suffix(c(r, t)); E::Index(Box::new(t), cb(r, i)) }
        E::Range(t, a, b) => { let t = suffix(c(r, t)); E::Range(Box::new(t), a.map(|a| cb(r, a)), b.map(|a| cb(r, a))) }
        E::Tuple(v) => E::Tuple(v.into_iter().map(|x| c(r, Box::new(x))).collect()),
        E::Array(v) => E::Array(v.into_iter().map(|x| c(r, Box::new(x))).collect()),
        E::Rep(a, b) => E::Rep(cb(r, a), cb(r, b)),
        E::If(a, x, y) => E::If(cb(r, a), cb(r, x), cb(r, y)),
        E::Cast(t) => { let t = c(r, t); E::Cast(Box::new(suffix(t))) }
        E::Block(x) => E::Block(cb(r, x)),
        e => e,
    }
}
/// put parentheses around every operand
pub fn full(e: E) -> E {
    let p = |e: Box<E>| Box::new(match full(*e) { e @ E::Paren(_) => e, e => E::Paren(Box::new(e)) });
    match e {
        E::Un(o, x) => E::Un(o, p(x)), E::Bin(o, a, b) => E::Bin(o, p(a), p(b)), E::Infix(n, a, b) => E::Infix(n, p(a), p(b)), E::Paren(x) => E::Paren(Box::new(full(*x))),
        E::Call(n, v) => E::Call(n, v.into_iter().map(full).collect()), E::Named(n, v) => E::Named(n, v.into_iter().map(|(k, x)| (k, x.map(full))).collect()),
        E::Method(t, n, v) => E::Method(p(t), n, v.into_iter().map(full).collect()), E::Field(t, n) => E::Field(p(t), n), E::Tup(t, n, o) => E::Tup(p(t), n, o),
        E::Index(t, i) => E::Index(p(t), Box::new(full(*i))), E::Range(t, a, b) => E::Range(p(t), a.map(|a| Box::new(full(*a))), b.map(|a| Box::new(full(*a)))),
        E::Tuple(v) => E::Tuple(v.into_iter().map(full).collect()), E::Array(v) => E::Array(v.into_iter().map(full).collect()), E::Rep(a, b) => E::Rep(Box::new(full(*a)), Box::new(full(*b))),
        E::If(a, x, y) => E::If(Box::new(full(*a)), Box::new(full(*x)), Box::new(full(*y))), E::Cast(t) => E::Cast(p(t)), E::Block(x) => E::Block(Box::new(full(*x))),
        e => e,
    }
}
pub struct Out { pub s: String, spaces: u8, end: usize, starts: Vec<usize> }
impl Out {
    pub fn new(spaces: u8) -> Out { Out { s: String::new(), spaces, end: 0, starts: vec![] } }
    fn tok(&mut self, r: &mut Rng, t: &str) {
        let wordy = |c: char| c.is_alphanumeric() || c == '_' || c == '#' || c == '\'';
        let need = match (self.s.chars().last(), t.chars().next()) {
            (Some(a), Some(b)) => (wordy(a) && wordy(b)) || (!wordy(a) && !wordy(b) && !"()[]{},".contains(a) && !"()[]{},".contains(b)) || (a == '.' || b == '.'),
            _ => false,
        };
        let dots = t == "." || t == "#" || self.s.ends_with('.') || self.s.ends_with('#');
        let k = if need && !dots { 1 + r.us(2) } else if self.spaces > 0 && r.chance(self.spaces as u64, 4) { 1 } else { 0 };
        for _ in 0..k { match r.below(12) { 0 => self.s.push('\n'), 1 => self.s.push_str(" /* å + */ "), 2 => self.s.push_str(" // - x\n"), _ => self.s.push(' ') } }
        let a = self.s.len();
        self.s.push_str(t);
        self.end = self.s.len();
        self.starts.push(a);
    }
    /// the form of the tree, each node with its range when `spans`
    pub fn put(&mut self, r: &mut Rng, e: &E) -> T {
        let n0 = self.starts.len();
        let sub = |o: &mut Out, r: &mut Rng, e: &E| -> T { o.put(r, e) };
        macro_rules! args { ($v:expr) => {{ self.tok(r, "("); let mut o = vec![]; for (i, x) in $v.iter().enumerate() { if i > 0 { self.tok(r, ",") } o.push(sub(self, r, x)) } if !$v.is_empty() && r.chance(1, 5) { self.tok(r, ",") } self.tok(r, ")"); o }} }
        macro_rules! pth { ($p:expr) => {{ for (i, x) in $p.iter().enumerate() { if i > 0 { self.s.push_str("::"); self.s.push_str(x); self.end = self.s.len(); } else { self.tok(r, x) } } }} }
        let clean = |p: &Vec<String>| p.join("::").replace("r#", "");
        let (kind, kids): (String, Vec<T>) = match e {
            E::Id(p) => { pth!(p); (format!("id {}", clean(p)), vec![]) }
            E::Int(v, suf, base) => {
                let t = match base { 0 => format!("{v}"), 1 => format!("0x{}", v.to_str_radix(16)), 2 => format!("0b{}", v.to_str_radix(2)), _ => { let t = format!("{v}"); if t.len() > 1 { format!("{}_{}", &t[..1], &t[1..]) } else { t } } };
                self.tok(r, &format!("{t}{suf}")); (format!("int {v} {suf}"), vec![])
            }
            E::Bool(b) => { self.tok(r, if *b { "true" } else { "false" }); (format!("bool {b}"), vec![]) }
            E::Tri(k) => { self.tok(r, ["LOW", "HIGH", "HIGHIMP"][*k as usize]); (format!("tri {k}"), vec![]) }
            E::Paren(x) => { self.tok(r, "("); let t = sub(self, r, x); self.tok(r, ")"); ("paren".into(), vec![t]) }
            E::Un(o, x) => {
                self.tok(r, o); let t = sub(self, r, x);
                if *o == "-" && t.kind.starts_with("int ") {
                    // a negated literal is a literal
                    let mut it = t.kind.splitn(3, ' '); it.next(); let v: BigInt = it.next().unwrap().parse().unwrap(); let suf = it.next().unwrap().to_string();
                    (format!("int {} {suf}", -v), vec![])
                } else { (format!("un {o}"), vec![t]) }
            }
            E::Bin(o, a, b) => { let a = sub(self, r, a); self.tok(r, o); let b = sub(self, r, b); (format!("bin {o}"), vec![a, b]) }
            E::Infix(n, a, b) => { let a = sub(self, r, a); self.tok(r, "`"); self.tok(r, n); self.tok(r, "`"); let b = sub(self, r, b); (format!("call {}", n.replace("r#", "")), vec![a, b]) }
            E::Call(p, v) => { pth!(p); let k = args!(v); (format!("call {}", clean(p)), k) }
            E::Named(p, v) => {
                pth!(p); self.tok(r, "$"); self.s.push('('); let mut ks = vec![]; let mut names = String::new();
                for (i, (n, x)) in v.iter().enumerate() { if i > 0 { self.tok(r, ",") } self.tok(r, n); names += &n.replace("r#", ""); if let Some(x) = x { names += ":"; self.tok(r, ":"); ks.push(sub(self, r, x)) } names += ","; }
                self.tok(r, ")"); (format!("named {} {names}", clean(p)), ks)
            }
            E::Method(t, n, v) => { let t = sub(self, r, t); self.tok(r, "."); self.tok(r, n); let mut k = vec![t]; k.extend(args!(v)); (format!("method {}", n.replace("r#", "")), k) }
            E::Field(t, n) => { let t = sub(self, r, t); self.tok(r, "."); self.tok(r, n); (format!("field {}", n.replace("r#", "")), vec![t]) }
            E::Tup(t, n, o) => { let t = sub(self, r, t); self.tok(r, if *o { "#" } else { "." }); self.tok(r, &n.to_string()); (format!("tup {n}"), vec![t]) }
            E::Index(t, i) => { let t = sub(self, r, t); self.tok(r, "["); let i = sub(self, r, i); self.tok(r, "]"); ("index".into(), vec![t, i]) }
            E::Range(t, a, b) => {
                let t = sub(self, r, t); self.tok(r, "["); let mut k = vec![t];
                if let Some(a) = a { k.push(sub(self, r, a)); self.s.push(' '); } self.tok(r, ".."); self.s.push(' '); if let Some(b) = b { k.push(sub(self, r, b)) } self.tok(r, "]");
                (format!("range {}{}", a.is_some() as u8, b.is_some() as u8), k)
            }
            E::Tuple(v) => { self.tok(r, "("); let mut k = vec![]; for (i, x) in v.iter().enumerate() { k.push(sub(self, r, x)); if i + 1 < v.len() || v.len() == 1 || r.chance(1, 4) { self.tok(r, ",") } } self.tok(r, ")"); ("tuple".into(), k) }
            E::Array(v) => { self.tok(r, "["); let mut k = vec![]; for (i, x) in v.iter().enumerate() { if i > 0 { self.tok(r, ",") } k.push(sub(self, r, x)) } self.tok(r, "]"); ("array".into(), k) }
            E::Rep(a, b) => { self.tok(r, "["); let a = sub(self, r, a); self.tok(r, ";"); let b = sub(self, r, b); self.tok(r, "]"); ("rep".into(), vec![a, b]) }
            E::If(c, x, y) => {
                self.tok(r, "if"); let c = sub(self, r, c); let mut k = vec![c];
                for (i, z) in [x, y].into_iter().enumerate() { if i == 1 { self.tok(r, "else") } self.tok(r, "{"); let a = self.end - 1; let t = sub(self, r, z); self.tok(r, "}"); k.push(T { kind: "block".into(), a, b: self.end, kids: vec![t] }) }
                ("if".into(), k)
            }
            E::Cast(t) => { let t = sub(self, r, t); self.tok(r, "as"); self.tok(r, "("); self.tok(r, "A"); self.tok(r, ","); self.tok(r, "B"); self.tok(r, ")"); ("cast".into(), vec![t]) }
            E::Block(x) => { self.tok(r, "{"); let t = sub(self, r, x); self.tok(r, "}"); ("block".into(), vec![t]) }
        };
        let a = self.starts[n0];
        let mut t = T { kind, a, b: self.end, kids };
        // the parser gives the inner expression of parentheses the range of the parentheses
        if t.kind == "paren" { t.kids[0].a = t.a; t.kids[0].b = t.b }
        t
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct T { pub kind: String, pub a: usize, pub b: usize, pub kids: Vec<T> }
impl T {
    pub fn shape(&self) -> String { format!("({}{})", self.kind, self.kids.iter().map(|k| format!(" {}", k.shape())).collect::<String>()) }
    pub fn bare(&self) -> String { if self.kind == "paren" { self.kids[0].bare() } else { format!("({}{})", self.kind, self.kids.iter().map(|k| format!(" {}", k.bare())).collect::<String>()) } }
    pub fn nodes(&self) -> usize { 1 + self.kids.iter().map(|k| k.nodes()).sum::<usize>() }
    /// first node whose range differs
    pub fn diff(&self, o: &T) -> Option<(String, (usize, usize), (usize, usize))> {
        if (self.a, self.b) != (o.a, o.b) { return Some((self.kind.clone(), (self.a, self.b), (o.a, o.b))) }
        self.kids.iter().zip(&o.kids).find_map(|(x, y)| x.diff(y))
    }
}
pub fn binop(o: &BinaryOperator) -> &'static str {
    use BinaryOperator::*;
    match o { Add => "+", Sub => "-", Mul => "*", Div => "/", Mod => "%", Eq => "==", Neq => "!=", Lt => "<", Gt => ">", Le => "<=", Ge => ">=", LogicalAnd => "&&", LogicalOr => "||", LogicalXor => "^^", LeftShift => "<<", RightShift => ">>", ArithmeticRightShift => ">>>", BitwiseAnd => "&", BitwiseOr => "|", BitwiseXor => "^", WrappingAdd => "+.", WrappingSub => "-.", WrappingMul => "*.", WrappingLeftShift => "<<.", WrappingRightShift => ">>." }
}
pub fn unop(o: &UnaryOperator) -> &'static str { use UnaryOperator::*; match o { Sub => "-", Not => "!", BitwiseNot => "~", WrappingSub => "-.", Dereference => "*", Reference => "&" } }
fn pathstr(p: &spade_common::name::Path) -> String { p.to_strings().join("::") }
/// the parser's tree in the same form; Err: a node no generated text can give
pub fn read(e: &Loc<Expression>) -> Result<T, String> {
    let (a, b) = { let s: std::ops::Range<usize> = e.span.into(); (s.start, s.end) };
    let mut kids = vec![];
    let kind = match &e.inner {
        Expression::Identifier(p) => format!("id {}", pathstr(p)),
        Expression::IntLiteral(i) => match &i.inner { IntLiteral::Unsized(v) => format!("int {v} "), IntLiteral::Signed { val, size } => format!("int {val} i{}", size.as_ref().map(|s| s.to_string()).unwrap_or_default()), IntLiteral::Unsigned { val, size } => format!("int {val} u{}", size.as_ref().map(|s| s.to_string()).unwrap_or_default()) },
        Expression::BoolLiteral(b) => format!("bool {}", b.inner),
        Expression::TriLiteral(t) => format!("tri {}", match t.inner { spade_ast::BitLiteral::Low => 0, spade_ast::BitLiteral::High => 1, spade_ast::BitLiteral::HighImp => 2 }),
        Expression::Parenthesized(x) => { kids.push(read(x)?); "paren".into() }
        Expression::UnaryOperator(o, x) => { kids.push(read(x)?); format!("un {}", unop(&o.inner)) }
        Expression::BinaryOperator(x, o, y) => { kids.push(read(x)?); kids.push(read(y)?); format!("bin {}", binop(&o.inner)) }
        Expression::Call { callee, args, .. } => match &args.inner {
            ArgumentList::Positional(v) => { for x in v { kids.push(read(x)?) } format!("call {}", pathstr(callee)) }
            ArgumentList::Named(v) => { let mut n = String::new(); for x in v { match x { NamedArgument::Full(k, x) => { n += &format!("{}:,", k.inner); kids.push(read(x)?) } NamedArgument::Short(k) => n += &format!("{},", k.inner) } } format!("named {} {n}", pathstr(callee)) }
        },
        Expression::MethodCall { target, name, args, .. } => { kids.push(read(target)?); match &args.inner { ArgumentList::Positional(v) => for x in v { kids.push(read(x)?) }, _ => return Err("named method arguments".into()) } format!("method {}", name.inner) }
        Expression::FieldAccess(t, n) => { kids.push(read(t)?); format!("field {}", n.inner) }
        Expression::TupleIndex { target, index, .. } => { kids.push(read(target)?); format!("tup {}", index.inner) }
        Expression::Index(t, i) => { kids.push(read(t)?); kids.push(read(i)?); "index".into() }
        Expression::RangeIndex { target, start, end } => { kids.push(read(target)?); if let Some(s) = start { kids.push(read(s)?) } if let Some(s) = end { kids.push(read(s)?) } format!("range {}{}", start.is_some() as u8, end.is_some() as u8) }
        Expression::TupleLiteral(v) => { for x in v { kids.push(read(x)?) } "tuple".into() }
        Expression::ArrayLiteral(v) => { for x in v { kids.push(read(&x.1)?) } "array".into() }
        Expression::ArrayShorthandLiteral(x, y) => { kids.push(read(x)?); kids.push(read(y)?); "rep".into() }
        Expression::If { cond, on_true, on_false } => { for x in [cond, on_true, on_false] { kids.push(read(x)?) } "if".into() }
        Expression::TypeCast(x, _) => { kids.push(read(x)?); "cast".into() }
        Expression::Block(bl) => { if !bl.statements.is_empty() { return Err("statements in a block that has none".into()) } match &bl.result { Some(x) => kids.push(read(x)?), None => return Err("a block without its result".into()) } "block".into() }
        x => return Err(format!("unexpected node {x:?}").chars().take(200).collect()),
    };
    Ok(T { kind, a, b, kids })
}
/// parse a whole text as one expression, everything consumed
pub fn parse(s: &str) -> Result<T, String> {
    let mut p = spade_parser::Parser::new(s, 0, None);
    let e = guard(|| p.expression()).map_err(|m| format!("panic: {m}"))?.map_err(|d| format!("rejected: {}", d.labels.message.as_str()))?;
    let t = read(&e)?;
    let rest = p.peek().map_err(|_| "error after the expression".to_string())?;
    if rest.kind != spade_ast::token::TokenKind::Eof { return Err(format!("stops before the end, at {:?}", rest.span)) }
    Ok(t)
}
