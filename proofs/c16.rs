//@include core.rs
/*@ rules
rule: $x.clone() ==> $x.vclone()
rule: $o.map(|$p| $b) ==> match $o { Some($p) => Some($b), None => None }
rule: ().between_locs($a, $b) ==> vunit_between($a, $b)
type: Result ==> Result<@0, Diagnostic>
@*/
verus! {
broadcast use {group_num};
// ---------------------------------------------------------------- source positions (contracts proved in c17.rs)
#[derive(Clone, Copy)]
pub struct Span { pub start: u32, pub end: u32 }
pub open spec fn merged(a: Span, b: Span) -> Span { Span { start: if a.start <= b.start { a.start } else { b.start }, end: if a.end >= b.end { a.end } else { b.end } } }
/*@ type spade-common/src/location_info.rs :: Loc @*/
pub trait HasCodespan { spec fn cs(&self) -> Span; }
impl<T> HasCodespan for Loc<T> { open spec fn cs(&self) -> Span { self.span } }
impl HasCodespan for Token { open spec fn cs(&self) -> Span { self.span } }
pub trait WithLocation: Sized {
    fn at<A: HasCodespan>(self, f: usize, a: &A) -> (r: Loc<Self>) ensures r == (Loc { inner: self, span: a.cs(), file_id: f });
    fn at_loc<T>(self, l: &Loc<T>) -> (r: Loc<Self>) ensures r == (Loc { inner: self, span: l.span, file_id: l.file_id });
    fn between<A: HasCodespan, B: HasCodespan>(self, f: usize, a: &A, b: &B) -> (r: Loc<Self>) ensures r == (Loc { inner: self, span: merged(a.cs(), b.cs()), file_id: f });
}
impl<X> WithLocation for X {
    #[verifier::external_body]
    fn at<A: HasCodespan>(self, f: usize, a: &A) -> (r: Loc<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn at_loc<T>(self, l: &Loc<T>) -> (r: Loc<Self>) { unimplemented!() }
    #[verifier::external_body]
    fn between<A: HasCodespan, B: HasCodespan>(self, f: usize, a: &A, b: &B) -> (r: Loc<Self>) { unimplemented!() }
}
/// the real function asserts that both are of one file (a panic otherwise: divergence)
#[verifier::external_body]
pub fn vunit_between<A, B>(a: &Loc<A>, b: &Loc<B>) -> (r: Loc<()>) ensures r == (Loc { inner: (), span: merged(a.span, b.span), file_id: b.file_id }), a.file_id == b.file_id { unimplemented!() }
impl<T> Loc<T> {
    #[verifier::external_body]
    pub fn split_loc(self) -> (r: (T, Loc<()>)) ensures r.0 == self.inner, r.1 == (Loc { inner: (), span: self.span, file_id: self.file_id }) { unimplemented!() }
}
// ---------------------------------------------------------------- the tree
#[verifier::external_body]
pub struct Identifier { x: u64 }
#[verifier::external_body]
pub struct Path { x: u64 }
#[verifier::external_body]
pub struct TurbofishInner { x: u64 }
#[verifier::external_body]
pub struct NamedArgument { x: u64 }
#[verifier::external_body]
pub struct TypeExpression { x: u64 }
#[verifier::external_body]
pub struct Diagnostic { x: u64 }
#[verifier::external_body]
pub fn vdiag() -> (r: Diagnostic) { unimplemented!() }
/*@ type spade-ast/src/token.rs :: LiteralKind @*/
/*@ type spade-ast/src/token.rs :: TokenKind
@*/
/*@ type spade-ast/src/lib.rs :: IntLiteral @*/
/*@ type spade-ast/src/lib.rs :: BinaryOperator @*/
/*@ type spade-ast/src/lib.rs :: UnaryOperator @*/
/*@ type spade-ast/src/lib.rs :: CallKind @*/
/*@ type spade-ast/src/lib.rs :: ArgumentList @*/
/*@ type spade-ast/src/lib.rs :: Expression
keep: IntLiteral, UnaryOperator, BinaryOperator, Call
@*/
/*@ type spade-parser/src/expression.rs :: OpBindingPower
ord: yes
@*/
/// derive(PartialOrd) on a fieldless enum compares declaration order (trusted)
#[verifier::external_body]
pub fn vle(a: &OpBindingPower, b: &OpBindingPower) -> (r: bool) ensures r == (vord_OpBindingPower(*a) <= vord_OpBindingPower(*b)) { unimplemented!() }
#[verifier::external_body]
pub fn vlt(a: &OpBindingPower, b: &OpBindingPower) -> (r: bool) ensures r == (vord_OpBindingPower(*a) < vord_OpBindingPower(*b)) { unimplemented!() }

// ---------------------------------------------------------------- the operator table
pub open spec fn power(op: BinaryOperator) -> int {
    match op {
        BinaryOperator::LogicalOr => 1,
        BinaryOperator::LogicalAnd => 2,
        BinaryOperator::LogicalXor => 3,
        BinaryOperator::Eq | BinaryOperator::Neq => 4,
        BinaryOperator::Lt | BinaryOperator::Gt | BinaryOperator::Le | BinaryOperator::Ge => 5,
        BinaryOperator::BitwiseOr => 6,
        BinaryOperator::BitwiseXor => 7,
        BinaryOperator::BitwiseAnd => 8,
        BinaryOperator::LeftShift | BinaryOperator::RightShift | BinaryOperator::ArithmeticRightShift | BinaryOperator::WrappingLeftShift | BinaryOperator::WrappingRightShift => 9,
        BinaryOperator::Add | BinaryOperator::Sub | BinaryOperator::WrappingAdd | BinaryOperator::WrappingSub => 10,
        BinaryOperator::Mul | BinaryOperator::Div | BinaryOperator::Mod | BinaryOperator::WrappingMul => 11,
    }
}
/// unary operators bind tighter than every binary one
pub spec const PREFIX: int = 12;
pub open spec fn binop_of(k: TokenKind) -> Option<BinaryOperator> {
    match k {
        TokenKind::Plus => Some(BinaryOperator::Add), TokenKind::Minus => Some(BinaryOperator::Sub), TokenKind::Asterisk => Some(BinaryOperator::Mul),
        TokenKind::Slash => Some(BinaryOperator::Div), TokenKind::Percentage => Some(BinaryOperator::Mod), TokenKind::Equals => Some(BinaryOperator::Eq),
        TokenKind::NotEquals => Some(BinaryOperator::Neq), TokenKind::Lt => Some(BinaryOperator::Lt), TokenKind::Gt => Some(BinaryOperator::Gt),
        TokenKind::Le => Some(BinaryOperator::Le), TokenKind::Ge => Some(BinaryOperator::Ge), TokenKind::RightShift => Some(BinaryOperator::RightShift),
        TokenKind::ArithmeticRightShift => Some(BinaryOperator::ArithmeticRightShift), TokenKind::LeftShift => Some(BinaryOperator::LeftShift),
        TokenKind::PlusDot => Some(BinaryOperator::WrappingAdd), TokenKind::MinusDot => Some(BinaryOperator::WrappingSub), TokenKind::AsteriskDot => Some(BinaryOperator::WrappingMul),
        TokenKind::RightShiftDot => Some(BinaryOperator::WrappingRightShift), TokenKind::LeftShiftDot => Some(BinaryOperator::WrappingLeftShift),
        TokenKind::DoublePipe => Some(BinaryOperator::LogicalOr), TokenKind::LogicalAnd => Some(BinaryOperator::LogicalAnd), TokenKind::LogicalXor => Some(BinaryOperator::LogicalXor),
        TokenKind::Ampersand => Some(BinaryOperator::BitwiseAnd), TokenKind::Pipe => Some(BinaryOperator::BitwiseOr), TokenKind::BitwiseXor => Some(BinaryOperator::BitwiseXor),
        _ => None,
    }
}
pub open spec fn unop_of(k: TokenKind) -> Option<UnaryOperator> {
    match k {
        TokenKind::Minus => Some(UnaryOperator::Sub), TokenKind::MinusDot => Some(UnaryOperator::WrappingSub), TokenKind::Not => Some(UnaryOperator::Not),
        TokenKind::Tilde => Some(UnaryOperator::BitwiseNot), TokenKind::Ampersand => Some(UnaryOperator::Reference), TokenKind::Asterisk => Some(UnaryOperator::Dereference),
        _ => None,
    }
}
/*@ fn spade-parser/src/expression.rs :: binop_binding_power
ensures: vord_OpBindingPower(r) == power(*op)
@*/
/*@ fn spade-parser/src/expression.rs :: unop_binding_power
ensures: vord_OpBindingPower(r) == PREFIX
@*/
// ---------------------------------------------------------------- the token stream
pub struct Token { pub kind: TokenKind, pub span: Span, pub file_id: usize }
impl Token {
    #[verifier::external_body]
    pub fn loc(&self) -> (r: Loc<()>) ensures r == (Loc { inner: (), span: self.span, file_id: self.file_id }) { unimplemented!() }
}
pub uninterp spec fn eof() -> Token;
pub open spec fn head(s: Seq<Token>) -> Token { if s.len() > 0 { s[0] } else { eof() } }
#[verifier::external_body]
pub struct Parser { x: u64 }
/// a sequence of tokens that base_expression reads as the operand e
pub uninterp spec fn operand(s: Seq<Token>, e: Loc<Expression>) -> bool;
/// a sequence of tokens between (and with) two infix separators, naming a function
pub uninterp spec fn infix_name(s: Seq<Token>, c: Loc<Path>, t: Option<Loc<TurbofishInner>>) -> bool;
impl Parser {
    /// the tokens not yet consumed (a finite stream; after its end, the end-of-file token)
    pub uninterp spec fn rest(&self) -> Seq<Token>;
    pub uninterp spec fn file(&self) -> usize;
    #[verifier::external_body]
    pub fn file_id(&self) -> (r: usize) ensures r == self.file() { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Result<Token, Diagnostic>)
        ensures final(self).rest() == old(self).rest(), final(self).file() == old(self).file(), r is Ok ==> r->Ok_0 == head(old(self).rest()),
            old(self).rest().len() == 0 && r is Ok ==> r->Ok_0.kind == TokenKind::Eof { unimplemented!() }
    #[verifier::external_body]
    pub fn peek_kind(&mut self, k: &TokenKind) -> (r: Result<bool, Diagnostic>)
        ensures final(self).rest() == old(self).rest(), final(self).file() == old(self).file(), r is Ok ==> (r->Ok_0 ==> old(self).rest().len() > 0) && (*k != TokenKind::Gt ==> r->Ok_0 == (head(old(self).rest()).kind == *k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn eat_unconditional(&mut self) -> (r: Result<Token, Diagnostic>)
        ensures final(self).file() == old(self).file(), r is Ok ==> r->Ok_0 == head(old(self).rest()) && final(self).rest() == (if old(self).rest().len() > 0 { old(self).rest().drop_first() } else { old(self).rest() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn base_expression(&mut self) -> (r: Result<Loc<Expression>, Diagnostic>)
        ensures final(self).file() == old(self).file(), r is Ok ==> exists|s: Seq<Token>| #[trigger] operand(s, r->Ok_0) && old(self).rest() == s + final(self).rest() { unimplemented!() }
    /// surrounded(&InfixOperatorSeparator, Self::path_with_turbofish, &InfixOperatorSeparator)
    #[verifier::external_body]
    pub fn infix_separated_path(&mut self) -> (r: Result<(Option<(Loc<Path>, bool, Option<Loc<TurbofishInner>>)>, Loc<()>), Diagnostic>)
        ensures final(self).file() == old(self).file(), r is Ok && r->Ok_0.0 is Some ==> exists|s: Seq<Token>| s.len() > 0 && #[trigger] infix_name(s, r->Ok_0.0->Some_0.0, r->Ok_0.0->Some_0.2) && old(self).rest() == s + final(self).rest() { unimplemented!() }
}
// ---------------------------------------------------------------- derivations
pub ghost enum Tr { Leaf(Seq<Token>, Loc<Expression>), Un(Token, UnaryOperator, Box<Tr>), Bin(Box<Tr>, Token, BinaryOperator, Box<Tr>) }
pub open spec fn yields(t: Tr) -> Seq<Token> decreases t {
    match t { Tr::Leaf(s, _) => s, Tr::Un(k, _, x) => seq![k] + yields(*x), Tr::Bin(l, k, _, r) => yields(*l) + seq![k] + yields(*r) }
}
pub open spec fn top(t: Tr) -> int { match t { Tr::Bin(_, _, op, _) => power(op), _ => PREFIX } }
/// the tree the table determines: to the right of an operator everything binds tighter, to the left nothing looser
/// (left associativity); the operand of a unary operator contains no binary operator
pub open spec fn ok(t: Tr) -> bool decreases t {
    match t {
        Tr::Leaf(s, e) => operand(s, e),
        Tr::Un(k, op, x) => unop_of(k.kind) == Some(op) && ok(*x) && !(*x is Bin),
        Tr::Bin(l, k, op, r) => binop_of(k.kind) == Some(op) && ok(*l) && ok(*r) && top(*l) >= power(op) && top(*r) > power(op),
    }
}
pub open spec fn neg_lit(l: IntLiteral) -> IntLiteral {
    match l { IntLiteral::Unsized(v) => IntLiteral::Unsized(neg(v)), IntLiteral::Signed { val, size } => IntLiteral::Signed { val: neg(val), size }, x => x }
}
pub open spec fn neg(v: BigInt) -> BigInt { choose|r: BigInt| r@ == -v@ }
#[verifier::external_body]
pub fn vneg(v: &BigInt) -> (r: BigInt) ensures r == neg(*v) { unimplemented!() }
/// the expression of a unary operator applied to e: a negated integer literal is a literal
pub open spec fn unary(op: Loc<UnaryOperator>, e: Loc<Expression>) -> Loc<Expression> {
    Loc { inner: match (op.inner, e.inner) {
            (UnaryOperator::Sub, Expression::IntLiteral(l)) => Expression::IntLiteral(Loc { inner: neg_lit(l.inner), span: l.span, file_id: l.file_id }),
            _ => Expression::UnaryOperator(op, Box::new(e)) },
        span: merged(op.span, e.span), file_id: e.file_id }
}
pub open spec fn at_token(op: UnaryOperator, k: Token) -> Loc<UnaryOperator> { Loc { inner: op, span: k.span, file_id: k.file_id } }
pub open spec fn binary(f: usize, l: Loc<Expression>, k: Token, op: BinaryOperator, r: Loc<Expression>) -> Loc<Expression> {
    Loc { inner: Expression::BinaryOperator(Box::new(l), Loc { inner: op, span: k.span, file_id: f }, Box::new(r)), span: merged(l.span, r.span), file_id: f }
}
pub open spec fn ast(f: usize, t: Tr) -> Loc<Expression> decreases t {
    match t { Tr::Leaf(_, e) => e, Tr::Un(k, op, x) => unary(at_token(op, k), ast(f, *x)), Tr::Bin(l, k, op, r) => binary(f, ast(f, *l), k, op, ast(f, *r)) }
}
/// no operator that binds tighter than min follows
pub open spec fn stops(s: Seq<Token>, min: int) -> bool { match binop_of(head(s).kind) { Some(op) => power(op) <= min, None => true } }
#[verifier::opaque]
pub open spec fn parsed(f: usize, t: Tr, from: Seq<Token>, to: Seq<Token>, e: Loc<Expression>) -> bool { ok(t) && ast(f, t) == e && from == yields(t) + to }

/// e is the tree of a prefix of `from`, `to` is what follows, and its operators bind tighter than min
pub open spec fn derived(f: usize, from: Seq<Token>, to: Seq<Token>, e: Loc<Expression>, min: int) -> bool {
    exists|t: Tr| #[trigger] parsed(f, t, from, to, e) && (t is Bin ==> top(t) > min)
}
pub proof fn lemma_leaf(f: usize, s: Seq<Token>, e: Loc<Expression>, from: Seq<Token>, to: Seq<Token>)
    requires operand(s, e), from == s + to ensures parsed(f, Tr::Leaf(s, e), from, to, e) { reveal(parsed); }
pub proof fn lemma_un(f: usize, k: Token, op: UnaryOperator, x: Tr, from: Seq<Token>, to: Seq<Token>, e: Loc<Expression>)
    requires from.len() > 0, from[0] == k, unop_of(k.kind) == Some(op), parsed(f, x, from.drop_first(), to, e), !(x is Bin)
    ensures parsed(f, Tr::Un(k, op, Box::new(x)), from, to, unary(at_token(op, k), e))
{
    reveal(parsed);
    assert(from =~= seq![from[0]] + from.drop_first());
    assert(from =~= yields(Tr::Un(k, op, Box::new(x))) + to);
}
pub proof fn lemma_bin(f: usize, l: Tr, k: Token, op: BinaryOperator, x: Tr, from: Seq<Token>, at: Seq<Token>, to: Seq<Token>, le: Loc<Expression>, re: Loc<Expression>)
    requires at.len() > 0, at[0] == k, binop_of(k.kind) == Some(op), parsed(f, l, from, at, le), parsed(f, x, at.drop_first(), to, re), top(l) >= power(op), top(x) > power(op)
    ensures parsed(f, Tr::Bin(Box::new(l), k, op, Box::new(x)), from, to, binary(f, le, k, op, re))
{
    reveal(parsed);
    assert(at =~= seq![at[0]] + at.drop_first());
    assert(from =~= yields(Tr::Bin(Box::new(l), k, op, Box::new(x))) + to);
}
/// an expression without an outermost binary operator
pub open spec fn prim(f: usize, from: Seq<Token>, to: Seq<Token>, e: Loc<Expression>) -> bool { exists|t: Tr| !(t is Bin) && #[trigger] parsed(f, t, from, to, e) }

// ---------------------------------------------------------------- the table determines the tree
pub ghost enum Sym { Opnd(Seq<Token>, Loc<Expression>), Un(Token), Bin(Token) }
pub open spec fn flat(t: Tr) -> Seq<Sym> decreases t {
    match t { Tr::Leaf(s, e) => seq![Sym::Opnd(s, e)], Tr::Un(k, _, x) => seq![Sym::Un(k)] + flat(*x), Tr::Bin(l, k, _, r) => flat(*l) + seq![Sym::Bin(k)] + flat(*r) }
}
pub open spec fn atleast(s: Seq<Sym>, p: int) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Bin ==> binop_of(s[i]->Bin_0.kind) is Some && power(binop_of(s[i]->Bin_0.kind)->Some_0) >= p }
pub proof fn lemma_atleast(t: Tr) requires ok(t) ensures atleast(flat(t), top(t)), flat(t).len() > 0, !(t is Bin) ==> forall|i: int| 0 <= i < flat(t).len() ==> !((#[trigger] flat(t)[i]) is Bin) decreases t
{
    match t {
        Tr::Leaf(..) => {}
        Tr::Un(k, op, x) => { lemma_atleast(*x); assert forall|i: int| 0 <= i < flat(t).len() implies !((#[trigger] flat(t)[i]) is Bin) by { if i > 0 { assert(flat(t)[i] == flat(*x)[i - 1]); } } }
        Tr::Bin(l, k, op, r) => {
            lemma_atleast(*l); lemma_atleast(*r);
            let n = flat(*l).len();
            assert forall|i: int| 0 <= i < flat(t).len() && (#[trigger] flat(t)[i]) is Bin implies binop_of(flat(t)[i]->Bin_0.kind) is Some && power(binop_of(flat(t)[i]->Bin_0.kind)->Some_0) >= power(op) by {
                if i < n { assert(flat(t)[i] == flat(*l)[i]); } else if i > n { assert(flat(t)[i] == flat(*r)[i - n - 1]); }
            }
        }
    }
}
/// there is only one tree that satisfies ok with the same operands and operators in the same order
pub proof fn lemma_unique(a: Tr, b: Tr) requires ok(a), ok(b), flat(a) == flat(b) ensures a == b decreases a
{
    lemma_atleast(a); lemma_atleast(b);
    match (a, b) {
        (Tr::Bin(l1, k1, o1, r1), Tr::Bin(l2, k2, o2, r2)) => {
            lemma_atleast(*l1); lemma_atleast(*r1); lemma_atleast(*l2); lemma_atleast(*r2);
            let (n1, n2) = (flat(*l1).len() as int, flat(*l2).len() as int);
            assert(flat(a)[n1] == Sym::Bin(k1)); assert(flat(b)[n2] == Sym::Bin(k2));
            if n1 < n2 { assert(flat(*r1)[n2 - n1 - 1] == flat(a)[n2]); assert(flat(*l2)[n1] == flat(b)[n1]); assert(false); }
            if n2 < n1 { assert(flat(*r2)[n1 - n2 - 1] == flat(b)[n1]); assert(flat(*l1)[n2] == flat(a)[n2]); assert(false); }
            assert(flat(*l1) =~= flat(a).subrange(0, n1)); assert(flat(*l2) =~= flat(b).subrange(0, n1));
            assert(flat(*r1) =~= flat(a).subrange(n1 + 1, flat(a).len() as int)); assert(flat(*r2) =~= flat(b).subrange(n1 + 1, flat(a).len() as int));
            lemma_unique(*l1, *l2); lemma_unique(*r1, *r2);
        }
        (Tr::Bin(l, k, _, _), _) => { assert(flat(a)[flat(*l).len() as int] == Sym::Bin(k)); }
        (_, Tr::Bin(l, k, _, _)) => { assert(flat(b)[flat(*l).len() as int] == Sym::Bin(k)); }
        (Tr::Un(k1, o1, x1), Tr::Un(k2, o2, x2)) => {
            assert(flat(a)[0] == Sym::Un(k1)); assert(flat(b)[0] == Sym::Un(k2));
            assert(flat(*x1) =~= flat(a).subrange(1, flat(a).len() as int)); assert(flat(*x2) =~= flat(b).subrange(1, flat(a).len() as int));
            lemma_unique(*x1, *x2);
        }
        (Tr::Leaf(s1, e1), Tr::Leaf(s2, e2)) => { assert(flat(a)[0] == Sym::Opnd(s1, e1)); assert(flat(b)[0] == Sym::Opnd(s2, e2)); }
        (Tr::Leaf(s1, e1), Tr::Un(k, _, _)) => { assert(flat(a)[0] == Sym::Opnd(s1, e1)); assert(flat(b)[0] == Sym::Un(k)); }
        (Tr::Un(k, _, _), Tr::Leaf(s1, e1)) => { assert(flat(b)[0] == Sym::Opnd(s1, e1)); assert(flat(a)[0] == Sym::Un(k)); }
    }
}
// ---------------------------------------------------------------- operators written `name`
pub ghost struct Named { pub s: Seq<Token>, pub callee: Loc<Path>, pub turbofish: Option<Loc<TurbofishInner>> }
pub ghost enum Chain { End(Seq<Token>, Loc<Expression>), Op(Seq<Token>, Loc<Expression>, Named, Loc<Expression>, Box<Chain>) }
pub open spec fn infixcall(f: usize, l: Loc<Expression>, n: Named, r: Loc<Expression>, e: Loc<Expression>) -> bool {
    e.span == merged(l.span, r.span) && e.file_id == f && match e.inner {
        Expression::Call { kind, callee, args, turbofish } => kind == CallKind::Function && callee == n.callee && turbofish == n.turbofish
            && args.span == merged(l.span, r.span) && args.file_id == f && (match args.inner { ArgumentList::Positional(v) => v@ =~= seq![l, r], _ => false }),
        _ => false,
    }
}
/// they bind weakest of all and group to the right
pub open spec fn chained(f: usize, c: Chain, from: Seq<Token>, to: Seq<Token>, e: Loc<Expression>) -> bool decreases c {
    match c {
        Chain::End(s, x) => e == x && derived(f, from, to, x, 0),
        Chain::Op(m, l, n, x, r) => derived(f, from, m, l, 0) && infix_name(n.s, n.callee, n.turbofish) && m.len() >= n.s.len() && m.take(n.s.len() as int) == n.s
            && chained(f, *r, m.skip(n.s.len() as int), to, x) && infixcall(f, l, n, x, e),
    }
}
pub proof fn lemma_op(f: usize, from: Seq<Token>, m: Seq<Token>, l: Loc<Expression>, n: Named, rest: Seq<Token>, c: Chain, to: Seq<Token>, x: Loc<Expression>, e: Loc<Expression>)
    requires derived(f, from, m, l, 0), infix_name(n.s, n.callee, n.turbofish), m == n.s + rest, chained(f, c, rest, to, x), infixcall(f, l, n, x, e)
    ensures chained(f, Chain::Op(m, l, n, x, Box::new(c)), from, to, e)
{
    assert(m.take(n.s.len() as int) =~= n.s);
    assert(m.skip(n.s.len() as int) =~= rest);
}
pub open spec fn expr_of(f: usize, from: Seq<Token>, to: Seq<Token>, e: Loc<Expression>) -> bool { exists|c: Chain| #[trigger] chained(f, c, from, to, e) }
// ---------------------------------------------------------------- the parser
/*@ fn spade-parser/src/expression.rs :: Parser::binop_from_kind
assoc: yes
impl: impl Parser
ensures: r == binop_of(*kind)
@*/
/*@ fn spade-parser/src/expression.rs :: Parser::unop_from_kind
assoc: yes
impl: impl Parser
ensures: r == unop_of(*kind)
@*/
/*@ fn spade-parser/src/expression.rs :: Parser::inline_negative_literal
impl: impl Parser
rule: Err($e) ==> Err(vdiag())
rule: -$x ==> vneg($x)
ensures:
  r is Ok ==> r->Ok_0 == unary(op, rhs)
@*/
/*@ fn spade-parser/src/expression.rs :: Parser::expr_bp
impl: impl Parser
rule: $a <= $b ==> vle(&$a, &$b)
rule: $a < $b ==> vlt(&$a, &$b)
rule: $a >= $b ==> vle(&$b, &$a)
rule: $a > $b ==> vlt(&$b, &$a)
attr: #[verifier::allow_complex_invariants]
ensures:
  final(self).file() == old(self).file(),
  r is Ok ==> final(self).rest().len() <= old(self).rest().len(),
  r is Ok ==> derived(old(self).file(), old(self).rest(), final(self).rest(), r->Ok_0, vord_OpBindingPower(min_power)),
  r is Ok ==> stops(final(self).rest(), vord_OpBindingPower(min_power))
decreases: old(self).rest().len()
entry:
  let ghost f = self.file();
  let ghost from = self.rest();
  let ghost min = vord_OpBindingPower(min_power);
after-let rhs#0:
  proof {
    let x = choose|x: Tr| #[trigger] parsed(f, x, from.drop_first(), self.rest(), rhs) && (x is Bin ==> top(x) > PREFIX);
    lemma_un(f, tok, op, x, from, self.rest(), rhs);
    assert(prim(f, from, self.rest(), unary(at_token(op, tok), rhs)));
  }
loop 0 before:
  proof {
    if !prim(f, from, self.rest(), lhs) {
      let s = choose|s: Seq<Token>| #[trigger] operand(s, lhs) && from == s + self.rest();
      lemma_leaf(f, s, lhs, from, self.rest());
    }
  }
  proof {
    if exists|s: Seq<Token>| #[trigger] operand(s, lhs) && from == s + self.rest() { let s = choose|s: Seq<Token>| #[trigger] operand(s, lhs) && from == s + self.rest(); assert(from.len() == s.len() + self.rest().len()); }
  }
  let ghost mut t = choose|t: Tr| !(t is Bin) && #[trigger] parsed(f, t, from, self.rest(), lhs);
loop 0 inv:
  self.file() == f,
  self.rest().len() <= from.len(),
  parsed(f, t, from, self.rest(), lhs),
  t is Bin ==> top(t) > min,
  stops(self.rest(), top(t))
loop 0 ensures:
  stops(self.rest(), min)
loop 0 after:
  assert(parsed(f, t, from, self.rest(), lhs));
  proof { assert(derived(f, from, self.rest(), lhs, min)); }
loop 0 dec: self.rest().len()
loop 0 start:
  let ghost t0 = t;
  let ghost l0 = lhs;
  let ghost at = self.rest();
after-let rhs#1:
  proof {
    let x = choose|x: Tr| #[trigger] parsed(f, x, at.drop_first(), self.rest(), rhs) && (x is Bin ==> top(x) > power(op));
    lemma_bin(f, t0, op_tok, op, x, from, at, self.rest(), l0, rhs);
    t = Tr::Bin(Box::new(t0), op_tok, op, Box::new(x));
  }
@*/
/*@ fn spade-parser/src/expression.rs :: Parser::custom_infix_operator
impl: impl Parser
rule: Err($e) ==> Err(vdiag())
rule: self.surrounded(&TokenKind::InfixOperatorSeparator, Self::path_with_turbofish, &TokenKind::InfixOperatorSeparator) ==> self.infix_separated_path()
ensures:
  final(self).file() == old(self).file(),
  r is Ok ==> final(self).rest().len() <= old(self).rest().len(),
  r is Ok ==> expr_of(old(self).file(), old(self).rest(), final(self).rest(), r->Ok_0),
  r is Ok ==> stops(final(self).rest(), 0) && head(final(self).rest()).kind != TokenKind::InfixOperatorSeparator
decreases: old(self).rest().len()
entry:
  let ghost f = self.file();
  let ghost from = self.rest();
after-let lhs_val:
  let ghost m = self.rest();
  proof { assert(chained(f, Chain::End(from, lhs_val), from, m, lhs_val)); }
before-call custom_infix_operator:
  let ghost rest = self.rest();
after-let rhs_val:
  proof {
    assert(derived(f, from, m, lhs_val, 0));
    let s = choose|s: Seq<Token>| s.len() > 0 && #[trigger] infix_name(s, callee, turbofish) && m == s + rest;
    let c = choose|c: Chain| #[trigger] chained(f, c, rest, self.rest(), rhs_val);
    let n = Named { s, callee, turbofish };
    assert forall|e: Loc<Expression>| infixcall(f, lhs_val, n, rhs_val, e) implies #[trigger] expr_of(f, from, self.rest(), e) by {
      lemma_op(f, from, m, lhs_val, n, rest, c, self.rest(), rhs_val, e);
      assert(chained(f, Chain::Op(m, lhs_val, n, rhs_val, Box::new(c)), from, self.rest(), e));
    }
  }
@*/
}
fn main() {}
