//@include core.rs
/*@ rules
rule: BigInt::from($x) ==> $x.vbi()
rule: $x.to_bigint() ==> $x.vbi()
rule: $x.bits().into() ==> $x.bits().vbi()
rule: $x.clone() ==> $x.vclone()
rule: vzero() ==> BigInt::zero()
macro: panic ==> vdiverge()
macro: unreachable ==> vdiverge()
@*/
verus! {
broadcast use {group_num};
// opaque parts of the type state: only the resolution of a variable matters here (C13 covers it)
#[verifier::external_body] pub struct TypeState { x: u8 }
#[verifier::external_body] pub struct NameID { x: u8 }
#[verifier::external_body] pub struct TraitList { x: u8 }
#[verifier::external_body] pub struct MetaType { x: u8 }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Loc<T> { x: T }
pub struct TypeVarID { pub inner: usize, pub type_state_key: u64 }
/*@ type spade-types/src/lib.rs :: KnownType
@*/
/*@ type spade-typeinference/src/equation.rs :: TypeVar
@*/
/*@ type spade-typeinference/src/constraints.rs :: ConstraintExpr
@*/
pub uninterp spec fn sres(ts: TypeState, id: TypeVarID) -> TypeVar;
impl TypeVarID {
    /// resolution of a type variable (the union-find lookup; its own contract is C13's)
    #[verifier::external_body]
    pub fn resolve(&self, ts: &TypeState) -> (r: TypeVar) ensures r == sres(*ts, *self) { unimplemented!() }
}

/// the value of an expression: `U` when it is not determined (an unknown variable inside, or ill kinded)
pub enum Val { I(int), B(bool), S(Seq<char>), U }
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }
/// least width whose two's complement range -2^(k-1) .. 2^(k-1)-1 contains n
pub open spec fn fits_int(n: int, k: int) -> bool { k >= 1 && -(pow2((k - 1) as nat) as int) <= n < pow2((k - 1) as nat) }
pub open spec fn fits_uint(n: int, k: int) -> bool { k >= 0 && 0 <= n < pow2(k as nat) }
pub open spec fn least_int(n: int, k: int) -> bool { fits_int(n, k) && (k >= 2 ==> !fits_int(n, k - 1)) }
pub open spec fn least_uint(n: int, k: int) -> bool { fits_uint(n, k) && (k >= 1 ==> !fits_uint(n, k - 1)) }
pub open spec fn uint_bits(n: int) -> int { choose|k: int| #[trigger] least_uint(n, k) }
pub open spec fn int_bits(n: int) -> int { choose|k: int| #[trigger] least_int(n, k) }
pub open spec fn known(t: TypeVar) -> Val {
    match t {
        TypeVar::Known(_, KnownType::Integer(i), _) => Val::I(i@),
        TypeVar::Known(_, KnownType::Bool(b), _) => Val::B(b),
        TypeVar::Known(_, KnownType::String(s), _) => Val::S(s@),
        _ => Val::U,
    }
}
pub open spec fn val(c: ConstraintExpr, ts: TypeState) -> Val decreases c {
    match c {
        ConstraintExpr::Bool(b) => Val::B(b),
        ConstraintExpr::Integer(i) => Val::I(i@),
        ConstraintExpr::String(s) => Val::S(s@),
        ConstraintExpr::Var(v) => known(sres(ts, v)),
        ConstraintExpr::Sum(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::I(x), Val::I(y)) => Val::I(x + y), _ => Val::U },
        ConstraintExpr::Difference(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::I(x), Val::I(y)) => Val::I(x - y), _ => Val::U },
        ConstraintExpr::Product(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::I(x), Val::I(y)) => Val::I(x * y), _ => Val::U },
        ConstraintExpr::Div(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::I(x), Val::I(y)) => if y == 0 { Val::U } else { Val::I(tdiv(x, y)) }, _ => Val::U },
        ConstraintExpr::Mod(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::I(x), Val::I(y)) => if y == 0 { Val::U } else { Val::I(trem(x, y)) }, _ => Val::U },
        ConstraintExpr::Sub(a) => match val(*a, ts) { Val::I(x) => Val::I(-x), _ => Val::U },
        ConstraintExpr::Eq(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::I(x), Val::I(y)) => Val::B(x == y), (Val::B(x), Val::B(y)) => Val::B(x == y), (Val::S(x), Val::S(y)) => Val::B(x == y), _ => Val::U },
        ConstraintExpr::NotEq(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::I(x), Val::I(y)) => Val::B(x != y), (Val::B(x), Val::B(y)) => Val::B(x != y), (Val::S(x), Val::S(y)) => Val::B(x != y), _ => Val::U },
        ConstraintExpr::Lt(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::I(x), Val::I(y)) => Val::B(x < y), _ => Val::U },
        ConstraintExpr::Gt(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::I(x), Val::I(y)) => Val::B(x > y), _ => Val::U },
        ConstraintExpr::Le(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::I(x), Val::I(y)) => Val::B(x <= y), _ => Val::U },
        ConstraintExpr::Ge(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::I(x), Val::I(y)) => Val::B(x >= y), _ => Val::U },
        ConstraintExpr::LogicalNot(a) => match val(*a, ts) { Val::B(x) => Val::B(!x), _ => Val::U },
        ConstraintExpr::LogicalAnd(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::B(x), Val::B(y)) => Val::B(x && y), _ => Val::U },
        ConstraintExpr::LogicalOr(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::B(x), Val::B(y)) => Val::B(x || y), _ => Val::U },
        ConstraintExpr::LogicalXor(a, b) => match (val(*a, ts), val(*b, ts)) { (Val::B(x), Val::B(y)) => Val::B(x != y), _ => Val::U },
        ConstraintExpr::IntBitsToRepresent(a) => match val(*a, ts) { Val::I(x) => Val::I(int_bits(x)), _ => Val::U },
        ConstraintExpr::UintBitsToRepresent(a) => match val(*a, ts) { Val::I(x) => Val::I(if x >= 0 { uint_bits(x) } else { bitlen(iabs(x) as nat) as int }), _ => Val::U },
    }
}
pub open spec fn as_val(c: ConstraintExpr) -> Val {
    match c { ConstraintExpr::Integer(i) => Val::I(i@), ConstraintExpr::Bool(b) => Val::B(b), ConstraintExpr::String(s) => Val::S(s@), _ => Val::U }
}

// ---- bit lengths
pub proof fn lemma_bitlen(n: nat) ensures n < pow2(bitlen(n)), bitlen(n) > 0 ==> pow2((bitlen(n) - 1) as nat) <= n decreases n
{
    if n > 0 {
        lemma_bitlen(n / 2);
        let b = bitlen(n / 2);
        assert(bitlen(n) == 1 + b);
        assert(pow2(1 + b) == 2 * pow2(b));
        if b > 0 { assert(pow2(b) == 2 * pow2((b - 1) as nat)); }
        else { assert(pow2(0) == 1); }
    }
}
pub proof fn lemma_least_uint(n: int, k: int, j: int) requires least_uint(n, k), least_uint(n, j) ensures k == j
{ if k < j { if k < j - 1 { lemma_pow2_mono(k as nat, (j - 1) as nat); } assert(fits_uint(n, j - 1)); } if j < k { if j < k - 1 { lemma_pow2_mono(j as nat, (k - 1) as nat); } assert(fits_uint(n, k - 1)); } }
pub proof fn lemma_least_int(n: int, k: int, j: int) requires least_int(n, k), least_int(n, j) ensures k == j
{ if k < j { if k < j - 1 { lemma_pow2_mono((k - 1) as nat, (j - 2) as nat); } assert(fits_int(n, j - 1)); } if j < k { if j < k - 1 { lemma_pow2_mono((j - 1) as nat, (k - 2) as nat); } assert(fits_int(n, k - 1)); } }
pub broadcast proof fn lemma_uint_bits(n: nat) ensures uint_bits(n as int) == #[trigger] bitlen(n)
{
    lemma_bitlen(n); let k = bitlen(n) as int;
    assert(least_uint(n as int, k));
    lemma_least_uint(n as int, uint_bits(n as int), k);
}
pub broadcast proof fn lemma_int_bits(n: int) ensures #[trigger] int_bits(n) == 1 + bitlen((if n < 0 { -n - 1 } else { n }) as nat)
{
    let m: nat = (if n < 0 { -n - 1 } else { n }) as nat;
    lemma_bitlen(m); let k = 1 + bitlen(m) as int;
    assert(fits_int(n, k));
    assert(least_int(n, k));
    lemma_least_int(n, int_bits(n), k);
}

/*@ fn spade-typeinference/src/constraints.rs :: ConstraintExpr::evaluate
ensures: as_val(r) == val(*self, *$1), as_val(r) is U ==> r == *self
decreases: *self
split: arms
entry: broadcast use {lemma_uint_bits, lemma_int_bits};
@*/
/*@ fn spade-typeinference/src/constraints.rs :: bits_to_store
ensures: forall|ts: TypeState| (val($1, ts) matches Val::I(x) && x >= 0) ==> (#[trigger] val(r, ts)) == Val::I(uint_bits(val($1, ts)->I_0))
@*/
fn main() {}
}
