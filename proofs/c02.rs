//@include core.rs
/*@ rules
rule: BigUint::from($x) ==> $x.vbu()
rule: $x.to_biguint() ==> $x.vbu()
rule: $x.clone() ==> $x.vclone()
rule: vzero() ==> BigUint::zero()
macro: panic ==> vdiverge()
macro: unreachable ==> vdiverge()
@*/
verus! {
broadcast use {group_num};
/*@ type spade-mir/src/codegen/util.rs :: TupleIndex @*/
pub open spec fn bsum(v: Seq<BigUint>, k: nat) -> nat decreases k {
    if k == 0 || k > v.len() { 0 } else { bsum(v, (k - 1) as nat) + v[k - 1]@ }
}

pub proof fn lemma_bsum_mono(v: Seq<BigUint>, a: nat, b: nat) requires a <= b <= v.len() ensures bsum(v, a) <= bsum(v, b) decreases b
{ if a < b { lemma_bsum_mono(v, a, (b - 1) as nat); } }
pub proof fn lemma_bsum_step(v: Seq<BigUint>, k: nat) requires k < v.len() ensures bsum(v, k + 1) == bsum(v, k) + v[k as int]@
{ assert((k + 1 - 1) as nat == k); }
/// position of the most significant bit of member `i` and its width, in a value of width bsum(all)
pub open spec fn top(v: Seq<BigUint>, i: int) -> int { bsum(v, v.len()) - bsum(v, i as nat) - 1 }
pub open spec fn low(v: Seq<BigUint>, i: int) -> int { bsum(v, v.len()) - bsum(v, (i + 1) as nat) }
/// the bit positions [hi:lo] an index suffix selects out of a vector of `total` bits; None: not a legal selection
pub open spec fn selects(t: TupleIndex, total: int, hi: int, lo: int) -> bool {
    match t {
        TupleIndex::None => hi == total - 1 && lo == 0,
        TupleIndex::ZeroWidth => hi + 1 == lo,
        // a scalar (one bit wide) wire must not be indexed
        TupleIndex::Single(i) => total > 1 && hi == i@ && lo == i@,
        TupleIndex::Range { left, right } => total > 1 && left@ >= right@ && hi == left@ && lo == right@,
    }
}
/*@ fn spade-mir/src/codegen/mod.rs :: compute_tuple_index
requires: ($1 as int) < $2@.len()
ensures: selects(r, bsum($2@, $2@.len()) as int, top($2@, $1 as int), low($2@, $1 as int))
entry: proof { lemma_bsum_mono($2@, ($1 + 1) as nat, $2@.len()); lemma_bsum_step($2@, $1 as nat); }
loop 0 inv: $a0@ == bsum($2@, vi0 as nat)
loop 0 start: proof { lemma_bsum_step($2@, (vi0 - 1) as nat); }
loop 1 inv: vacc1@ == bsum(vs1@, vi1 as nat)
loop 1 start: proof { lemma_bsum_step(vs1@, (vi1 - 1) as nat); }
loop 2 inv: vacc2@ == bsum(vs2@, vi2 as nat)
loop 2 start: proof { lemma_bsum_step(vs2@, (vi2 - 1) as nat); }
@*/
/// members never share bits
pub proof fn lemma_disjoint(v: Seq<BigUint>, i: int, j: int) requires 0 <= i < j < v.len()
    ensures top(v, j) < low(v, i), low(v, j) >= 0, top(v, i) < bsum(v, v.len()), top(v, i) - low(v, i) + 1 == v[i]@
{ lemma_bsum_mono(v, (i + 1) as nat, j as nat); lemma_bsum_mono(v, (j + 1) as nat, v.len()); lemma_bsum_step(v, i as nat); }
fn main() {}
}
