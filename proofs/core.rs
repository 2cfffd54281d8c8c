// Shared prelude (hand written; trusted parts are external_body and listed in the evidence).
#![allow(unused)]
#![allow(non_snake_case)]
#![allow(non_shorthand_field_patterns)]
use vstd::prelude::*;
//@include num.rs
use vnum::*;
pub mod vcore {
use vstd::prelude::*;
verus! {
/// derive(Clone)/Copy on plain data is a structural copy (trusted)
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T {
    #[verifier::external_body]
    fn vclone(&self) -> (r: T) ensures r == *self { unimplemented!() }
}
/// uniform view of the sequence being iterated (auto-deref to the vector or slice)
pub trait VSelf { fn vself(&self) -> (r: &Self) ensures r == self; }
impl<T> VSelf for Vec<T> { fn vself(&self) -> (r: &Self) { self } }
impl<T> VSelf for [T] { fn vself(&self) -> (r: &Self) { self } }
/// a call that never returns normally (panic!, unreachable!, todo!): partial correctness
#[verifier::external_body]
pub fn vdiverge<T>() -> (r: T) ensures false { unimplemented!() }
/// the elements of a finite iterator in reverse order (`rev()` before `collect()`)
#[verifier::external_body]
pub fn vrev<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }
/// a panic that must be unreachable
#[verifier::external_body]
pub fn vpanic<T>() -> (r: T) requires false { unimplemented!() }
} // verus!
}
use vcore::*;
pub mod vstdx {
use vstd::prelude::*;
use crate::vnum::*;
verus! {
pub open spec fn flog2(n: nat) -> nat decreases n { if n <= 1 { 0 } else { 1 + flog2(n / 2) } }
pub assume_specification<'a, T: Copy> [ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification [ <usize>::next_power_of_two ](x: usize) -> (r: usize)
    ensures r == pow2(tagw(x as nat)), r > 0;
pub assume_specification [ <usize>::ilog2 ](x: usize) -> (r: u32)
    requires x > 0,
    ensures r == flog2(x as nat), r < 64;
pub assume_specification [ <u64>::next_power_of_two ](x: u64) -> (r: u64)
    ensures r == pow2(tagw(x as nat)), r > 0;
pub assume_specification [ <u64>::ilog2 ](x: u64) -> (r: u32)
    requires x > 0,
    ensures r == flog2(x as nat), r < 64;
pub broadcast proof fn lemma_flog2_pow2(k: nat) ensures #[trigger] flog2(pow2(k)) == k decreases k
{ lemma_pow2_pos(k); if k > 0 { lemma_flog2_pow2((k-1) as nat); lemma_pow2_pos((k-1) as nat); assert(pow2(k) / 2 == pow2((k-1) as nat)); } }

pub broadcast proof fn lemma_pow2_pos(n: nat) ensures #[trigger] pow2(n) > 0 decreases n { if n > 0 { lemma_pow2_pos((n-1) as nat) } }
pub proof fn lemma_pow2_mono(a: nat, b: nat) requires a < b ensures pow2(a) < pow2(b) decreases b
{ lemma_pow2_pos((b-1) as nat); if a < b - 1 { lemma_pow2_mono(a, (b-1) as nat) } }
pub proof fn lemma_pow2_unique(a: nat, b: nat) requires pow2(a) <= pow2(b) < pow2(a + 1) ensures a == b
{ if a < b { if a + 1 < b { lemma_pow2_mono(a+1, b); } } if b < a { lemma_pow2_mono(b, a); } }
pub proof fn lemma_pow2_add(a: nat, b: nat) ensures pow2(a + b) == pow2(a) * pow2(b) decreases a
{ if a == 0 { assert(pow2(0) == 1); } if a > 0 { lemma_pow2_add((a-1) as nat, b); assert(pow2(a+b) == 2 * pow2((a - 1 + b) as nat)); assert(pow2(a) * pow2(b) == 2 * (pow2((a-1) as nat) * pow2(b))) by(nonlinear_arith) requires pow2(a) == 2 * pow2((a-1) as nat); } }

/// the number of bits needed to distinguish n alternatives: least k with 2^k >= n
pub open spec fn is_tagw(n: nat, k: nat) -> bool { n <= pow2(k) && (k > 0 ==> pow2((k - 1) as nat) < n) }
pub open spec fn tagw(n: nat) -> nat { choose|k: nat| #[trigger] is_tagw(n, k) }
pub proof fn lemma_tagw(n: nat, k: nat) requires is_tagw(n, k) ensures tagw(n) == k
{
    let j = tagw(n);
    assert(is_tagw(n, j));
    if j < k { if j < k - 1 { lemma_pow2_mono(j, (k-1) as nat); } }
    if k < j { if k < j - 1 { lemma_pow2_mono(k, (j-1) as nat); } }
}
pub proof fn lemma_tag_exists(n: nat, j: nat) requires n <= pow2(j) ensures exists|k: nat| #[trigger] is_tagw(n, k) decreases j
{ if j > 0 && n <= pow2((j-1) as nat) { lemma_tag_exists(n, (j-1) as nat) } else { assert(is_tagw(n, j)); } }
pub proof fn lemma_pow2_big(n: nat) ensures n < pow2(n) decreases n { if n > 0 { lemma_pow2_big((n-1) as nat) } }
pub broadcast proof fn lemma_tagw_is(n: nat) ensures is_tagw(n, #[trigger] tagw(n)) { lemma_pow2_big(n); lemma_tag_exists(n, n); }
} // verus!
}
use vstdx::*;
