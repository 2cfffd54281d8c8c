// GENERATED by gen_num.py: assumed contracts on num_bigint::{BigUint, BigInt} (mathematical
// naturals / integers; no overflow). Every item here is an external_body assumption.
pub mod vnum {
use vstd::prelude::*;
use std::ops::*;
use std::cmp::Ordering;
verus! {
#[verifier::external_body]
pub struct BigUint { x: u8 }
#[verifier::external_body]
pub struct BigInt { x: u8 }
impl View for BigUint { type V = nat; uninterp spec fn view(&self) -> nat; }
impl View for BigInt { type V = int; uninterp spec fn view(&self) -> int; }
pub uninterp spec fn bu(n: nat) -> BigUint;
pub uninterp spec fn bi(n: int) -> BigInt;
pub broadcast axiom fn axiom_bu(n: nat) ensures #[trigger] bu(n)@ == n;
pub broadcast axiom fn axiom_bi(n: int) ensures #[trigger] bi(n)@ == n;
pub broadcast axiom fn axiom_bu_ext(a: BigUint) ensures bu(#[trigger] a@) == a;
pub broadcast axiom fn axiom_bi_ext(a: BigInt) ensures bi(#[trigger] a@) == a;
pub broadcast group group_num { axiom_bu, axiom_bi, axiom_bu_ext, axiom_bi_ext }
pub open spec fn pow2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) } }
/// number of binary digits of n (0 for 0)
pub open spec fn bitlen(n: nat) -> nat decreases n { if n == 0 { 0 } else { 1 + bitlen(n / 2) } }

impl Add<BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigUint> for BigUint {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: BigUint) -> bool { true }
    uninterp spec fn add_spec(self, o: BigUint) -> BigUint; }
impl Sub<BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigUint> for BigUint {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: BigUint) -> bool { (self@ as int) >= (o@ as int) }
    uninterp spec fn sub_spec(self, o: BigUint) -> BigUint; }
impl Mul<BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigUint> for BigUint {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: BigUint) -> bool { true }
    uninterp spec fn mul_spec(self, o: BigUint) -> BigUint; }
impl Add<&BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigUint> for BigUint {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn add_spec(self, o: &BigUint) -> BigUint; }
impl Sub<&BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigUint> for BigUint {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &BigUint) -> bool { (self@ as int) >= (o@ as int) }
    uninterp spec fn sub_spec(self, o: &BigUint) -> BigUint; }
impl Mul<&BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigUint> for BigUint {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn mul_spec(self, o: &BigUint) -> BigUint; }
impl Add<BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigUint> for &BigUint {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: BigUint) -> bool { true }
    uninterp spec fn add_spec(self, o: BigUint) -> BigUint; }
impl Sub<BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigUint> for &BigUint {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: BigUint) -> bool { (self@ as int) >= (o@ as int) }
    uninterp spec fn sub_spec(self, o: BigUint) -> BigUint; }
impl Mul<BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigUint> for &BigUint {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: BigUint) -> bool { true }
    uninterp spec fn mul_spec(self, o: BigUint) -> BigUint; }
impl Add<&BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigUint> for &BigUint {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn add_spec(self, o: &BigUint) -> BigUint; }
impl Sub<&BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigUint> for &BigUint {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &BigUint) -> bool { (self@ as int) >= (o@ as int) }
    uninterp spec fn sub_spec(self, o: &BigUint) -> BigUint; }
impl Mul<&BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigUint> for &BigUint {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn mul_spec(self, o: &BigUint) -> BigUint; }
impl Add<u32> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: u32) -> (r: BigUint)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<u32> for BigUint {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: u32) -> bool { true }
    uninterp spec fn add_spec(self, o: u32) -> BigUint; }
impl Sub<u32> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: u32) -> (r: BigUint)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<u32> for BigUint {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: u32) -> bool { (self@ as int) >= (o as int) }
    uninterp spec fn sub_spec(self, o: u32) -> BigUint; }
impl Mul<u32> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: u32) -> (r: BigUint)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<u32> for BigUint {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: u32) -> bool { true }
    uninterp spec fn mul_spec(self, o: u32) -> BigUint; }
impl Add<BigUint> for u32 { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigUint> for u32 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: BigUint) -> bool { true }
    uninterp spec fn add_spec(self, o: BigUint) -> BigUint; }
impl Sub<BigUint> for u32 { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigUint> for u32 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: BigUint) -> bool { (self as int) >= (o@ as int) }
    uninterp spec fn sub_spec(self, o: BigUint) -> BigUint; }
impl Mul<BigUint> for u32 { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigUint> for u32 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: BigUint) -> bool { true }
    uninterp spec fn mul_spec(self, o: BigUint) -> BigUint; }
impl Add<u32> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: u32) -> (r: BigUint)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<u32> for &BigUint {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: u32) -> bool { true }
    uninterp spec fn add_spec(self, o: u32) -> BigUint; }
impl Sub<u32> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: u32) -> (r: BigUint)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<u32> for &BigUint {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: u32) -> bool { (self@ as int) >= (o as int) }
    uninterp spec fn sub_spec(self, o: u32) -> BigUint; }
impl Mul<u32> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: u32) -> (r: BigUint)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<u32> for &BigUint {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: u32) -> bool { true }
    uninterp spec fn mul_spec(self, o: u32) -> BigUint; }
impl Add<&BigUint> for u32 { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigUint> for u32 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn add_spec(self, o: &BigUint) -> BigUint; }
impl Sub<&BigUint> for u32 { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigUint> for u32 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &BigUint) -> bool { (self as int) >= (o@ as int) }
    uninterp spec fn sub_spec(self, o: &BigUint) -> BigUint; }
impl Mul<&BigUint> for u32 { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigUint> for u32 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn mul_spec(self, o: &BigUint) -> BigUint; }
impl Add<u64> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: u64) -> (r: BigUint)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<u64> for BigUint {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: u64) -> bool { true }
    uninterp spec fn add_spec(self, o: u64) -> BigUint; }
impl Sub<u64> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: u64) -> (r: BigUint)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<u64> for BigUint {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: u64) -> bool { (self@ as int) >= (o as int) }
    uninterp spec fn sub_spec(self, o: u64) -> BigUint; }
impl Mul<u64> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: u64) -> (r: BigUint)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<u64> for BigUint {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: u64) -> bool { true }
    uninterp spec fn mul_spec(self, o: u64) -> BigUint; }
impl Add<BigUint> for u64 { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigUint> for u64 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: BigUint) -> bool { true }
    uninterp spec fn add_spec(self, o: BigUint) -> BigUint; }
impl Sub<BigUint> for u64 { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigUint> for u64 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: BigUint) -> bool { (self as int) >= (o@ as int) }
    uninterp spec fn sub_spec(self, o: BigUint) -> BigUint; }
impl Mul<BigUint> for u64 { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigUint> for u64 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: BigUint) -> bool { true }
    uninterp spec fn mul_spec(self, o: BigUint) -> BigUint; }
impl Add<u64> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: u64) -> (r: BigUint)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<u64> for &BigUint {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: u64) -> bool { true }
    uninterp spec fn add_spec(self, o: u64) -> BigUint; }
impl Sub<u64> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: u64) -> (r: BigUint)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<u64> for &BigUint {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: u64) -> bool { (self@ as int) >= (o as int) }
    uninterp spec fn sub_spec(self, o: u64) -> BigUint; }
impl Mul<u64> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: u64) -> (r: BigUint)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<u64> for &BigUint {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: u64) -> bool { true }
    uninterp spec fn mul_spec(self, o: u64) -> BigUint; }
impl Add<&BigUint> for u64 { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigUint> for u64 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn add_spec(self, o: &BigUint) -> BigUint; }
impl Sub<&BigUint> for u64 { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigUint> for u64 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &BigUint) -> bool { (self as int) >= (o@ as int) }
    uninterp spec fn sub_spec(self, o: &BigUint) -> BigUint; }
impl Mul<&BigUint> for u64 { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigUint> for u64 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn mul_spec(self, o: &BigUint) -> BigUint; }
impl Add<usize> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: usize) -> (r: BigUint)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<usize> for BigUint {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: usize) -> bool { true }
    uninterp spec fn add_spec(self, o: usize) -> BigUint; }
impl Sub<usize> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: usize) -> (r: BigUint)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<usize> for BigUint {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: usize) -> bool { (self@ as int) >= (o as int) }
    uninterp spec fn sub_spec(self, o: usize) -> BigUint; }
impl Mul<usize> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: usize) -> (r: BigUint)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<usize> for BigUint {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: usize) -> bool { true }
    uninterp spec fn mul_spec(self, o: usize) -> BigUint; }
impl Add<BigUint> for usize { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigUint> for usize {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: BigUint) -> bool { true }
    uninterp spec fn add_spec(self, o: BigUint) -> BigUint; }
impl Sub<BigUint> for usize { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigUint> for usize {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: BigUint) -> bool { (self as int) >= (o@ as int) }
    uninterp spec fn sub_spec(self, o: BigUint) -> BigUint; }
impl Mul<BigUint> for usize { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigUint> for usize {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: BigUint) -> bool { true }
    uninterp spec fn mul_spec(self, o: BigUint) -> BigUint; }
impl Add<usize> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: usize) -> (r: BigUint)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<usize> for &BigUint {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: usize) -> bool { true }
    uninterp spec fn add_spec(self, o: usize) -> BigUint; }
impl Sub<usize> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: usize) -> (r: BigUint)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<usize> for &BigUint {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: usize) -> bool { (self@ as int) >= (o as int) }
    uninterp spec fn sub_spec(self, o: usize) -> BigUint; }
impl Mul<usize> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: usize) -> (r: BigUint)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<usize> for &BigUint {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: usize) -> bool { true }
    uninterp spec fn mul_spec(self, o: usize) -> BigUint; }
impl Add<&BigUint> for usize { type Output = BigUint;
#[verifier::external_body]
fn add(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigUint> for usize {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn add_spec(self, o: &BigUint) -> BigUint; }
impl Sub<&BigUint> for usize { type Output = BigUint;
#[verifier::external_body]
fn sub(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigUint> for usize {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &BigUint) -> bool { (self as int) >= (o@ as int) }
    uninterp spec fn sub_spec(self, o: &BigUint) -> BigUint; }
impl Mul<&BigUint> for usize { type Output = BigUint;
#[verifier::external_body]
fn mul(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigUint> for usize {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn mul_spec(self, o: &BigUint) -> BigUint; }
impl Div<BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn div(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<BigUint> for BigUint {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: BigUint) -> bool { (o@ as int) != 0 }
    uninterp spec fn div_spec(self, o: BigUint) -> BigUint; }
impl Rem<BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn rem(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) % (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<BigUint> for BigUint {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, o: BigUint) -> bool { (o@ as int) != 0 }
    uninterp spec fn rem_spec(self, o: BigUint) -> BigUint; }
impl Div<&BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn div(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<&BigUint> for BigUint {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: &BigUint) -> bool { (o@ as int) != 0 }
    uninterp spec fn div_spec(self, o: &BigUint) -> BigUint; }
impl Rem<&BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn rem(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) % (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<&BigUint> for BigUint {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, o: &BigUint) -> bool { (o@ as int) != 0 }
    uninterp spec fn rem_spec(self, o: &BigUint) -> BigUint; }
impl Div<BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn div(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<BigUint> for &BigUint {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: BigUint) -> bool { (o@ as int) != 0 }
    uninterp spec fn div_spec(self, o: BigUint) -> BigUint; }
impl Rem<BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn rem(self, o: BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) % (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<BigUint> for &BigUint {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, o: BigUint) -> bool { (o@ as int) != 0 }
    uninterp spec fn rem_spec(self, o: BigUint) -> BigUint; }
impl Div<&BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn div(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<&BigUint> for &BigUint {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: &BigUint) -> bool { (o@ as int) != 0 }
    uninterp spec fn div_spec(self, o: &BigUint) -> BigUint; }
impl Rem<&BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn rem(self, o: &BigUint) -> (r: BigUint)
    ensures r@ == ((self@ as int) % (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<&BigUint> for &BigUint {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, o: &BigUint) -> bool { (o@ as int) != 0 }
    uninterp spec fn rem_spec(self, o: &BigUint) -> BigUint; }
impl Shl<u32> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn shl(self, o: u32) -> (r: BigUint)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<u32> for BigUint {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: u32) -> bool { true }
    uninterp spec fn shl_spec(self, o: u32) -> BigUint; }
impl Shr<u32> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn shr(self, o: u32) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<u32> for BigUint {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: u32) -> bool { true }
    uninterp spec fn shr_spec(self, o: u32) -> BigUint; }
impl Shl<u64> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn shl(self, o: u64) -> (r: BigUint)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<u64> for BigUint {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: u64) -> bool { true }
    uninterp spec fn shl_spec(self, o: u64) -> BigUint; }
impl Shr<u64> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn shr(self, o: u64) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<u64> for BigUint {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: u64) -> bool { true }
    uninterp spec fn shr_spec(self, o: u64) -> BigUint; }
impl Shl<usize> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn shl(self, o: usize) -> (r: BigUint)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<usize> for BigUint {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: usize) -> bool { true }
    uninterp spec fn shl_spec(self, o: usize) -> BigUint; }
impl Shr<usize> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn shr(self, o: usize) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<usize> for BigUint {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: usize) -> bool { true }
    uninterp spec fn shr_spec(self, o: usize) -> BigUint; }
impl Shl<i32> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn shl(self, o: i32) -> (r: BigUint)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<i32> for BigUint {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: i32) -> bool { o >= 0 }
    uninterp spec fn shl_spec(self, o: i32) -> BigUint; }
impl Shr<i32> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn shr(self, o: i32) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<i32> for BigUint {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: i32) -> bool { o >= 0 }
    uninterp spec fn shr_spec(self, o: i32) -> BigUint; }
impl Shl<u32> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn shl(self, o: u32) -> (r: BigUint)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<u32> for &BigUint {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: u32) -> bool { true }
    uninterp spec fn shl_spec(self, o: u32) -> BigUint; }
impl Shr<u32> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn shr(self, o: u32) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<u32> for &BigUint {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: u32) -> bool { true }
    uninterp spec fn shr_spec(self, o: u32) -> BigUint; }
impl Shl<u64> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn shl(self, o: u64) -> (r: BigUint)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<u64> for &BigUint {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: u64) -> bool { true }
    uninterp spec fn shl_spec(self, o: u64) -> BigUint; }
impl Shr<u64> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn shr(self, o: u64) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<u64> for &BigUint {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: u64) -> bool { true }
    uninterp spec fn shr_spec(self, o: u64) -> BigUint; }
impl Shl<usize> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn shl(self, o: usize) -> (r: BigUint)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<usize> for &BigUint {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: usize) -> bool { true }
    uninterp spec fn shl_spec(self, o: usize) -> BigUint; }
impl Shr<usize> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn shr(self, o: usize) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<usize> for &BigUint {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: usize) -> bool { true }
    uninterp spec fn shr_spec(self, o: usize) -> BigUint; }
impl Shl<i32> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn shl(self, o: i32) -> (r: BigUint)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<i32> for &BigUint {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: i32) -> bool { o >= 0 }
    uninterp spec fn shl_spec(self, o: i32) -> BigUint; }
impl Shr<i32> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn shr(self, o: i32) -> (r: BigUint)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<i32> for &BigUint {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: i32) -> bool { o >= 0 }
    uninterp spec fn shr_spec(self, o: i32) -> BigUint; }
impl BitAnd<BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn bitand(self, o: BigUint) -> (r: BigUint)
    ensures forall|k: nat| #![trigger pow2(k)] (o@ as int) == pow2(k) - 1 ==> r@ == (self@ as int) % (pow2(k) as int) { unimplemented!() } }
impl vstd::std_specs::ops::BitAndSpecImpl<BigUint> for BigUint {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: BigUint) -> bool { true }
    uninterp spec fn bitand_spec(self, o: BigUint) -> BigUint; }
impl BitAnd<&BigUint> for BigUint { type Output = BigUint;
#[verifier::external_body]
fn bitand(self, o: &BigUint) -> (r: BigUint)
    ensures forall|k: nat| #![trigger pow2(k)] (o@ as int) == pow2(k) - 1 ==> r@ == (self@ as int) % (pow2(k) as int) { unimplemented!() } }
impl vstd::std_specs::ops::BitAndSpecImpl<&BigUint> for BigUint {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn bitand_spec(self, o: &BigUint) -> BigUint; }
impl BitAnd<BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn bitand(self, o: BigUint) -> (r: BigUint)
    ensures forall|k: nat| #![trigger pow2(k)] (o@ as int) == pow2(k) - 1 ==> r@ == (self@ as int) % (pow2(k) as int) { unimplemented!() } }
impl vstd::std_specs::ops::BitAndSpecImpl<BigUint> for &BigUint {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: BigUint) -> bool { true }
    uninterp spec fn bitand_spec(self, o: BigUint) -> BigUint; }
impl BitAnd<&BigUint> for &BigUint { type Output = BigUint;
#[verifier::external_body]
fn bitand(self, o: &BigUint) -> (r: BigUint)
    ensures forall|k: nat| #![trigger pow2(k)] (o@ as int) == pow2(k) - 1 ==> r@ == (self@ as int) % (pow2(k) as int) { unimplemented!() } }
impl vstd::std_specs::ops::BitAndSpecImpl<&BigUint> for &BigUint {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: &BigUint) -> bool { true }
    uninterp spec fn bitand_spec(self, o: &BigUint) -> BigUint; }
impl Add<BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: BigInt) -> BigInt; }
impl Sub<BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: BigInt) -> BigInt; }
impl Mul<BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: BigInt) -> BigInt; }
impl Add<&BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigInt> for BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: &BigInt) -> BigInt; }
impl Sub<&BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigInt> for BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: &BigInt) -> BigInt; }
impl Mul<&BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigInt> for BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: &BigInt) -> BigInt; }
impl Add<BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for &BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: BigInt) -> BigInt; }
impl Sub<BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for &BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: BigInt) -> BigInt; }
impl Mul<BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for &BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: BigInt) -> BigInt; }
impl Add<&BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigInt> for &BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: &BigInt) -> BigInt; }
impl Sub<&BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigInt> for &BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: &BigInt) -> BigInt; }
impl Mul<&BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigInt> for &BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: &BigInt) -> BigInt; }
impl Add<i32> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: i32) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i32> for BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: i32) -> bool { true }
    uninterp spec fn add_spec(self, o: i32) -> BigInt; }
impl Sub<i32> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: i32) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i32> for BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: i32) -> bool { true }
    uninterp spec fn sub_spec(self, o: i32) -> BigInt; }
impl Mul<i32> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: i32) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i32> for BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: i32) -> bool { true }
    uninterp spec fn mul_spec(self, o: i32) -> BigInt; }
impl Add<BigInt> for i32 { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for i32 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: BigInt) -> BigInt; }
impl Sub<BigInt> for i32 { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for i32 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: BigInt) -> BigInt; }
impl Mul<BigInt> for i32 { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for i32 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: BigInt) -> BigInt; }
impl Add<i32> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: i32) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i32> for &BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: i32) -> bool { true }
    uninterp spec fn add_spec(self, o: i32) -> BigInt; }
impl Sub<i32> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: i32) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i32> for &BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: i32) -> bool { true }
    uninterp spec fn sub_spec(self, o: i32) -> BigInt; }
impl Mul<i32> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: i32) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i32> for &BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: i32) -> bool { true }
    uninterp spec fn mul_spec(self, o: i32) -> BigInt; }
impl Add<&BigInt> for i32 { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigInt> for i32 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: &BigInt) -> BigInt; }
impl Sub<&BigInt> for i32 { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigInt> for i32 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: &BigInt) -> BigInt; }
impl Mul<&BigInt> for i32 { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigInt> for i32 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: &BigInt) -> BigInt; }
impl Add<i64> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: i64) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i64> for BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: i64) -> bool { true }
    uninterp spec fn add_spec(self, o: i64) -> BigInt; }
impl Sub<i64> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: i64) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i64> for BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: i64) -> bool { true }
    uninterp spec fn sub_spec(self, o: i64) -> BigInt; }
impl Mul<i64> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: i64) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i64> for BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: i64) -> bool { true }
    uninterp spec fn mul_spec(self, o: i64) -> BigInt; }
impl Add<BigInt> for i64 { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for i64 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: BigInt) -> BigInt; }
impl Sub<BigInt> for i64 { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for i64 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: BigInt) -> BigInt; }
impl Mul<BigInt> for i64 { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for i64 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: BigInt) -> BigInt; }
impl Add<i64> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: i64) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<i64> for &BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: i64) -> bool { true }
    uninterp spec fn add_spec(self, o: i64) -> BigInt; }
impl Sub<i64> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: i64) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<i64> for &BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: i64) -> bool { true }
    uninterp spec fn sub_spec(self, o: i64) -> BigInt; }
impl Mul<i64> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: i64) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<i64> for &BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: i64) -> bool { true }
    uninterp spec fn mul_spec(self, o: i64) -> BigInt; }
impl Add<&BigInt> for i64 { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigInt> for i64 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: &BigInt) -> BigInt; }
impl Sub<&BigInt> for i64 { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigInt> for i64 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: &BigInt) -> BigInt; }
impl Mul<&BigInt> for i64 { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigInt> for i64 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: &BigInt) -> BigInt; }
impl Add<usize> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: usize) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<usize> for BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: usize) -> bool { true }
    uninterp spec fn add_spec(self, o: usize) -> BigInt; }
impl Sub<usize> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: usize) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<usize> for BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: usize) -> bool { true }
    uninterp spec fn sub_spec(self, o: usize) -> BigInt; }
impl Mul<usize> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: usize) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<usize> for BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: usize) -> bool { true }
    uninterp spec fn mul_spec(self, o: usize) -> BigInt; }
impl Add<BigInt> for usize { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for usize {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: BigInt) -> BigInt; }
impl Sub<BigInt> for usize { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for usize {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: BigInt) -> BigInt; }
impl Mul<BigInt> for usize { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for usize {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: BigInt) -> BigInt; }
impl Add<usize> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: usize) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<usize> for &BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: usize) -> bool { true }
    uninterp spec fn add_spec(self, o: usize) -> BigInt; }
impl Sub<usize> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: usize) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<usize> for &BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: usize) -> bool { true }
    uninterp spec fn sub_spec(self, o: usize) -> BigInt; }
impl Mul<usize> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: usize) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<usize> for &BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: usize) -> bool { true }
    uninterp spec fn mul_spec(self, o: usize) -> BigInt; }
impl Add<&BigInt> for usize { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigInt> for usize {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: &BigInt) -> BigInt; }
impl Sub<&BigInt> for usize { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigInt> for usize {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: &BigInt) -> BigInt; }
impl Mul<&BigInt> for usize { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigInt> for usize {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: &BigInt) -> BigInt; }
impl Add<u64> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: u64) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<u64> for BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: u64) -> bool { true }
    uninterp spec fn add_spec(self, o: u64) -> BigInt; }
impl Sub<u64> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: u64) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<u64> for BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: u64) -> bool { true }
    uninterp spec fn sub_spec(self, o: u64) -> BigInt; }
impl Mul<u64> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: u64) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<u64> for BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: u64) -> bool { true }
    uninterp spec fn mul_spec(self, o: u64) -> BigInt; }
impl Add<BigInt> for u64 { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<BigInt> for u64 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: BigInt) -> BigInt; }
impl Sub<BigInt> for u64 { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<BigInt> for u64 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: BigInt) -> BigInt; }
impl Mul<BigInt> for u64 { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<BigInt> for u64 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: BigInt) -> BigInt; }
impl Add<u64> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: u64) -> (r: BigInt)
    ensures r@ == ((self@ as int) + (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<u64> for &BigInt {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: u64) -> bool { true }
    uninterp spec fn add_spec(self, o: u64) -> BigInt; }
impl Sub<u64> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: u64) -> (r: BigInt)
    ensures r@ == ((self@ as int) - (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<u64> for &BigInt {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: u64) -> bool { true }
    uninterp spec fn sub_spec(self, o: u64) -> BigInt; }
impl Mul<u64> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: u64) -> (r: BigInt)
    ensures r@ == ((self@ as int) * (o as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<u64> for &BigInt {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: u64) -> bool { true }
    uninterp spec fn mul_spec(self, o: u64) -> BigInt; }
impl Add<&BigInt> for u64 { type Output = BigInt;
#[verifier::external_body]
fn add(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) + (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl<&BigInt> for u64 {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn add_spec(self, o: &BigInt) -> BigInt; }
impl Sub<&BigInt> for u64 { type Output = BigInt;
#[verifier::external_body]
fn sub(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) - (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<&BigInt> for u64 {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn sub_spec(self, o: &BigInt) -> BigInt; }
impl Mul<&BigInt> for u64 { type Output = BigInt;
#[verifier::external_body]
fn mul(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == ((self as int) * (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl<&BigInt> for u64 {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn mul_spec(self, o: &BigInt) -> BigInt; }
impl Div<BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn div(self, o: BigInt) -> (r: BigInt)
    ensures r@ == tdiv((self@ as int), (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<BigInt> for BigInt {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: BigInt) -> bool { (o@ as int) != 0 }
    uninterp spec fn div_spec(self, o: BigInt) -> BigInt; }
impl Rem<BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn rem(self, o: BigInt) -> (r: BigInt)
    ensures r@ == trem((self@ as int), (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<BigInt> for BigInt {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, o: BigInt) -> bool { (o@ as int) != 0 }
    uninterp spec fn rem_spec(self, o: BigInt) -> BigInt; }
impl Div<&BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn div(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == tdiv((self@ as int), (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<&BigInt> for BigInt {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: &BigInt) -> bool { (o@ as int) != 0 }
    uninterp spec fn div_spec(self, o: &BigInt) -> BigInt; }
impl Rem<&BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn rem(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == trem((self@ as int), (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<&BigInt> for BigInt {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, o: &BigInt) -> bool { (o@ as int) != 0 }
    uninterp spec fn rem_spec(self, o: &BigInt) -> BigInt; }
impl Div<BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn div(self, o: BigInt) -> (r: BigInt)
    ensures r@ == tdiv((self@ as int), (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<BigInt> for &BigInt {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: BigInt) -> bool { (o@ as int) != 0 }
    uninterp spec fn div_spec(self, o: BigInt) -> BigInt; }
impl Rem<BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn rem(self, o: BigInt) -> (r: BigInt)
    ensures r@ == trem((self@ as int), (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<BigInt> for &BigInt {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, o: BigInt) -> bool { (o@ as int) != 0 }
    uninterp spec fn rem_spec(self, o: BigInt) -> BigInt; }
impl Div<&BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn div(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == tdiv((self@ as int), (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<&BigInt> for &BigInt {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: &BigInt) -> bool { (o@ as int) != 0 }
    uninterp spec fn div_spec(self, o: &BigInt) -> BigInt; }
impl Rem<&BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn rem(self, o: &BigInt) -> (r: BigInt)
    ensures r@ == trem((self@ as int), (o@ as int)) { unimplemented!() } }
impl vstd::std_specs::ops::RemSpecImpl<&BigInt> for &BigInt {
    open spec fn obeys_rem_spec() -> bool { false }
    open spec fn rem_req(self, o: &BigInt) -> bool { (o@ as int) != 0 }
    uninterp spec fn rem_spec(self, o: &BigInt) -> BigInt; }
impl Shl<u32> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn shl(self, o: u32) -> (r: BigInt)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<u32> for BigInt {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: u32) -> bool { true }
    uninterp spec fn shl_spec(self, o: u32) -> BigInt; }
impl Shr<u32> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn shr(self, o: u32) -> (r: BigInt)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<u32> for BigInt {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: u32) -> bool { true }
    uninterp spec fn shr_spec(self, o: u32) -> BigInt; }
impl Shl<u64> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn shl(self, o: u64) -> (r: BigInt)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<u64> for BigInt {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: u64) -> bool { true }
    uninterp spec fn shl_spec(self, o: u64) -> BigInt; }
impl Shr<u64> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn shr(self, o: u64) -> (r: BigInt)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<u64> for BigInt {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: u64) -> bool { true }
    uninterp spec fn shr_spec(self, o: u64) -> BigInt; }
impl Shl<usize> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn shl(self, o: usize) -> (r: BigInt)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<usize> for BigInt {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: usize) -> bool { true }
    uninterp spec fn shl_spec(self, o: usize) -> BigInt; }
impl Shr<usize> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn shr(self, o: usize) -> (r: BigInt)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<usize> for BigInt {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: usize) -> bool { true }
    uninterp spec fn shr_spec(self, o: usize) -> BigInt; }
impl Shl<i32> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn shl(self, o: i32) -> (r: BigInt)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<i32> for BigInt {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: i32) -> bool { o >= 0 }
    uninterp spec fn shl_spec(self, o: i32) -> BigInt; }
impl Shr<i32> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn shr(self, o: i32) -> (r: BigInt)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<i32> for BigInt {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: i32) -> bool { o >= 0 }
    uninterp spec fn shr_spec(self, o: i32) -> BigInt; }
impl Shl<u32> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn shl(self, o: u32) -> (r: BigInt)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<u32> for &BigInt {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: u32) -> bool { true }
    uninterp spec fn shl_spec(self, o: u32) -> BigInt; }
impl Shr<u32> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn shr(self, o: u32) -> (r: BigInt)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<u32> for &BigInt {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: u32) -> bool { true }
    uninterp spec fn shr_spec(self, o: u32) -> BigInt; }
impl Shl<u64> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn shl(self, o: u64) -> (r: BigInt)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<u64> for &BigInt {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: u64) -> bool { true }
    uninterp spec fn shl_spec(self, o: u64) -> BigInt; }
impl Shr<u64> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn shr(self, o: u64) -> (r: BigInt)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<u64> for &BigInt {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: u64) -> bool { true }
    uninterp spec fn shr_spec(self, o: u64) -> BigInt; }
impl Shl<usize> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn shl(self, o: usize) -> (r: BigInt)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<usize> for &BigInt {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: usize) -> bool { true }
    uninterp spec fn shl_spec(self, o: usize) -> BigInt; }
impl Shr<usize> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn shr(self, o: usize) -> (r: BigInt)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<usize> for &BigInt {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: usize) -> bool { true }
    uninterp spec fn shr_spec(self, o: usize) -> BigInt; }
impl Shl<i32> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn shl(self, o: i32) -> (r: BigInt)
    ensures r@ == ((self@ as int) * pow2(o as nat)) { unimplemented!() } }
impl vstd::std_specs::ops::ShlSpecImpl<i32> for &BigInt {
    open spec fn obeys_shl_spec() -> bool { false }
    open spec fn shl_req(self, o: i32) -> bool { o >= 0 }
    uninterp spec fn shl_spec(self, o: i32) -> BigInt; }
impl Shr<i32> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn shr(self, o: i32) -> (r: BigInt)
    ensures r@ == ((self@ as int) / (pow2(o as nat) as int)) { unimplemented!() } }
impl vstd::std_specs::ops::ShrSpecImpl<i32> for &BigInt {
    open spec fn obeys_shr_spec() -> bool { false }
    open spec fn shr_req(self, o: i32) -> bool { o >= 0 }
    uninterp spec fn shr_spec(self, o: i32) -> BigInt; }
impl BitAnd<BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn bitand(self, o: BigInt) -> (r: BigInt)
    ensures forall|k: nat| #![trigger pow2(k)] (o@ as int) == pow2(k) - 1 ==> r@ == (self@ as int) % (pow2(k) as int) { unimplemented!() } }
impl vstd::std_specs::ops::BitAndSpecImpl<BigInt> for BigInt {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: BigInt) -> bool { true }
    uninterp spec fn bitand_spec(self, o: BigInt) -> BigInt; }
impl BitAnd<&BigInt> for BigInt { type Output = BigInt;
#[verifier::external_body]
fn bitand(self, o: &BigInt) -> (r: BigInt)
    ensures forall|k: nat| #![trigger pow2(k)] (o@ as int) == pow2(k) - 1 ==> r@ == (self@ as int) % (pow2(k) as int) { unimplemented!() } }
impl vstd::std_specs::ops::BitAndSpecImpl<&BigInt> for BigInt {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn bitand_spec(self, o: &BigInt) -> BigInt; }
impl BitAnd<BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn bitand(self, o: BigInt) -> (r: BigInt)
    ensures forall|k: nat| #![trigger pow2(k)] (o@ as int) == pow2(k) - 1 ==> r@ == (self@ as int) % (pow2(k) as int) { unimplemented!() } }
impl vstd::std_specs::ops::BitAndSpecImpl<BigInt> for &BigInt {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: BigInt) -> bool { true }
    uninterp spec fn bitand_spec(self, o: BigInt) -> BigInt; }
impl BitAnd<&BigInt> for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn bitand(self, o: &BigInt) -> (r: BigInt)
    ensures forall|k: nat| #![trigger pow2(k)] (o@ as int) == pow2(k) - 1 ==> r@ == (self@ as int) % (pow2(k) as int) { unimplemented!() } }
impl vstd::std_specs::ops::BitAndSpecImpl<&BigInt> for &BigInt {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: &BigInt) -> bool { true }
    uninterp spec fn bitand_spec(self, o: &BigInt) -> BigInt; }
impl Neg for BigInt { type Output = BigInt;
#[verifier::external_body]
fn neg(self) -> (r: BigInt) ensures r@ == -self@ { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for BigInt {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    uninterp spec fn neg_spec(self) -> BigInt; }
impl Neg for &BigInt { type Output = BigInt;
#[verifier::external_body]
fn neg(self) -> (r: BigInt) ensures r@ == -self@ { unimplemented!() } }
impl vstd::std_specs::ops::NegSpecImpl for &BigInt {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { true }
    uninterp spec fn neg_spec(self) -> BigInt; }
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }

impl PartialEq for BigUint {
#[verifier::external_body]
fn eq(&self, o: &BigUint) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BigUint {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BigUint) -> bool { self@ == o@ } }
impl PartialOrd for BigUint {
#[verifier::external_body]
fn partial_cmp(&self, o: &BigUint) -> (r: Option<Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for BigUint {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BigUint) -> Option<Ordering> {
        if self@ < o@ { Some(Ordering::Less) } else if self@ > o@ { Some(Ordering::Greater) } else { Some(Ordering::Equal) } } }
impl BigUint {
#[verifier::external_body]
pub fn zero() -> (r: BigUint) ensures r@ == 0 { unimplemented!() }
#[verifier::external_body]
pub fn one() -> (r: BigUint) ensures r@ == 1 { unimplemented!() }
#[verifier::external_body]
pub fn pow(&self, e: u32) -> (r: BigUint) ensures self@ == 2 ==> r@ == pow2(e as nat) { unimplemented!() }
#[verifier::external_body]
pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
#[verifier::external_body]
pub fn to_u64(&self) -> (r: Option<u64>) ensures (0 <= self@ <= u64::MAX) ==> r == Some(self@ as u64), !(0 <= self@ <= u64::MAX) ==> r is None { unimplemented!() }
#[verifier::external_body]
pub fn to_u32(&self) -> (r: Option<u32>) ensures (0 <= self@ <= u32::MAX) ==> r == Some(self@ as u32), !(0 <= self@ <= u32::MAX) ==> r is None { unimplemented!() }
#[verifier::external_body]
pub fn to_usize(&self) -> (r: Option<usize>) ensures (0 <= self@ <= usize::MAX) ==> r == Some(self@ as usize), !(0 <= self@ <= usize::MAX) ==> r is None { unimplemented!() }
#[verifier::external_body]
pub fn to_i128(&self) -> (r: Option<i128>) ensures (i128::MIN <= self@ <= i128::MAX) ==> r == Some(self@ as i128), !(i128::MIN <= self@ <= i128::MAX) ==> r is None { unimplemented!() }
#[verifier::external_body]
pub fn bits(&self) -> (r: u64) ensures r as nat == bitlen(self@) { unimplemented!() }
}
impl PartialEq for BigInt {
#[verifier::external_body]
fn eq(&self, o: &BigInt) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BigInt {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &BigInt) -> bool { self@ == o@ } }
impl PartialOrd for BigInt {
#[verifier::external_body]
fn partial_cmp(&self, o: &BigInt) -> (r: Option<Ordering>) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for BigInt {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &BigInt) -> Option<Ordering> {
        if self@ < o@ { Some(Ordering::Less) } else if self@ > o@ { Some(Ordering::Greater) } else { Some(Ordering::Equal) } } }
impl BigInt {
#[verifier::external_body]
pub fn zero() -> (r: BigInt) ensures r@ == 0 { unimplemented!() }
#[verifier::external_body]
pub fn one() -> (r: BigInt) ensures r@ == 1 { unimplemented!() }
#[verifier::external_body]
pub fn pow(&self, e: u32) -> (r: BigInt) ensures self@ == 2 ==> r@ == pow2(e as nat) { unimplemented!() }
#[verifier::external_body]
pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
#[verifier::external_body]
pub fn to_u64(&self) -> (r: Option<u64>) ensures (0 <= self@ <= u64::MAX) ==> r == Some(self@ as u64), !(0 <= self@ <= u64::MAX) ==> r is None { unimplemented!() }
#[verifier::external_body]
pub fn to_u32(&self) -> (r: Option<u32>) ensures (0 <= self@ <= u32::MAX) ==> r == Some(self@ as u32), !(0 <= self@ <= u32::MAX) ==> r is None { unimplemented!() }
#[verifier::external_body]
pub fn to_usize(&self) -> (r: Option<usize>) ensures (0 <= self@ <= usize::MAX) ==> r == Some(self@ as usize), !(0 <= self@ <= usize::MAX) ==> r is None { unimplemented!() }
#[verifier::external_body]
pub fn to_i128(&self) -> (r: Option<i128>) ensures (i128::MIN <= self@ <= i128::MAX) ==> r == Some(self@ as i128), !(i128::MIN <= self@ <= i128::MAX) ==> r is None { unimplemented!() }
#[verifier::external_body]
pub fn bits(&self) -> (r: u64) ensures r as nat == bitlen((if self@ < 0 { -self@ } else { self@ }) as nat) { unimplemented!() }
}
impl BigInt {
#[verifier::external_body]
pub fn to_biguint(&self) -> (r: Option<BigUint>) ensures self@ >= 0 ==> (r matches Some(v) && v@ == self@), self@ < 0 ==> r is None { unimplemented!() }
#[verifier::external_body]
pub fn is_negative(&self) -> (r: bool) ensures r == (self@ < 0) { unimplemented!() }
#[verifier::external_body]
pub fn is_positive(&self) -> (r: bool) ensures r == (self@ > 0) { unimplemented!() }
#[verifier::external_body]
pub fn abs(&self) -> (r: BigInt) ensures r@ == (if self@ < 0 { -self@ } else { self@ }) { unimplemented!() }
}
impl BigUint {
#[verifier::external_body]
pub fn to_bigint(&self) -> (r: Option<BigInt>) ensures r matches Some(v) && v@ == self@ { unimplemented!() }
#[verifier::external_body]
pub fn bigint(&self) -> (r: BigInt) ensures r@ == self@ { unimplemented!() }
}
pub trait ToBig: Sized { spec fn big(self) -> int; 
  fn vbu(self) -> (r: BigUint) ensures self.big() >= 0 ==> r@ == self.big();
  fn vbi(self) -> (r: BigInt) ensures r@ == self.big(); }

impl ToBig for u8 { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for u16 { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for u32 { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for u64 { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for u128 { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for usize { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for i8 { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for i16 { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for i32 { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for i64 { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for i128 { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for isize { open spec fn big(self) -> int { self as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for bool { open spec fn big(self) -> int { (if self { 1int } else { 0int }) }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for BigUint { open spec fn big(self) -> int { self@ as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for &BigUint { open spec fn big(self) -> int { self@ as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for BigInt { open spec fn big(self) -> int { self@ as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
impl ToBig for &BigInt { open spec fn big(self) -> int { self@ as int }
#[verifier::external_body] fn vbu(self) -> (r: BigUint) { unimplemented!() }
#[verifier::external_body] fn vbi(self) -> (r: BigInt) { unimplemented!() } }
} // verus!
}
