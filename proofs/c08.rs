//@include core.rs
//@include vmap.rs
/*@ rules
type: FxHashMap ==> VMap<@0,@1>
type: HashMap ==> VMap<@0,@1>
type: String ==> VS
rule: BigUint::new(vec![]) ==> BigUint::zero()
rule: BigUint::from(true) ==> 1u32.to_biguint()
rule: BigUint::from($x) ==> $x.vbu()
rule: $x.clone() ==> $x.vclone()
rule: vzero() ==> BigUint::zero()
rule: $x.to_owned() ==> vowned($x)
rule: $x.map(MirLowerable::to_mir_type) ==> $x.map(|x_| x_.to_mir_type())
rule: $x.expect($m) ==> vexpect($x)
rule: $x.to_usize().unwrap_or_else($c) ==> vcount($x.to_usize())
rule: $x.first().cloned().unwrap_or($d) ==> vfirst_or(&$x, $d)
rule: $x.to_u64_digits() ==> vdigits(&$x)
rule: BigInt::from_biguint($s, $x) ==> vsigned($s, $x)
rule: String::new() ==> VS::new()
rule: $x.to_bit_count() ==> vcount($x.to_usize())
rule: &$v[$a..$b] ==> vslice(&$v, $a, $b)
rule: &$v[$a..] ==> vslice(&$v, $a, $v.len())
rule: $v.contains(&Value::X) ==> vcontains($v, Value::X)
rule: $v.contains(&Value::Z) ==> vcontains($v, Value::Z)
rule: v == &Value::X ==> *v == Value::X
rule: v == &Value::Z ==> *v == Value::Z
rule: v == &Value::V0 ==> *v == Value::V0
rule: v == &Value::V1 ==> *v == Value::V1
rule: *result += &$x ==> result.push_str($x)
rule: *result += $x ==> result.push_str($x)
rule: *s += &$x ==> s.push_str($x)
rule: *s += $x ==> s.push_str($x)
rule: $x.to_str_radix(10) ==> $x.vdecimal()
rule: [&$m, $s].concat() ==> vjoin(&$m, $s)
rule: $x.1.tail() ==> vtail($x)
macro: eprintln ==> ()
macro: panic ==> vdiverge()
macro: unreachable ==> vdiverge()
macro: format ==> __vfmt
@*/
verus! {
broadcast use {group_num, lemma_flog2_pow2, lemma_tagw_is};
global size_of usize == 8;
//@include layout.rs

// ---------------------------------------------------------------- values of a dump (vcd::Value)
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum Value { V0, V1, X, Z }
/// `BigUint::to_usize().unwrap_or_else(panic)`: more than usize::MAX bits are not supported
#[verifier::external_body]
pub fn vcount(x: Option<usize>) -> (r: usize) requires x is Some ensures x == Some(r) { unimplemented!() }
/// `&v[a..b]`: must be in range
#[verifier::external_body]
pub fn vslice(v: &[Value], a: usize, b: usize) -> (r: &[Value]) requires a <= b <= v@.len() ensures r@ == v@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn vcontains(v: &[Value], x: Value) -> (r: bool) ensures r == v@.contains(x) { unimplemented!() }
#[verifier::external_body]
pub fn vjoin(x: &Vec<Value>, s: &[Value]) -> (r: Vec<Value>) ensures r@ == x@ + s@ { unimplemented!() }
/// the last segment of the name of a variant
pub uninterp spec fn last(n: NameID) -> Seq<char>;
#[verifier::external_body]
pub fn vtail(n: &NameID) -> (r: VS) ensures r@ == last(*n) { unimplemented!() }
/// decimal digits of a number
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub trait VDec { spec fn num(&self) -> int; fn vdecimal(&self) -> (r: VS) ensures r@ == dec(self.num()); }
impl VDec for BigInt { open spec fn num(&self) -> int { self@ } #[verifier::external_body] fn vdecimal(&self) -> (r: VS) { unimplemented!() } }
impl VDec for BigUint { open spec fn num(&self) -> int { self@ as int } #[verifier::external_body] fn vdecimal(&self) -> (r: VS) { unimplemented!() } }
pub trait VDisp { spec fn shown(&self) -> Seq<char>; }
impl VDisp for VS { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VDisp for Identifier { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: VDisp> VDisp for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body]
pub fn vdisp<T: VDisp>(x: &T) -> (r: VS) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body]
pub fn vcat(a: VS, b: VS) -> (r: VS) ensures r@ == a@ + b@ { unimplemented!() }
pub trait Txt { spec fn tv(&self) -> Seq<char>; }
impl Txt for &str { open spec fn tv(&self) -> Seq<char> { (*self)@ } }
impl Txt for VS { open spec fn tv(&self) -> Seq<char> { self@ } }
impl VS {
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str<T: Txt>(&mut self, c: T) ensures final(self)@ == old(self)@ + c.tv() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: VS) ensures r@ == Seq::<char>::empty() { unimplemented!() }
}
pub enum Sign { Minus, NoSign, Plus }
#[verifier::external_body]
pub fn vsigned(s: Sign, x: BigUint) -> (r: BigInt) ensures r@ == (if s is Minus { -(x@ as int) } else if s is Plus { x@ as int } else { 0 }) { unimplemented!() }
#[verifier::external_body]
pub fn vdigits(x: &BigUint) -> (r: Vec<u64>) ensures x@ == 0 ==> r@.len() == 0, 0 < x@ <= u64::MAX ==> r@.len() == 1 && r@[0] == x@ { unimplemented!() }

/*@ type vcd-translate/src/translation.rs :: MaybeValue @*/

// ---------------------------------------------------------------- the numbers a string of bits stands for
pub open spec fn bit(v: Value, flip: bool) -> nat { if (v == Value::V1) != flip { 1 } else { 0 } }
/// most significant bit first
pub open spec fn bval(s: Seq<Value>, flip: bool) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { 2 * bval(s.drop_last(), flip) + bit(s.last(), flip) }
}
pub open spec fn undef(v: Value) -> bool { v == Value::X || v == Value::Z }
pub open spec fn defined(s: Seq<Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> !undef(#[trigger] s[i]) }
/// the first undefined bit
pub open spec fn bad(s: Seq<Value>, x: Value) -> bool { undef(x) && exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && defined(s.take(i)) }
/// two's complement
pub open spec fn sval(s: Seq<Value>) -> int { if s[0] == Value::V1 { bval(s, false) - pow2(s.len()) } else { bval(s, false) as int } }

proof fn lemma_take(s: Seq<Value>, k: int, flip: bool)
    requires 0 <= k < s.len()
    ensures bval(s.take(k + 1), flip) == 2 * bval(s.take(k), flip) + bit(s[k], flip), undef(s[k]) || !defined(s.take(k)) || defined(s.take(k + 1)),
        undef(s[k]) && defined(s.take(k)) ==> bad(s, s[k])
{
    assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]);
}
/// `x << 1` on u64
fn vshl1(x: u64) -> (r: u64) ensures x < 0x8000000000000000 ==> r == 2 * x
{ assert(x < 0x8000000000000000u64 ==> (x << 1u64) == 2 * x) by(bit_vector); x << 1u64 }
proof fn lemma_pow64() ensures pow2(64) == 0x10000000000000000, forall|k: nat| k <= 63 ==> #[trigger] pow2(k) <= 0x8000000000000000
{
    assert(pow2(63) == 0x8000000000000000) by(compute); assert(pow2(64) == 0x10000000000000000) by(compute);
    assert forall|k: nat| k <= 63 implies #[trigger] pow2(k) <= 0x8000000000000000 by { if k < 63 { lemma_pow2_mono(k, 63); } }
}
/*@ fn vcd-translate/src/translation.rs :: translate_uint
byref: value
rule: $x << 1i32 ==> vshl1($x)
rule: intermediate <<= 1i32 ==> intermediate = vshl1(intermediate)
entry: proof { lemma_pow64(); }
loop 0 start: proof { lemma_take(value@, vi0 - 1, flip); }
loop 0 start: let ghost old_n = bval(vs0@.take(vi0 - 1), $2); assert(pow2(0) == 1);
loop 0 end: proof { let p = pow2(($a1 - 1) as nat); assert(pow2($a1 as nat) == 2 * p); assert($a0@ * (2 * p) == 2 * ($a0@ * p)) by(nonlinear_arith); assert(p == 1 ==> $a0@ * p == $a0@) by(nonlinear_arith); assert($a0@ * p + bval(vs0@.take(vi0 - 1), $2) - $a0@ * p == old_n); }
loop 0 after: proof { assert(value@.take(value@.len() as int) =~= value@); }
ensures: r matches MaybeValue::Value(n) ==> defined($1@) && n@ == bval($1@, $2), r is Undef ==> bad($1@, Value::X), r is HighImpedance ==> bad($1@, Value::Z)
loop 0 inv: 0 <= $a1 <= 64, $a2 < pow2($a1 as nat), defined(vs0@.take(vi0 as int)), $a0@ * pow2($a1 as nat) + $a2 == bval(vs0@.take(vi0 as int), $2)
@*/

proof fn lemma_flip(s: Seq<Value>) requires defined(s) ensures bval(s, true) + bval(s, false) + 1 == pow2(s.len()), bval(s, false) < pow2(s.len()), bval(s, true) < pow2(s.len()) decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies !undef(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_flip(s.drop_last());
        assert(!undef(s[s.len() - 1]));
    }
}
proof fn lemma_bound(s: Seq<Value>) ensures bval(s, false) < pow2(s.len()) decreases s.len()
{ if s.len() > 0 { lemma_bound(s.drop_last()); } }
/// the leading bit
proof fn lemma_head(s: Seq<Value>, flip: bool) requires s.len() > 0 ensures bval(s, flip) == bit(s[0], flip) * pow2((s.len() - 1) as nat) + bval(s.skip(1), flip) decreases s.len()
{
    let r = s.skip(1);
    let b0 = bit(s[0], flip); assert(b0 * 1 == b0) by(nonlinear_arith);
    if s.len() == 1 { assert(s.drop_last().len() == 0); assert(pow2(0) == 1); assert(r.len() == 0); assert(bval(s.drop_last(), flip) == 0); assert(bval(r, flip) == 0); assert(s.last() == s[0]); assert((s.len() - 1) as nat == 0); assert(b0 * pow2((s.len() - 1) as nat) == b0); }
    else {
        lemma_head(s.drop_last(), flip); assert((s.drop_last().len() - 1) as nat == (s.len() - 2) as nat); assert(r.len() > 0);
        assert(s.drop_last().skip(1) =~= r.drop_last()); assert(r.last() == s.last()); assert(s.drop_last()[0] == s[0]);
        let p = pow2((s.len() - 2) as nat); let b = bit(s[0], flip); assert(bval(s, flip) == 2 * bval(s.drop_last(), flip) + bit(s.last(), flip)); assert(bval(r, flip) == 2 * bval(r.drop_last(), flip) + bit(r.last(), flip));
        assert(pow2((s.len() - 1) as nat) == 2 * p); assert(b * (2 * p) == 2 * (b * p)) by(nonlinear_arith); assert(b * pow2((s.len() - 1) as nat) == 2 * (b * p));
    }
}
proof fn lemma_twos(s: Seq<Value>)
    requires s.len() > 0, defined(s)
    ensures s[0] == Value::V1 ==> -(bval(s.skip(1), true) + 1) == sval(s), s[0] != Value::V1 ==> bval(s.skip(1), false) == sval(s)
{
    let r = s.skip(1);
    assert forall|i: int| 0 <= i < r.len() implies !undef(#[trigger] r[i]) by { assert(r[i] == s[i + 1]); }
    lemma_flip(r); lemma_head(s, false);
    assert(pow2(s.len()) == 2 * pow2((s.len() - 1) as nat));
}
/// neither undefined value occurs
proof fn lemma_defined(s: Seq<Value>) requires !s.contains(Value::X), !s.contains(Value::Z) ensures defined(s)
{ assert forall|i: int| 0 <= i < s.len() implies !undef(#[trigger] s[i]) by { if undef(s[i]) { assert(s.contains(s[i])); } } }
proof fn lemma_not_bad(s: Seq<Value>) requires defined(s) ensures !bad(s, Value::X), !bad(s, Value::Z) {}
proof fn lemma_skip1(s: Seq<Value>) requires s.len() > 0 ensures s.subrange(1, s.len() as int) =~= s.skip(1), defined(s) ==> defined(s.skip(1))
{ if defined(s) { assert forall|i: int| 0 <= i < s.skip(1).len() implies !undef(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); } } }

/*@ fn vcd-translate/src/translation.rs :: translate_signed_int
requires: $1@.len() > 0
rule: uint_val.map(|$p| $b) ==> match uint_val { MaybeValue::Value($p) => MaybeValue::Value($b), MaybeValue::Undef => MaybeValue::Undef, MaybeValue::HighImpedance => MaybeValue::HighImpedance }
entry: proof { lemma_skip1(value@); if !value@.contains(Value::X) && !value@.contains(Value::Z) { lemma_defined(value@); lemma_twos(value@); lemma_not_bad(value@.skip(1)); } }
ensures: r == sres($1@)
@*/
/// what a signed number reads as
pub open spec fn sres(s: Seq<Value>) -> MaybeValue<BigInt> {
    if s.contains(Value::X) { MaybeValue::Undef } else if s.contains(Value::Z) { MaybeValue::HighImpedance } else { MaybeValue::Value(bi(sval(s))) }
}
pub open spec fn ures(s: Seq<Value>) -> MaybeValue<BigUint> {
    if s.contains(Value::X) { MaybeValue::Undef } else if s.contains(Value::Z) { MaybeValue::HighImpedance } else { MaybeValue::Value(bu(bval(s, false))) }
}
/*@ fn vcd-translate/src/translation.rs :: translate_unsigned_int
entry: proof { if !value@.contains(Value::X) && !value@.contains(Value::Z) { lemma_defined(value@); lemma_not_bad(value@); } }
ensures: r == ures($1@)
@*/
pub open spec fn istxt(m: MaybeValue<BigInt>) -> Seq<char> { match m { MaybeValue::Value(v) => dec(v@), MaybeValue::Undef => "UNDEF"@, MaybeValue::HighImpedance => "HIGHIMP"@ } }
pub open spec fn ustxt(m: MaybeValue<BigUint>) -> Seq<char> { match m { MaybeValue::Value(v) => dec(v@ as int), MaybeValue::Undef => "UNDEF"@, MaybeValue::HighImpedance => "HIGHIMP"@ } }
/*@ fn vcd-translate/src/translation.rs :: MaybeValue<BigInt>::write_to
ensures: final(s)@ == old(s)@ + istxt(*self)
entry: proof { reveal_strlit("UNDEF"); reveal_strlit("HIGHIMP"); }
@*/
/*@ fn vcd-translate/src/translation.rs :: MaybeValue<BigUint>::write_to
ensures: final(s)@ == old(s)@ + ustxt(*self)
entry: proof { reveal_strlit("UNDEF"); reveal_strlit("HIGHIMP"); }
@*/

pub fn vnever() requires false {}
#[verifier::external_body]
pub fn vfirst_or(v: &Vec<u64>, d: u64) -> (r: u64) ensures r == (if v@.len() > 0 { v@[0] } else { d }) { unimplemented!() }

// ---------------------------------------------------------------- the text of a value
/// shorter strings are extended with the leading value, a one with zeros
pub open spec fn lead(v: Value) -> Value { match v { Value::V1 => Value::V0, x => x } }
pub open spec fn extended(s: Seq<Value>, n: nat) -> Seq<Value> { Seq::new((n - s.len()) as nat, |i: int| lead(s[0])) + s }
pub open spec fn comma(more: bool) -> Seq<char> { if more { seq![','] } else { Seq::empty() } }
/// the text of the bits s as a value of type c
pub open spec fn text(c: ConcreteType, s: Seq<Value>) -> Seq<char> decreases c, 0nat {
    let n = cfw(c);
    if n < s.len() || n == 0 { Seq::empty() } else {
        let e = extended(s, n);
        match c {
            ConcreteType::Tuple(v) => seq!['('] + tup(v, v.len() as nat, e) + seq![')'],
            ConcreteType::Struct { name, members, .. } => seq!['{'] + flds(members, members.len() as nat, 0, true, e) + seq!['}'],
            ConcreteType::Array { inner, size } => seq!['['] + elems(*inner, nz(size@), nz(size@), e) + seq![']'],
            ConcreteType::Enum { options } => {
                let tag = e.take(tagw(options.len() as nat) as int); let k = bval(tag, false);
                if bad(tag, Value::X) { "UNDEF"@ } else if bad(tag, Value::Z) { "HIGHIMP"@ }
                else if k >= options.len() { "?TAG?"@ }
                else { last(options[k as int].0) + seq!['('] + flds(options[k as int].1, options[k as int].1.len() as nat, tagw(options.len() as nat), false, e) + seq![')'] }
            },
            ConcreteType::Single { base, params } => match base {
                PrimitiveType::Bool => bittxt(e[0]), PrimitiveType::Clock => bittxt(e[0]), PrimitiveType::Tri => bittxt(e[0]),
                PrimitiveType::Int => istxt(sres(e)), PrimitiveType::Uint => ustxt(ures(e)),
                PrimitiveType::Memory => "memory"@,
                PrimitiveType::InOut => text(params[0], s),
            },
            ConcreteType::CopyView(i) => text(*i, s),
            _ => Seq::empty(),
        }
    }
}
pub open spec fn bittxt(v: Value) -> Seq<char> { match v { Value::V0 => "false"@, Value::V1 => "true"@, Value::X => "UNDEF"@, Value::Z => "HIGHIMP"@ } }
/// the first k members of a tuple: each from the bits after those of the previous ones
pub open spec fn tup(v: Vec<ConcreteType>, k: nat, e: Seq<Value>) -> Seq<char> decreases v, k {
    if k == 0 || k > v.len() { Seq::empty() } else {
        tup(v, (k - 1) as nat, e) + text(v[k - 1], e.subrange(csum(v, (k - 1) as nat) as int, csum(v, k) as int)) + comma(k != v.len())
    }
}
/// members of a struct or of a variant whose payload starts at bit o
pub open spec fn flds(v: Vec<(Identifier, ConcreteType)>, k: nat, o: nat, named: bool, e: Seq<Value>) -> Seq<char> decreases v, k {
    if k == 0 || k > v.len() { Seq::empty() } else {
        flds(v, (k - 1) as nat, o, named, e) + (if named { v[k - 1].0@ + ":"@ } else { Seq::empty() })
            + text(v[k - 1].1, e.subrange((o + cfields(v, (k - 1) as nat)) as int, (o + cfields(v, k)) as int)) + comma(k != v.len())
    }
}
/// array elements, from the most significant bits down
pub open spec fn elems(c: ConcreteType, k: nat, n: nat, e: Seq<Value>) -> Seq<char> decreases c, k + 1 {
    if k == 0 { Seq::empty() } else {
        elems(c, (k - 1) as nat, n, e) + text(c, e.subrange((cfw(c) * (k - 1)) as int, (cfw(c) * k) as int)) + comma(k != n)
    }
}
proof fn lemma_csum_mono(v: Vec<ConcreteType>, k: nat, m: nat) requires k <= m <= v.len() ensures csum(v, k) <= csum(v, m) decreases m
{ if k < m { lemma_csum_mono(v, k, (m - 1) as nat); } }
proof fn lemma_cfields_mono(v: Vec<(Identifier, ConcreteType)>, k: nat, m: nat) requires k <= m <= v.len() ensures cfields(v, k) <= cfields(v, m) decreases m
{ if k < m { lemma_cfields_mono(v, k, (m - 1) as nat); } }
proof fn lemma_cmax(v: Vec<(NameID, Vec<(Identifier, ConcreteType)>)>, i: int, k: nat) requires 0 <= i < k <= v.len() ensures cfields(v[i].1, v[i].1.len() as nat) <= cmax(v, k) decreases k
{ if i < k - 1 { lemma_cmax(v, i, (k - 1) as nat); } }
proof fn lemma_sub(v: Seq<Value>, a: int, b: int) requires 0 <= a <= b <= v.len() ensures v.subrange(a, b).len() == b - a {}

proof fn lemma_bad(s: Seq<Value>) ensures defined(s) ==> !bad(s, Value::X) && !bad(s, Value::Z), !(bad(s, Value::X) && bad(s, Value::Z))
{
    if bad(s, Value::X) && bad(s, Value::Z) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Value::X && defined(s.take(i));
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == Value::Z && defined(s.take(j));
        if i < j { assert(s.take(j)[i] == s[i]); } else if j < i { assert(s.take(i)[j] == s[j]); }
    }
}
proof fn lemma_size(a: nat, b: nat, n: nat) requires n == a * b, 0 < n <= usize::MAX ensures a <= usize::MAX, 0 < b <= usize::MAX, a > 0
{ assert(a > 0 && b > 0) by(nonlinear_arith) requires a * b > 0; assert(a <= a * b && b <= a * b) by(nonlinear_arith) requires a > 0, b > 0; }
proof fn lemma_mul1(a: nat, k: nat, n: nat) requires 0 < k <= n ensures a * (k - 1) + a == a * k, 0 <= a * (k - 1) <= a * k <= a * n
{ assert(a * (k - 1) + a == a * k) by(nonlinear_arith); assert(a * k <= a * n) by(nonlinear_arith) requires k <= n; assert(a * (k - 1) >= 0) by(nonlinear_arith) requires k > 0; }
/*@ fn vcd-translate/src/translation.rs :: inner_translate_value
byref: inner
byref: members
byref: inner_types
requires: $2@.len() > 0 || cfw(*$3) == 0, cfw(*$3) <= usize::MAX
ensures: final($1)@ == old($1)@ + text(*$3, $2@)
decreases: *$3
macro: panic ==> vnever()
split: arms
entry: let ghost ev = extended($2@, cfw(*$3)); let ghost c0 = *$3; let ghost r0 = $1@; let ghost tw = tagw(c0->options.len() as nat); let ghost tagb = ev.take(tw as int); let ghost kx = bval(tagb, false);
  proof { reveal_strlit(":"); if c0 is Array && cfw(c0) > 0 { lemma_size(cfw(*c0->inner), nz(c0->size@), cfw(c0)); } if c0 is Enum && cfw(c0) > 0 && $2@.len() <= cfw(c0) { assert(ev.subrange(0, tw as int) =~= tagb); lemma_bound(tagb); lemma_pow64(); lemma_bad(tagb); if kx < c0->options.len() { lemma_cmax(c0->options, kx as int, c0->options.len() as nat); } } }
after-let value: assert(value@ =~= ev);
loop 0 start: assert(decreases_to!(*vs0 => vs0[vi0 - 1])); proof { lemma_csum_mono(*vs0, vi0 as nat, vs0@.len()); }
loop 0 inv: $1@ =~= r0 + seq!['('] + tup(*vs0, vi0 as nat, ev), $a0 == csum(*vs0, vi0 as nat)
loop 1 start: assert(decreases_to!(*vs1 => vs1[vi1 - 1])); proof { lemma_cfields_mono(*vs1, vi1 as nat, vs1@.len()); }
loop 1 inv: $1@ =~= r0 + seq!['{'] + flds(*vs1, vi1 as nat, 0, true, ev), $a0 == cfields(*vs1, vi1 as nat)
loop 2 start: proof { lemma_mul1(cfw(*c0->inner), vi2 as nat, nz(c0->size@)); }
loop 2 inv: $1@ =~= r0 + seq!['['] + elems(*c0->inner, vi2 as nat, nz(c0->size@), ev), $a0 == cfw(*c0->inner) * vi2
loop 3 start: assert(decreases_to!(*vs3 => vs3[vi3 - 1])); proof { lemma_cfields_mono(*vs3, vi3 as nat, vs3@.len()); }
loop 3 inv: $1@ =~= r0 + last(c0->options[kx as int].0) + seq!['('] + flds(*vs3, vi3 as nat, tagw(options.len() as nat), false, ev), $a0 == tagw(options.len() as nat) + cfields(*vs3, vi3 as nat)
@*/
/*@ fn vcd-translate/src/translation.rs :: translate_value
requires: $2@.len() > 0 || cfw(*$1) == 0, cfw(*$1) <= usize::MAX
ensures: r@ == text(*$1, $2@)
@*/
/// the dump characters
pub open spec fn chval(c: char) -> Value { if c == '0' { Value::V0 } else if c == '1' { Value::V1 } else if c == 'x' || c == 'X' { Value::X } else { Value::Z } }
pub open spec fn lowc(c: char) -> char { if c == 'X' { 'x' } else if c == 'Z' { 'z' } else { c } }
pub open spec fn dumpc(c: char) -> bool { c == '0' || c == '1' || c == 'x' || c == 'X' || c == 'z' || c == 'Z' }
/// `to_lowercase().chars()` of a string of dump characters
#[verifier::external_body]
pub fn vlower(s: &str) -> (r: Vec<char>) requires forall|i: int| 0 <= i < s@.len() ==> dumpc(#[trigger] s@[i]) ensures r@ == Seq::new(s@.len(), |i: int| lowc(s@[i])) { unimplemented!() }
/*@ fn vcd-translate/src/translation.rs :: value_from_str
rule: $x.to_lowercase().chars() ==> vlower($x).into_iter()
requires: forall|i: int| 0 <= i < $1@.len() ==> dumpc(#[trigger] $1@[i])
ensures: r@ == Seq::new($1@.len(), |i: int| chval($1@[i]))
macro: panic ==> vpanic()
loop 0 inv: vacc0@ =~= Seq::new(vi0 as nat, |i: int| chval($1@[i]))
@*/
}
fn main(){}
