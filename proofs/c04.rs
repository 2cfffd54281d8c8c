//@include core.rs
//@include vmap.rs
/*@ rules
type: FxHashMap ==> VMap<@0,@1>
type: HashMap ==> VMap<@0,@1>
type: String ==> VS
rule: HashMap::default() ==> VMap::new()
rule: BigUint::from($x) ==> $x.vbu()
rule: BigInt::from(1) ==> (1i32).vbi()
rule: $x.to_biguint().unwrap() ==> $x.to_bu().unwrap()
rule: $x.to_biguint() ==> $x.vbu()
rule: $x.clone() ==> $x.vclone()
rule: vzero() ==> BigUint::zero()
rule: BigUint::ZERO ==> BigUint::zero()
rule: $x.unwrap_or_else(|| $b) ==> match $x { Some(vu_) => vu_, None => $b }
rule: String::new() ==> vlit("")
rule: 0i64.into() ==> (0i64).vbi()
rule: 0u64.into() ==> (0u64).vbu()
rule: $x.len().into() ==> $x.len().vbu()
rule: (*$x).into() ==> (*$x).vbu()
rule: range($a, $b).map(|_| $s).join("") ==> vrep($a, $b, $s)
rule: $c.join("") ==> vjoin($c.collect::<Vec<_>>())
rule: enum_util::tag_size($x) ==> tag_size($x)
rule: $x.checked_shl($w) ==> vchecked_shl($x, $w)
rule: name_vals[$k] ==> *(name_vals.at($k.vn()))
rule: name_types[$k] ==> *(name_types.at($k.vn()))
macro: format ==> __vfmt
macro: assert ==> vassert($1)
macro: panic ==> vdiverge()
macro: todo ==> vdiverge()
macro: unreachable ==> vdiverge()
@*/
verus! {
broadcast use {group_num, lemma_flog2_pow2, lemma_tagw_is};
pub fn vassert(b: bool) requires b { }

// ---------------------------------------------------------------- assumed contract on String / format!
#[verifier::external_body]
pub struct VS { x: String }
impl View for VS { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VS {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures forall_ascii(self@) ==> r == self@.len() { unimplemented!() }
}
pub open spec fn forall_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == '0' || s[i] == '1' || s[i] == 'X' }
#[verifier::external_body]
pub fn vlit(s: &str) -> (r: VS) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vcat(a: VS, b: VS) -> (r: VS) ensures r@ == a@ + b@ { unimplemented!() }
pub trait VDisp { spec fn shown(&self) -> Seq<char>; }
impl VDisp for VS { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VDisp for i32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
/// decimal digits; only what is needed is stated
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub broadcast axiom fn axiom_dec(n: int) ensures 0 <= n <= 1 ==> #[trigger] dec(n) == seq![bc(n)];
#[verifier::external_body]
pub fn vdisp<T: VDisp>(x: &T) -> (r: VS) ensures r@ == x.shown() { unimplemented!() }
/// `{:b}` of a non-negative number: its binary digits without leading zeros
pub trait VBin { spec fn num(&self) -> int; }
impl VBin for BigInt { open spec fn num(&self) -> int { self@ } }
impl VBin for BigUint { open spec fn num(&self) -> int { self@ as int } }
impl<T: VBin> VBin for &T { open spec fn num(&self) -> int { (**self).num() } }
#[verifier::external_body]
pub fn vbin<T: VBin>(x: &T) -> (r: VS) ensures x.num() >= 0 ==> r@ == dig(x.num() as nat) { unimplemented!() }
/// `range(a, b).map(|_| s).join("")`
#[verifier::external_body]
pub fn vrep(a: BigUint, b: BigUint, s: &str) -> (r: VS) ensures s@.len() == 1 && a@ <= b@ ==> r@ == rep(s@[0], (b@ - a@) as nat) { unimplemented!() }
#[verifier::external_body]
pub fn vjoin(v: Vec<VS>) -> (r: VS) ensures r@ == joined(v@, v@.len()) { unimplemented!() }
pub open spec fn joined(v: Seq<VS>, k: nat) -> Seq<char> decreases k { if k == 0 || k > v.len() { Seq::empty() } else { joined(v, (k - 1) as nat) + v[k - 1]@ } }
#[verifier::external_body]
pub fn vchecked_shl(x: u64, w: u32) -> (r: Option<u64>) ensures w >= 64 ==> r is None, w < 64 ==> r == Some(((x * pow2(w as nat)) % 0x1_0000_0000_0000_0000) as u64) { unimplemented!() }

impl BigInt {
    #[verifier::external_body]
    pub fn to_bu(&self) -> (r: Option<BigUint>) ensures self@ >= 0 ==> (r matches Some(v) && v@ == self@), self@ < 0 ==> r is None { unimplemented!() }
}
// ---------------------------------------------------------------- types
pub struct Loc<T> { pub inner: T }
/// a name up to the equality of the compiler (derived PartialEq/Hash)
#[verifier::external_body]
pub struct ValueName { x: u64 }
pub trait Vn { spec fn svn(&self) -> ValueName; fn vn(&self) -> (r: &ValueName) ensures *r == self.svn(); }
impl Vn for Loc<ValueName> { open spec fn svn(&self) -> ValueName { self.inner } fn vn(&self) -> (r: &ValueName) { &self.inner } }
impl<V> VMap<ValueName, V> {
    /// `map[key]`: panics when the key is missing
    #[verifier::external_body]
    pub fn at(&self, k: &ValueName) -> (r: &V) ensures self@.dom().contains(*k), *r == self@[*k] { unimplemented!() }
}
#[verifier::external_body] pub struct UnitName { x: u64 }
/*@ type spade-mir/src/types.rs :: Type
type: String ==> VS
@*/
/*@ type spade-mir/src/lib.rs :: ConstantValue @*/
/*@ type spade-mir/src/lib.rs :: ParamName @*/
/*@ type spade-mir/src/lib.rs :: Operator @*/
/*@ type spade-mir/src/lib.rs :: Binding @*/
/*@ type spade-mir/src/lib.rs :: Register @*/
/*@ type spade-mir/src/lib.rs :: Statement @*/
/*@ type spade-mir/src/eval.rs :: Value @*/

// ---------------------------------------------------------------- widths (as in C01)
pub open spec fn w(t: Type) -> nat decreases t {
    match t {
        Type::Int(n) => n@,
        Type::UInt(n) => n@,
        Type::Bool => 1,
        Type::Tuple(v) => wsum(v, v.len() as nat),
        Type::Struct(v) => wfields(v, v.len() as nat),
        Type::Array { inner, length } => w(*inner) * length@,
        Type::Memory { inner, length } => w(*inner) * length@,
        Type::Enum(v) => tagw(v.len() as nat) + wmax(v, v.len() as nat),
        Type::Backward(_) => 0,
        Type::CopyView(i) => w(*i),
        Type::InOut(i) => w(*i),
    }
}
pub open spec fn wsum(v: Vec<Type>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { wsum(v, (k - 1) as nat) + w(v[k - 1]) }
}
pub open spec fn wfields(v: Vec<(VS, Type)>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { wfields(v, (k - 1) as nat) + w(v[k - 1].1) }
}
pub open spec fn wmax(v: Vec<Vec<Type>>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else {
        let r = wmax(v, (k - 1) as nat); let x = wsum(v[k - 1], v[k - 1].len() as nat);
        if x > r { x } else { r } }
}
/*@ fn spade-mir/src/enum_util.rs :: tag_size
ensures: is_tagw($1 as nat, r as nat), r as nat == tagw($1 as nat)
@*/
/*@ fn spade-mir/src/types.rs :: Type::size
ensures: r@ == w(*self)
decreases: *self
loop 0 inv: $a0@ == wsum(*vs0, vi0 as nat)
loop 0 start: assert(decreases_to!(*vs0 => vs0[vi0 - 1]));
loop 1 inv: $a0@ == wfields(*vs1, vi1 as nat)
loop 1 start: assert(decreases_to!(*vs1 => vs1[vi1 - 1])); 
loop 2 acc: Option<BigUint>
loop 2 inv: $a0 is None <==> vi2 == 0, ($a0 matches Some(x) ==> x@ == wmax(*vs2, vi2 as nat))
loop 2 start: assert(decreases_to!(*vs2 => vs2[vi2 - 1])); 
loop 2 end: assert(wmax(*vs2, vi2 as nat) == { let r_ = wmax(*vs2, (vi2 - 1) as nat); let x_ = wsum(vs2[vi2 - 1], vs2[vi2 - 1].len() as nat); if x_ > r_ { x_ } else { r_ } });
loop 3 inv: $a0@ == wsum(*vs3, vi3 as nat)
loop 3 start: assert(decreases_to!(*vs3 => vs3[vi3 - 1])); 
@*/

// ---------------------------------------------------------------- the bits a value stands for, most significant first
pub open spec fn bc(n: int) -> char { if n == 1 { '1' } else { '0' } }
pub open spec fn rep(c: char, n: nat) -> Seq<char> { Seq::new(n, |i: int| c) }
/// binary digits without leading zeros
pub open spec fn dig(v: nat) -> Seq<char> decreases v { if v <= 1 { seq![bc(v as int)] } else { dig(v / 2).push(bc((v % 2) as int)) } }
/// the low n bits of v
pub open spec fn bbits(v: nat, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { bbits(v / 2, (n - 1) as nat).push(bc((v % 2) as int)) } }
/// two's complement representation in n bits
pub open spec fn twos(v: int, n: nat) -> Seq<char> { bbits((v % (pow2(n) as int)) as nat, n) }
pub open spec fn bits(v: Value) -> Seq<char> decreases v {
    match v {
        Value::Bit(b) => seq![bc(if b { 1 } else { 0 })],
        Value::Int { size, val } => twos(val@, size@),
        Value::UInt { size, val } => bbits(val@, size@),
        Value::Concat(l) => cat(l, l.len() as nat),
        Value::Undef(n) => rep('X', n@),
    }
}
pub open spec fn cat(l: Vec<Value>, k: nat) -> Seq<char> decreases l, k {
    if k == 0 || k > l.len() { Seq::empty() } else { cat(l, (k - 1) as nat) + bits(l[k - 1]) }
}
/// the number can be written with n bits
pub open spec fn fits(v: int, n: nat) -> bool { if n == 0 { v == 0 } else { -pow2((n - 1) as nat) <= v < pow2(n) } }
pub open spec fn wf(v: Value) -> bool decreases v {
    match v {
        Value::Int { size, val } => fits(val@, size@),
        Value::UInt { size, val } => val@ < pow2(size@),
        Value::Concat(l) => wfl(l, l.len() as nat),
        _ => true,
    }
}
pub open spec fn wfl(l: Vec<Value>, k: nat) -> bool decreases l, k {
    if k == 0 || k > l.len() { true } else { wfl(l, (k - 1) as nat) && wf(l[k - 1]) }
}
/// the number a bit string denotes; undefined bits read as 0
pub open spec fn bv(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { (2 * bv(s.drop_last()) + (if s.last() == '1' { 1int } else { 0 })) as nat } }

pub proof fn lemma_bbits_len(v: nat, n: nat) ensures bbits(v, n).len() == n decreases n { if n > 0 { lemma_bbits_len(v / 2, (n - 1) as nat); } }
pub proof fn lemma_dig(v: nat, n: nat) requires n >= 1, v < pow2(n)
    ensures 1 <= dig(v).len() <= n, bbits(v, n) =~= rep('0', (n - dig(v).len()) as nat) + dig(v), forall_ascii(dig(v)) decreases n
{
    assert(pow2(n) == 2 * pow2((n - 1) as nat));
    if n == 1 { assert(pow2(0) == 1); assert(bbits(v / 2, 0) =~= Seq::empty()); }
    else if v <= 1 { lemma_vpos((n - 1) as nat); lemma_dig(0, (n - 1) as nat); }
    else { lemma_dig(v / 2, (n - 1) as nat); }
}
pub proof fn lemma_vpos(n: nat) ensures pow2(n) > 0 { lemma_pow2_pos(n); }
pub proof fn lemma_top(v: nat, n: nat) requires n >= 1, pow2((n - 1) as nat) <= v < pow2(n) ensures bbits(v, n) =~= dig(v) decreases n
{
    assert(pow2(n) == 2 * pow2((n - 1) as nat));
    if n == 1 { assert(pow2(0) == 1); assert(bbits(v / 2, 0) =~= Seq::empty()); }
    else { assert(pow2((n - 1) as nat) == 2 * pow2((n - 2) as nat)); lemma_vpos((n - 2) as nat); lemma_top(v / 2, (n - 1) as nat); }
}
pub proof fn lemma_bv_lt(s: Seq<char>) ensures bv(s) < pow2(s.len()) decreases s.len() { if s.len() > 0 { lemma_bv_lt(s.drop_last()); } else { assert(pow2(0) == 1); } }
pub proof fn lemma_bv_cat(a: Seq<char>, b: Seq<char>) ensures bv(a + b) == bv(a) * pow2(b.len()) + bv(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(pow2(b.len()) == 1); assert(bv(b) == 0); assert(bv(a) * pow2(b.len()) == bv(a)) by(nonlinear_arith) requires pow2(b.len()) == 1; }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_bv_cat(a, b.drop_last());
        assert(pow2(b.len()) == 2 * pow2((b.len() - 1) as nat));
        assert(b.drop_last().len() == (b.len() - 1) as nat);
        assert(bv(a + b) == 2 * bv((a + b).drop_last()) + (if b.last() == '1' { 1int } else { 0 }));
        assert(bv(a) * pow2(b.len()) == 2 * (bv(a) * pow2((b.len() - 1) as nat))) by(nonlinear_arith) requires pow2(b.len()) == 2 * pow2((b.len() - 1) as nat);
    }
}
pub proof fn lemma_bv_bits(v: nat, n: nat) requires v < pow2(n) ensures bv(bbits(v, n)) == v decreases n
{
    if n == 0 { assert(pow2(0) == 1); } else {
        assert(pow2(n) == 2 * pow2((n - 1) as nat));
        lemma_bv_bits(v / 2, (n - 1) as nat);
        assert(bbits(v, n).drop_last() =~= bbits(v / 2, (n - 1) as nat));
    }
}
pub proof fn lemma_bv_x(n: nat) ensures bv(rep('X', n)) == 0 decreases n
{ if n > 0 { assert(rep('X', n).drop_last() =~= rep('X', (n - 1) as nat)); lemma_bv_x((n - 1) as nat); } }
/// a negative number modulo 2^n has its top bit set
pub proof fn lemma_neg(v: int, n: nat) requires fits(v, n), v < 0 ensures n >= 1, v % (pow2(n) as int) == v + pow2(n), pow2((n - 1) as nat) <= v + pow2(n) < pow2(n)
{
    assert(pow2(n) == 2 * pow2((n - 1) as nat));
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, pow2(n) as int, -1, v + pow2(n));
}
pub proof fn lemma_pos(v: int, n: nat) requires fits(v, n), v >= 0 ensures v % (pow2(n) as int) == v, v < pow2(n)
{ if n == 0 { assert(pow2(0) == 1); } vstd::arithmetic::div_mod::lemma_small_mod(v as nat, pow2(n)); }

/*@ fn spade-mir/src/eval.rs :: Value::assume_int
ensures: self matches Value::Int { val, .. } && r == val
@*/
/*@ fn spade-mir/src/eval.rs :: Value::assume_uint
ensures: self matches Value::UInt { val, .. } && r == val
@*/
pub proof fn lemma_ascii(v: nat, n: nat) ensures forall_ascii(bbits(v, n)) decreases n { if n > 0 { lemma_ascii(v / 2, (n - 1) as nat); } }
/// what the number variants look like
pub proof fn lemma_num(v: Value) requires wf(v), !(v is Concat) ensures
    v matches Value::Int { size, val } ==> {
        let m = (val@ % (pow2(size@) as int)) as nat;
        &&& (size@ > 0 ==> 1 <= dig(m).len() <= size@ && bits(v) =~= rep('0', (size@ - dig(m).len()) as nat) + dig(m) && forall_ascii(dig(m)))
        &&& val@ % (pow2(size@) as int) >= 0
        &&& (val@ >= 0 ==> m == val@)
        &&& (val@ < 0 ==> m < pow2(size@) && bits(v) =~= dig(m) && size@ > 0)
        &&& (size@ == 0 ==> val@ == 0)
    },
    v matches Value::UInt { size, val } ==> (size@ > 0 ==> 1 <= dig(val@).len() <= size@ && bits(v) =~= rep('0', (size@ - dig(val@).len()) as nat) + dig(val@) && forall_ascii(dig(val@))),
    bv(bits(v)) == (match v { Value::Bit(b) => if b { 1nat } else { 0nat }, Value::Int { size, val } => (val@ % (pow2(size@) as int)) as nat, Value::UInt { size, val } => val@, Value::Undef(n) => 0, _ => 0 }),
    v matches Value::UInt { size, val } ==> val@ < pow2(size@),
{
    match v {
        Value::Int { size, val } => {
            lemma_vpos(size@); assert(val@ % (pow2(size@) as int) >= 0);
            if val@ >= 0 { lemma_pos(val@, size@); if size@ > 0 { lemma_dig(val@ as nat, size@); } lemma_bv_bits(val@ as nat, size@); }
            else { lemma_neg(val@, size@); let m = (val@ + pow2(size@)) as nat; lemma_top(m, size@); lemma_dig(m, size@); lemma_bv_bits(m, size@); }
        }
        Value::UInt { size, val } => { if size@ > 0 { lemma_dig(val@, size@); } lemma_bv_bits(val@, size@); }
        Value::Undef(n) => { lemma_bv_x(n@); }
        Value::Bit(b) => { let s = bits(v); assert(s.drop_last() =~= Seq::empty()); assert(bv(s.drop_last()) == 0); assert(bv(s) == 2 * bv(s.drop_last()) + (if s.last() == '1' { 1int } else { 0 })); }
        _ => {}
    }
}
pub proof fn lemma_wfl(l: Vec<Value>, k: nat, i: int) requires wfl(l, k), 0 <= i < k <= l.len() ensures wf(l[i]) decreases k
{ if i < k - 1 { lemma_wfl(l, (k - 1) as nat, i); } }
pub proof fn lemma_joined(v: Seq<VS>, x: VS, k: nat) requires k <= v.len() ensures joined(v.push(x), k) == joined(v, k) decreases k
{ if k > 0 { lemma_joined(v, x, (k - 1) as nat); } }

pub proof fn lemma_p64(n: nat) requires n <= 64 ensures pow2(n) <= 0x1_0000_0000_0000_0000, pow2(64) == 0x1_0000_0000_0000_0000
{ assert(pow2(64) == 0x1_0000_0000_0000_0000) by(compute); if n < 64 { lemma_pow2_mono(n, 64); } }
pub proof fn lemma_step64(a: Seq<char>, b: Seq<char>) requires a.len() + b.len() <= 64
    ensures bv(a + b) == bv(a) * pow2(b.len()) + bv(b), bv(a + b) < 0x1_0000_0000_0000_0000, b.len() >= 64 ==> bv(a) == 0,
        (bv(a) * pow2(b.len())) % 0x1_0000_0000_0000_0000 == bv(a) * pow2(b.len())
{
    lemma_bv_cat(a, b); lemma_bv_lt(a + b); lemma_p64((a + b).len()); 
    assert(bv(a) * pow2(b.len()) >= 0) by(nonlinear_arith);
    if b.len() >= 64 { assert(a.len() == 0); }
    vstd::arithmetic::div_mod::lemma_small_mod((bv(a) * pow2(b.len())) as nat, 0x1_0000_0000_0000_0000);
}
/*@ fn spade-mir/src/eval.rs :: Value::as_string
requires: wf(*self)
ensures: r@ =~= bits(*self), forall_ascii(r@)
decreases: *self
split: arms
entry: broadcast use axiom_dec; proof { reveal_strlit(""); reveal_strlit("0"); reveal_strlit("X"); if !(self is Concat) { lemma_num(*self); } }
loop 0 inv: joined(vacc0@, vacc0@.len()) =~= cat(*vs0, vi0 as nat), forall_ascii(cat(*vs0, vi0 as nat))
loop 0 start: assert(decreases_to!(*vs0 => vs0[vi0 - 1])); proof { lemma_wfl(*vs0, vs0.len() as nat, vi0 - 1); } let ghost va = vacc0@;
loop 0 end: proof { lemma_joined(va, vacc0@.last(), va.len()); assert(vacc0@ =~= va.push(vacc0@.last())); }
@*/
/*@ fn spade-mir/src/eval.rs :: Value::width
ensures: r@ == bits(*self).len()
decreases: *self
entry: proof { match self { Value::Int { size, val } => { lemma_bbits_len((val@ % (pow2(size@) as int)) as nat, size@); } Value::UInt { size, val } => { lemma_bbits_len(val@, size@); } _ => {} } }
loop 0 inv: vacc0@ == cat(*vs0, vi0 as nat).len()
loop 0 start: assert(decreases_to!(*vs0 => vs0[vi0 - 1]));
@*/
pub proof fn lemma_cat_mono(l: Vec<Value>, a: nat, b: nat) requires a <= b <= l.len() ensures cat(l, a).len() <= cat(l, b).len() decreases b
{ if a < b { lemma_cat_mono(l, a, (b - 1) as nat); } }
/*@ fn spade-mir/src/eval.rs :: Value::as_u64
requires: wf(*self), bits(*self).len() <= 64
ensures: r == bv(bits(*self))
decreases: *self
entry: proof { if !(self is Concat) { lemma_num(*self); } lemma_bv_lt(bits(*self)); lemma_p64(bits(*self).len()); }
loop 0 inv: $a0 == bv(cat(*vs0, vi0 as nat)), cat(*vs0, vs0.len() as nat).len() <= 64, wfl(*vs0, vs0.len() as nat)
loop 0 start: assert(decreases_to!(*vs0 => vs0[vi0 - 1])); proof { lemma_wfl(*vs0, vs0.len() as nat, vi0 - 1); lemma_cat_mono(*vs0, vi0 as nat, vs0.len() as nat); lemma_step64(cat(*vs0, (vi0 - 1) as nat), bits(vs0[vi0 - 1])); }
@*/
/*@ fn spade-mir/src/eval.rs :: Value::as_u32_chunks
requires: wf(*self), bits(*self).len() <= u64::MAX
ensures: r@ == bv(bits(*self))
decreases: *self
entry: proof { if !(self is Concat) { lemma_num(*self); } }
loop 0 inv: $a0@ == bv(cat(*vs0, vi0 as nat)), cat(*vs0, vs0.len() as nat).len() <= u64::MAX, wfl(*vs0, vs0.len() as nat)
loop 0 start: assert(decreases_to!(*vs0 => vs0[vi0 - 1])); proof { lemma_wfl(*vs0, vs0.len() as nat, vi0 - 1); lemma_cat_mono(*vs0, vi0 as nat, vs0.len() as nat); lemma_bv_cat(cat(*vs0, (vi0 - 1) as nat), bits(vs0[vi0 - 1])); }
@*/

// ---------------------------------------------------------------- evaluation of constant statements
/// what is known about a name: its bits, and for numbers the number
pub ghost struct G { pub b: Seq<char>, pub n: int, pub k: Kind }
pub enum Kind { I, U, Other }
pub open spec fn g(v: Value) -> G {
    G { b: bits(v), n: match v { Value::Int { size, val } => val@, Value::UInt { size, val } => val@ as int, _ => 0 },
        k: match v { Value::Int { .. } => Kind::I, Value::UInt { .. } => Kind::U, _ => Kind::Other } }
}
pub open spec fn ob(env: Map<ValueName, G>, ops: Vec<Loc<ValueName>>, k: nat) -> Seq<char> decreases k
{ if k == 0 || k > ops.len() { Seq::empty() } else { ob(env, ops, (k - 1) as nat) + env[ops[k - 1].inner].b } }
/// from operand k on, in reverse order
pub open spec fn obr(env: Map<ValueName, G>, ops: Vec<Loc<ValueName>>, k: nat) -> Seq<char> decreases ops.len() - k
{ if k >= ops.len() { Seq::empty() } else { obr(env, ops, k + 1) + env[ops[k as int].inner].b } }
pub open spec fn num_of(op: Operator, w: nat, a: int, b: int) -> int {
    match op {
        Operator::Add | Operator::UnsignedAdd => a + b,
        Operator::Sub => a - b,
        Operator::UnsignedSub => (a - b) % (pow2(w) as int),
        // the negation of the most negative number wraps around to itself
        Operator::USub => if -2 * a == pow2(w) { a } else { -a },
        _ => 0,
    }
}
/// the meaning of a statement, given the meanings of the names it refers to
pub open spec fn means(s: Statement, env: Map<ValueName, G>) -> G {
    match s {
        Statement::Binding(b) => {
            let e0 = env[b.operands[0].inner]; let e1 = env[b.operands[1].inner]; let n = num_of(b.operator, w(b.ty), e0.n, e1.n);
            match b.operator {
                Operator::Add | Operator::Sub | Operator::USub => G { b: twos(n, w(b.ty)), n, k: Kind::I },
                Operator::UnsignedAdd | Operator::UnsignedSub => G { b: twos(n, w(b.ty)), n, k: Kind::U },
                Operator::Alias | Operator::BlackBoxAlias => e0,
                // the first element of an array is the least significant one
                Operator::ConstructArray => G { b: obr(env, b.operands, 0), n: 0, k: Kind::Other },
                Operator::ConstructTuple => G { b: ob(env, b.operands, b.operands.len() as nat), n: 0, k: Kind::Other },
                // tag, members, and unspecified bits up to the width of the type
                Operator::ConstructEnum { variant } => {
                    let tag = match b.ty { Type::Enum(o) => tagw(o.len() as nat), _ => 0 };
                    let m = ob(env, b.operands, b.operands.len() as nat);
                    G { b: bbits(variant as nat, tag) + m + rep('X', (w(b.ty) - tag - m.len()) as nat), n: 0, k: Kind::Other }
                }
                _ => arbitrary(),
            }
        }
        Statement::Constant(_, ty, ConstantValue::Int(i)) => G { b: twos(i@, w(ty)), n: i@, k: if ty is UInt && i@ >= 0 { Kind::U } else { Kind::I } },
        Statement::Constant(_, ty, ConstantValue::Bool(v)) => G { b: seq![bc(if v { 1 } else { 0 })], n: 0, k: Kind::Other },
        _ => arbitrary(),
    }
}
pub open spec fn defines(s: Statement) -> ValueName { match s { Statement::Binding(b) => b.name.inner, Statement::Constant(n, _, _) => n.inner, _ => arbitrary() } }
pub open spec fn type_of(s: Statement) -> Type { match s { Statement::Binding(b) => b.ty, Statement::Constant(_, t, _) => t, _ => arbitrary() } }
#[verifier::opaque]
pub open spec fn env(st: Seq<Loc<Statement>>, k: nat) -> Map<ValueName, G> decreases k
{ if k == 0 || k > st.len() { Map::empty() } else { let e = env(st, (k - 1) as nat); e.insert(defines(st[k - 1].inner), means(st[k - 1].inner, e)) } }
/// what evaluating a statement relies on (derived below from the rules of the type checker)
pub open spec fn typed(s: Statement, e: Map<ValueName, G>) -> bool {
    match s {
        Statement::Binding(b) => {
            let e0 = e[b.operands[0].inner]; let e1 = e[b.operands[1].inner]; let n = num_of(b.operator, w(b.ty), e0.n, e1.n);
            let all = ob(e, b.operands, b.operands.len() as nat).len();
            match b.operator {
                Operator::Add | Operator::Sub => b.operands.len() == 2 && fits(n, w(b.ty)),
                Operator::UnsignedAdd => b.operands.len() == 2 && n < pow2(w(b.ty)),
                Operator::UnsignedSub => b.operands.len() == 2 && e0.b.len() <= w(b.ty) <= usize::MAX && e1.n <= pow2(w(b.ty)),
                Operator::USub => b.operands.len() == 1 && w(b.ty) <= usize::MAX && fits(n, w(b.ty)),
                Operator::Alias | Operator::BlackBoxAlias => b.operands.len() == 1 && e0.b.len() == w(b.ty),
                Operator::ConstructArray | Operator::ConstructTuple => all == w(b.ty),
                Operator::ConstructEnum { variant } => b.ty matches Type::Enum(o) && tagw(o.len() as nat) + all <= w(b.ty) && (variant as nat) < pow2(tagw(o.len() as nat)),
                _ => true,
            }
        }
        Statement::Constant(_, ty, ConstantValue::Int(i)) => fits(i@, w(ty)),
        Statement::Constant(_, ty, ConstantValue::Bool(v)) => w(ty) == 1,
        _ => true,
    }
}
pub open spec fn sfit(v: int, n: nat) -> bool { -(pow2(n) as int) <= 2 * v < pow2(n) }
pub open spec fn ufit(v: int, n: nat) -> bool { 0 <= v < pow2(n) }
/// the rules of the type checker: names are defined before they are used and once, literals fit their type,
/// sums and differences have one bit more than their operands, members make up the whole
pub open spec fn rules(s: Statement, e: Map<ValueName, G>) -> bool {
    match s {
        Statement::Binding(b) => {
            let e0 = e[b.operands[0].inner]; let e1 = e[b.operands[1].inner];
            let all = ob(e, b.operands, b.operands.len() as nat).len();
            &&& forall|i: int| 0 <= i < b.operands.len() ==> e.dom().contains((#[trigger] b.operands[i]).inner)
            &&& w(b.ty) <= usize::MAX
            &&& match b.operator {
                Operator::Add | Operator::Sub => b.operands.len() == 2 && e0.k is I && e1.k is I && e0.b.len() < w(b.ty) && e1.b.len() < w(b.ty),
                Operator::UnsignedAdd | Operator::UnsignedSub => b.operands.len() == 2 && e0.k is U && e1.k is U && e0.b.len() < w(b.ty) && e1.b.len() < w(b.ty),
                Operator::USub => b.operands.len() == 1 && e0.k is I && e0.b.len() <= w(b.ty),
                Operator::Alias | Operator::BlackBoxAlias => b.operands.len() == 1 && e0.b.len() == w(b.ty),
                Operator::ConstructArray | Operator::ConstructTuple => all == w(b.ty),
                Operator::ConstructEnum { variant } => b.ty matches Type::Enum(o) && tagw(o.len() as nat) + all <= w(b.ty) && (variant as nat) < pow2(tagw(o.len() as nat)),
                _ => true,
            }
        }
        Statement::Constant(_, ty, ConstantValue::Int(i)) => match ty { Type::Int(n) => sfit(i@, n@), Type::UInt(n) => ufit(i@, n@), _ => false },
        Statement::Constant(_, ty, ConstantValue::Bool(v)) => ty is Bool,
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn well_typed(st: Seq<Loc<Statement>>) -> bool {
    forall|k: int| 0 <= k < st.len() ==> rules((#[trigger] st[k]).inner, env(st, k as nat)) && !env(st, k as nat).dom().contains(defines(st[k].inner)) && evaluable(st[k].inner)
}
/// evaluation of anything else aborts
pub open spec fn evaluable(s: Statement) -> bool {
    match s {
        Statement::Binding(b) => match b.operator {
            Operator::Add | Operator::Sub | Operator::UnsignedAdd | Operator::UnsignedSub | Operator::USub | Operator::Alias | Operator::BlackBoxAlias
            | Operator::ConstructArray | Operator::ConstructTuple | Operator::ConstructEnum { .. } => true, _ => false },
        Statement::Constant(_, _, ConstantValue::Int(_)) | Statement::Constant(_, _, ConstantValue::Bool(_)) => true,
        _ => false,
    }
}
/// the number of a name is in the range of its type
pub open spec fn inrange(x: G) -> bool { match x.k { Kind::I => sfit(x.n, x.b.len()), Kind::U => ufit(x.n, x.b.len()), _ => true } }
pub proof fn lemma_pow_step(a: nat, b: nat) requires a < b ensures 2 * pow2(a) <= pow2(b) decreases b
{ if a + 1 < b { lemma_pow_step(a, (b - 1) as nat); } }
pub proof fn lemma_pow_mono(a: nat, b: nat) requires a <= b ensures pow2(a) <= pow2(b) { if a < b { lemma_pow_step(a, b); } }
pub proof fn lemma_sfit(v: int, n: nat) requires sfit(v, n) ensures fits(v, n) { lemma_vpos(n); if n > 0 { assert(pow2(n) == 2 * pow2((n - 1) as nat)); } else { assert(pow2(0) == 1); } }
/// one statement: its requirements hold and what it defines is in range
pub proof fn lemma_rules(s: Statement, e: Map<ValueName, G>)
    requires rules(s, e), evaluable(s), forall|k: ValueName| #[trigger] e.dom().contains(k) ==> inrange(e[k])
    ensures typed(s, e), inrange(means(s, e))
{
    match s {
        Statement::Binding(b) => {
            let e0 = e[b.operands[0].inner]; let e1 = e[b.operands[1].inner]; let n = num_of(b.operator, w(b.ty), e0.n, e1.n); let x = w(b.ty);
            lemma_twos_len(n, x); lemma_vpos(x);
            if b.operands.len() > 0 { assert(e.dom().contains(b.operands[0].inner)); }
            if b.operands.len() > 1 { assert(e.dom().contains(b.operands[1].inner)); }
            match b.operator {
                Operator::Add | Operator::Sub => { lemma_pow_step(e0.b.len(), x); lemma_pow_step(e1.b.len(), x); lemma_sfit(n, x); }
                Operator::UnsignedAdd => { lemma_pow_step(e0.b.len(), x); lemma_pow_step(e1.b.len(), x); }
                Operator::UnsignedSub => { lemma_pow_step(e0.b.len(), x); lemma_pow_step(e1.b.len(), x); vstd::arithmetic::div_mod::lemma_mod_bound(e0.n - e1.n, pow2(x) as int); }
                Operator::USub => { lemma_pow_mono(e0.b.len(), x); lemma_sfit(n, x); }
                _ => {}
            }
        }
        Statement::Constant(_, ty, ConstantValue::Int(i)) => { lemma_twos_len(i@, w(ty)); if ty is Int { lemma_sfit(i@, w(ty)); } else { lemma_vpos(w(ty)); assert(ufit(i@, w(ty))); lemma_ufit(i@, w(ty)); } }
        _ => {}
    }
}
pub proof fn lemma_ufit(v: int, n: nat) requires ufit(v, n) ensures fits(v, n) { if n == 0 { assert(pow2(0) == 1); } else { lemma_vpos((n - 1) as nat); } }
pub proof fn lemma_env(st: Seq<Loc<Statement>>, k: nat) requires well_typed(st), k <= st.len()
    ensures forall|n: ValueName| #[trigger] env(st, k).dom().contains(n) ==> inrange(env(st, k)[n])
    decreases k
{
    reveal_with_fuel(env, 2);
    if k > 0 { lemma_env(st, (k - 1) as nat); reveal(well_typed); let s = st[k - 1].inner; let e = env(st, (k - 1) as nat); assert(rules(s, e) && evaluable(s)); lemma_rules(s, e); }
}
pub proof fn lemma_at(st: Seq<Loc<Statement>>, k: nat) requires well_typed(st), k < st.len()
    ensures typed(st[k as int].inner, env(st, k)), !env(st, k).dom().contains(defines(st[k as int].inner)), env(st, k + 1) == env(st, k).insert(defines(st[k as int].inner), means(st[k as int].inner, env(st, k))), env(st, 0) == Map::<ValueName, G>::empty(),
        // the number a statement defines is in the range of its type
        inrange(means(st[k as int].inner, env(st, k)))
{ lemma_env(st, k); reveal(well_typed); reveal_with_fuel(env, 2); assert(rules(st[k as int].inner, env(st, k)) && evaluable(st[k as int].inner)); lemma_rules(st[k as int].inner, env(st, k)); }
pub open spec fn gm(m: Map<ValueName, Value>) -> Map<ValueName, G> { m.map_values(|v: Value| g(v)) }
pub open spec fn sized(m: Map<ValueName, Value>, t: Map<ValueName, Type>) -> bool {
    m.dom() =~= t.dom() && forall|k: ValueName| #[trigger] m.dom().contains(k) ==> wf(m[k]) && bits(m[k]).len() == w(t[k])
}
pub proof fn lemma_members(l: Vec<Value>, off: nat, ops: Vec<Loc<ValueName>>, m: Map<ValueName, Value>, n: nat)
    requires off + n <= l.len(), n <= ops.len(), forall|i: int| 0 <= i < n ==> l[off + i] == m[(#[trigger] ops[i]).inner] && m.dom().contains(ops[i].inner),
        forall|k: ValueName| #[trigger] m.dom().contains(k) ==> wf(m[k])
    ensures cat(l, off + n) =~= cat(l, off) + ob(gm(m), ops, n), wfl(l, off + n) == wfl(l, off)
    decreases n
{ if n > 0 { lemma_members(l, off, ops, m, (n - 1) as nat); assert(l[off + (n - 1)] == m[ops[n - 1].inner]); assert(gm(m)[ops[n - 1].inner].b == bits(l[off + n - 1])); } }
pub proof fn lemma_members_rev(l: Vec<Value>, ops: Vec<Loc<ValueName>>, m: Map<ValueName, Value>, n: nat)
    requires n <= l.len(), n <= ops.len(), forall|i: int| 0 <= i < n ==> (#[trigger] l[i]) == m[ops[ops.len() - 1 - i].inner] && m.dom().contains(ops[ops.len() - 1 - i].inner),
        forall|k: ValueName| #[trigger] m.dom().contains(k) ==> wf(m[k])
    ensures cat(l, n) =~= obr(gm(m), ops, (ops.len() - n) as nat), wfl(l, n)
    decreases n
{ if n > 0 { lemma_members_rev(l, ops, m, (n - 1) as nat); assert(l[n - 1] == m[ops[ops.len() - n].inner]); assert(gm(m)[ops[ops.len() - n].inner].b == bits(l[n - 1])); } }
pub proof fn lemma_obr_len(e: Map<ValueName, G>, ops: Vec<Loc<ValueName>>, k: nat) requires k <= ops.len() ensures ob(e, ops, k).len() + obr(e, ops, k).len() == ob(e, ops, ops.len() as nat).len() decreases ops.len() - k
{ if k < ops.len() { lemma_obr_len(e, ops, k + 1); } }
pub proof fn lemma_twos(n: int, w: nat) requires 0 <= n < pow2(w) ensures twos(n, w) == bbits(n as nat, w), twos(n, w).len() == w
{ vstd::arithmetic::div_mod::lemma_small_mod(n as nat, pow2(w)); lemma_bbits_len(n as nat, w); }
pub proof fn lemma_twos_len(n: int, w: nat) ensures twos(n, w).len() == w { lemma_bbits_len((n % (pow2(w) as int)) as nat, w); }
/// the shape of the value produced for a statement
pub open spec fn made(s: Statement, m: Map<ValueName, Value>, v: Value) -> bool {
    let e = gm(m);
    match s {
        Statement::Binding(b) => {
            let e0 = e[b.operands[0].inner]; let e1 = e[b.operands[1].inner]; let n = num_of(b.operator, w(b.ty), e0.n, e1.n);
            match b.operator {
                Operator::Add | Operator::Sub | Operator::USub => v matches Value::Int { size, val } && size@ == w(b.ty) && val@ == n,
                Operator::UnsignedAdd | Operator::UnsignedSub => v matches Value::UInt { size, val } && size@ == w(b.ty) && val@ == n,
                Operator::Alias | Operator::BlackBoxAlias => v == m[b.operands[0].inner] && m.dom().contains(b.operands[0].inner),
                Operator::ConstructArray => v matches Value::Concat(l) && l.len() == b.operands.len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]) == m[b.operands[l.len() - 1 - i].inner] && m.dom().contains(b.operands[l.len() - 1 - i].inner),
                Operator::ConstructTuple => v matches Value::Concat(l) && l.len() == b.operands.len() && forall|i: int| 0 <= i < l.len() ==> l[i] == m[(#[trigger] b.operands[i]).inner] && m.dom().contains(b.operands[i].inner),
                Operator::ConstructEnum { variant } => {
                    let o = match b.ty { Type::Enum(o) => o.len() as nat, _ => 0 };
                    let t = if o <= 1 { 0nat } else { 1 };
                    let k = b.operands.len();
                    let pad = w(b.ty) - tagw(o) - ob(e, b.operands, k as nat).len();
                    v matches Value::Concat(l) && (t == 1 ==> l.len() > 0 && (l[0] matches Value::UInt { size, val } && size@ == tagw(o) && val@ == variant))
                        && l.len() == t + k + (if pad == 0 { 0nat } else { 1 }) && (pad != 0 ==> (l[t + k] matches Value::Undef(n) && n@ == pad))
                        && forall|i: int| 0 <= i < k ==> l[t + i] == m[(#[trigger] b.operands[i]).inner] && m.dom().contains(b.operands[i].inner)
                }
                _ => false,
            }
        }
        Statement::Constant(_, ty, ConstantValue::Int(i)) => (v matches Value::UInt { size, val } && ty is UInt && size@ == w(ty) && val@ == i@) || (v matches Value::Int { size, val } && size@ == w(ty) && val@ == i@ && !(ty is UInt && i@ >= 0)),
        Statement::Constant(_, ty, ConstantValue::Bool(b)) => v == Value::Bit(b),
        _ => false,
    }
}
pub proof fn lemma_cat1(l: Vec<Value>, k: nat) requires k < l.len() ensures cat(l, k + 1) == cat(l, k) + bits(l[k as int]), wfl(l, k + 1) == (wfl(l, k) && wf(l[k as int])) { }
pub proof fn lemma_cat0(l: Vec<Value>) ensures cat(l, 0) == Seq::<char>::empty(), wfl(l, 0) { }
pub proof fn lemma_v(s: Statement, m: Map<ValueName, Value>, v: Value)
    requires made(s, m, v), typed(s, gm(m)), forall|k: ValueName| #[trigger] m.dom().contains(k) ==> wf(m[k])
    ensures wf(v), g(v) == means(s, gm(m)), bits(v).len() == w(type_of(s))
{
    let e = gm(m);
    match s {
        Statement::Binding(b) => {
            let e0 = e[b.operands[0].inner]; let e1 = e[b.operands[1].inner]; let n = num_of(b.operator, w(b.ty), e0.n, e1.n);
            let k = b.operands.len() as nat;
            lemma_vpos(w(b.ty)); lemma_twos_len(n, w(b.ty));
            match b.operator {
                Operator::UnsignedAdd | Operator::UnsignedSub => { lemma_twos(n, w(b.ty)); }
                Operator::ConstructArray => { lemma_members_rev(v->Concat_0, b.operands, m, k); lemma_obr_len(e, b.operands, 0); }
                Operator::ConstructTuple => { lemma_cat0(v->Concat_0); lemma_members(v->Concat_0, 0, b.operands, m, k); }
                Operator::ConstructEnum { variant } => {
                    let l = v->Concat_0;
                    let o = match b.ty { Type::Enum(o) => o.len() as nat, _ => 0 };
                    let t = if o <= 1 { 0nat } else { 1 };
                    lemma_cat0(l); if t == 1 { lemma_cat1(l, 0); } else { assert(pow2(0) == 1); lemma_tagw(o, 0); }
                    lemma_bbits_len(variant as nat, tagw(o));
                    assert(cat(l, t) =~= bbits(variant as nat, tagw(o)));
                    assert(wfl(l, t));
                    lemma_members(l, t, b.operands, m, k);
                    if t + k < l.len() { lemma_cat1(l, t + k); }
                    assert(g(v).b =~= means(s, e).b);
                }
                _ => {}
            }
        }
        Statement::Constant(_, ty, ConstantValue::Int(i)) => { lemma_twos_len(i@, w(ty)); if i@ >= 0 { lemma_pos(i@, w(ty)); } }
        _ => {}
    }
}
/*@ fn spade-mir/src/eval.rs :: eval_statements
rule: i.to_biguint() ==> i.to_bu()
split: on &stmt.inner, operator
attr: #[verifier::rlimit(60)]
requires: well_typed($1@), $1@.len() > 0
ensures: wf(r), g(r) == means($1@.last().inner, env($1@, ($1@.len() - 1) as nat)), bits(r).len() == w(type_of($1@.last().inner))
entry: proof { lemma_at($1@, 0); }
loop 0 inv: gm(name_vals@) =~= env($1@, vi0 as nat), sized(name_vals@, name_types@), vi0 == 0 ==> last_value is None,
    vi0 > 0 ==> (last_value matches Some(v) && wf(v) && g(v) == means($1@[vi0 - 1].inner, env($1@, (vi0 - 1) as nat)) && bits(v).len() == w(type_of($1@[vi0 - 1].inner)))
loop 0 start: let ghost nv = name_vals@; let ghost nt = name_types@; let ghost e = env($1@, (vi0 - 1) as nat); proof { lemma_at($1@, (vi0 - 1) as nat); assert(gm(nv) =~= e); assert(forall|k: ValueName| #[trigger] nv.dom().contains(k) ==> e.dom().contains(k) && e[k] == g(nv[k])); assert(nv.dom() =~= e.dom()); }
loop 1 inv: vacc1@.len() == vi1, name_vals@ == nv, forall|i: int| 0 <= i < vi1 ==> (#[trigger] vacc1@[i]) == nv[ops[ops.len() - 1 - i].inner] && nv.dom().contains(ops[ops.len() - 1 - i].inner)
loop 2 inv: vacc2@.len() == vi2, name_vals@ == nv, forall|i: int| 0 <= i < vi2 ==> (#[trigger] vacc2@[i]) == nv[ops[i].inner] && nv.dom().contains(ops[i].inner)
loop 3 inv: vacc3@.len() == vi3, name_vals@ == nv, forall|i: int| 0 <= i < vi3 ==> (#[trigger] vacc3@[i]) == nv[ops[i].inner] && nv.dom().contains(ops[i].inner), forall|i: int| 0 <= i < vi3 ==> nv.dom().contains((#[trigger] ops@[i]).inner)
loop 4 inv: vacc4@ == ob(e, *ops, vi4 as nat).len()
loop 4 start: proof { let k = ops[vi4 - 1].inner; assert(nv.dom().contains(k)); assert(name_types@[k] == nt[k]); }
after-let modulus: proof { assert(size@ == w(*ty)); assert(modulus@ == pow2(size@)) by(nonlinear_arith) requires modulus@ == 1 * pow2(size@); let k = ops[1].inner; assert(nv.dom().contains(k) ==> e[k] == g(nv[k])); lemma_vpos(size@); let k0 = ops[0].inner; assert(nv.dom().contains(k0) ==> e[k0] == g(nv[k0])); vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(e[k0].n - e[k].n, pow2(size@) as int); }
loop 0 end: proof { lemma_v($1@[vi0 - 1].inner, nv, v); assert(gm(name_vals@) =~= env($1@, vi0 as nat)); }
@*/
}
fn main(){}
