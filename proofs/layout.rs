// Shared by c08 and c09: the widths of Spade types and their lowering to mid-level types.
// ---------------------------------------------------------------- assumed contracts on strings and errors
#[verifier::external_body]
pub struct VS { x: String }
impl View for VS { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct SErr { x: u8 }
impl VS { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
pub trait InfBu { spec fn nv(&self) -> nat; fn to_biguint(&self) -> (r: BigUint) ensures r@ == self.nv(); }
impl InfBu for u32 { open spec fn nv(&self) -> nat { *self as nat } #[verifier::external_body] fn to_biguint(&self) -> (r: BigUint) { unimplemented!() } }
impl InfBu for u64 { open spec fn nv(&self) -> nat { *self as nat } #[verifier::external_body] fn to_biguint(&self) -> (r: BigUint) { unimplemented!() } }
impl InfBu for usize { open spec fn nv(&self) -> nat { *self as nat } #[verifier::external_body] fn to_biguint(&self) -> (r: BigUint) { unimplemented!() } }
impl SErr { #[verifier::external_body] pub fn new() -> (r: SErr) { unimplemented!() } }
pub type Result<T> = core::result::Result<T, SErr>;
#[verifier::external_body]
pub fn vlit(s: &str) -> (r: VS) ensures r@ == s@ { unimplemented!() }
pub trait Owned { spec fn cs(&self) -> Seq<char>; }
impl Owned for &str { open spec fn cs(&self) -> Seq<char> { (*self)@ } }
#[verifier::external_body]
pub fn vowned(s: &str) -> (r: VS) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vexpect<T>(x: Option<T>) -> (r: T) ensures x == Some(r) { unimplemented!() }
#[verifier::external_body]
pub fn vu64(x: BigUint) -> (r: Result<u64>) ensures r matches Ok(v) ==> v as nat == x@, x@ <= u64::MAX ==> r is Ok { unimplemented!() }
/// the characters of a string
#[verifier::external_body]
pub fn vchars(s: &VS) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
/// `&s[a..b]` of an ASCII string; panics when out of range
#[verifier::external_body]
pub fn vsub(s: &VS, a: usize, b: usize) -> (r: VS) ensures a <= b <= s@.len(), r@ == s@.subrange(a as int, b as int) { unimplemented!() }
#[verifier::external_body]
pub fn veq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub struct NameID { x: u64 }
#[verifier::external_body] pub struct Identifier { x: u64 }
impl View for Identifier { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Identifier { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
pub struct Loc<T> { pub inner: T }
#[verifier::external_body] pub struct VecPath { x: u64 }
#[verifier::external_body] pub fn vpath() -> VecPath { unimplemented!() }

/*@ type spade-mir/src/types.rs :: Type
type: String ==> VS
@*/
/*@ type spade-types/src/lib.rs :: PrimitiveType @*/
/*@ type spade-types/src/lib.rs :: ConcreteType
drop: field_translators
@*/
// ==== widths
pub open spec fn w(t: Type) -> nat decreases t {
    match t {
        Type::Int(n) => n@,
        Type::UInt(n) => n@,
        Type::Bool => 1,
        Type::Tuple(v) => wsum(v, v.len() as nat),
        Type::Struct(v) => wfields(v, v.len() as nat),
        Type::Array { inner, length } => w(*inner) * length@,
        Type::Memory { inner, length } => w(*inner) * length@,
        Type::Enum(v) => tagw(v.len() as nat) + wmax(v, v.len() as nat),
        Type::Backward(_) => 0,
        Type::CopyView(i) => w(*i),
        Type::InOut(i) => w(*i),
    }
}
pub open spec fn wsum(v: Vec<Type>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { wsum(v, (k - 1) as nat) + w(v[k - 1]) }
}
pub open spec fn wfields(v: Vec<(VS, Type)>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { wfields(v, (k - 1) as nat) + w(v[k - 1].1) }
}
pub open spec fn wmax(v: Vec<Vec<Type>>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else {
        let r = wmax(v, (k - 1) as nat); let x = wsum(v[k - 1], v[k - 1].len() as nat);
        if x > r { x } else { r } }
}
/// total width carried against the flow direction
pub open spec fn bw(t: Type) -> nat decreases t {
    match t {
        Type::Backward(i) => w(*i),
        Type::Array { inner, length } => bw(*inner) * length@,
        Type::Tuple(v) => bsum(v, v.len() as nat),
        Type::Struct(v) => bfields(v, v.len() as nat),
        _ => 0,
    }
}
pub open spec fn bsum(v: Vec<Type>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { bsum(v, (k - 1) as nat) + bw(v[k - 1]) }
}
pub open spec fn bfields(v: Vec<(VS, Type)>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { bfields(v, (k - 1) as nat) + bw(v[k - 1].1) }
}

/*@ fn spade-mir/src/enum_util.rs :: tag_size
ensures: is_tagw($1 as nat, r as nat), r as nat == tagw($1 as nat)
@*/

/*@ fn spade-mir/src/types.rs :: Type::size
ensures: r@ == w(*self)
decreases: *self
loop 0 inv: $a0@ == wsum(*vs0, vi0 as nat)
loop 0 start: assert(decreases_to!(*vs0 => vs0[vi0 - 1]));
loop 1 inv: $a0@ == wfields(*vs1, vi1 as nat)
loop 1 start: assert(decreases_to!(*vs1 => vs1[vi1 - 1])); 
loop 2 acc: Option<BigUint>
loop 2 inv: $a0 is None <==> vi2 == 0, ($a0 matches Some(x) ==> x@ == wmax(*vs2, vi2 as nat))
loop 2 start: assert(decreases_to!(*vs2 => vs2[vi2 - 1])); 
loop 2 end: assert(wmax(*vs2, vi2 as nat) == { let r_ = wmax(*vs2, (vi2 - 1) as nat); let x_ = wsum(vs2[vi2 - 1], vs2[vi2 - 1].len() as nat); if x_ > r_ { x_ } else { r_ } });
loop 3 inv: $a0@ == wsum(*vs3, vi3 as nat)
loop 3 start: assert(decreases_to!(*vs3 => vs3[vi3 - 1])); 
@*/

/*@ fn spade-mir/src/types.rs :: Type::backward_size
ensures: r@ == bw(*self)
decreases: *self
loop 0 start: assert(decreases_to!(*vs0 => vs0[vi0 - 1]));
loop 1 start: assert(decreases_to!(*vs1 => vs1[vi1 - 1])); 
loop 2 inv: $a0@ == bsum(*vs2, vi2 as nat)
loop 2 start: assert(decreases_to!(*vs2 => vs2[vi2 - 1]));
loop 3 inv: $a0@ == bfields(*vs3, vi3 as nat)
loop 3 start: assert(decreases_to!(*vs3 => vs3[vi3 - 1])); 
@*/


proof fn lemma_wsum_cong(a: Vec<Type>, b: Vec<Type>, k: nat)
    requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures wsum(a, k) == wsum(b, k), bsum(a, k) == bsum(b, k) decreases k
{ if k > 0 { lemma_wsum_cong(a, b, (k - 1) as nat); } }
proof fn lemma_wfields_cong(a: Vec<(VS, Type)>, b: Vec<(VS, Type)>, k: nat)
    requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures wfields(a, k) == wfields(b, k), bfields(a, k) == bfields(b, k) decreases k
{ if k > 0 { lemma_wfields_cong(a, b, (k - 1) as nat); } }
proof fn lemma_wmax_cong(a: Vec<Vec<Type>>, b: Vec<Vec<Type>>, k: nat)
    requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures wmax(a, k) == wmax(b, k) decreases k
{ if k > 0 { lemma_wmax_cong(a, b, (k - 1) as nat); } }

// ---------------------------------------------------------------- the layout of a Spade type, written on the type the user sees
pub open spec fn nz(x: int) -> nat { if x >= 0 { x as nat } else { 0 } }
/// number of bits flowing in the forward direction
pub open spec fn cfw(c: ConcreteType) -> nat decreases c {
    match c {
        ConcreteType::Error => 1,
        ConcreteType::Tuple(v) => csum(v, v.len() as nat),
        ConcreteType::Struct { name, members, .. } => cfields(members, members.len() as nat),
        ConcreteType::Array { inner, size } => cfw(*inner) * nz(size@),
        ConcreteType::Enum { options } => tagw(options.len() as nat) + cmax(options, options.len() as nat),
        ConcreteType::Single { base, params } => match base {
            PrimitiveType::Bool => 1, PrimitiveType::Clock => 1, PrimitiveType::Tri => 1,
            PrimitiveType::Int => cint(params[0]), PrimitiveType::Uint => cint(params[0]),
            PrimitiveType::Memory => if params.len() == 2 { cfw(params[0]) * cint(params[1]) } else { 0 },
            PrimitiveType::InOut => if params.len() == 1 { cfw(params[0]) } else { 0 },
        },
        ConcreteType::CopyView(i) => cfw(*i),
        _ => 0,
    }
}
pub open spec fn cint(c: ConcreteType) -> nat { match c { ConcreteType::Integer(x) => nz(x@), _ => 0 } }
pub open spec fn csum(v: Vec<ConcreteType>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { csum(v, (k - 1) as nat) + cfw(v[k - 1]) }
}
pub open spec fn cfields(v: Vec<(Identifier, ConcreteType)>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { cfields(v, (k - 1) as nat) + cfw(v[k - 1].1) }
}
pub open spec fn cmax(v: Vec<(NameID, Vec<(Identifier, ConcreteType)>)>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else {
        let r = cmax(v, (k - 1) as nat); let x = cfields(v[k - 1].1, v[k - 1].1.len() as nat);
        if x > r { x } else { r } }
}
/// number of bits flowing against it
pub open spec fn cbw(c: ConcreteType) -> nat decreases c {
    match c {
        ConcreteType::Backward(i) => cfw(*i),
        ConcreteType::Tuple(v) => cbsum(v, v.len() as nat),
        ConcreteType::Struct { name, members, .. } => cbfields(members, members.len() as nat),
        ConcreteType::Array { inner, size } => cbw(*inner) * nz(size@),
        _ => 0,
    }
}
pub open spec fn cbsum(v: Vec<ConcreteType>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { cbsum(v, (k - 1) as nat) + cbw(v[k - 1]) }
}
pub open spec fn cbfields(v: Vec<(Identifier, ConcreteType)>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { cbfields(v, (k - 1) as nat) + cbw(v[k - 1].1) }
}
proof fn lemma_tagw_le1() ensures true {}

/// int<N> and uint<N>; an erroneous type is lowered to one bit
pub open spec fn is_i(c: ConcreteType) -> bool { c matches ConcreteType::Single { base, params } && base is Int }
pub open spec fn is_u(c: ConcreteType) -> bool { c is Error || (c matches ConcreteType::Single { base, params } && base is Uint) }
/*@ fn spade-mir/src/types.rs :: Type::uint
assoc: yes
ensures: w(r) == $1, bw(r) == 0, r is UInt
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <MirLowerable for ConcreteType>::to_mir_type
impl: impl ConcreteType
rettype: Type
ensures: w(r) == cfw(*self), bw(r) == cbw(*self), is_i(*self) == (r is Int), is_u(*self) == (r is UInt)
decreases: *self
loop 0 inv: vacc0.len() == vi0, wsum(vacc0, vi0 as nat) == csum(*vs0, vi0 as nat), bsum(vacc0, vi0 as nat) == cbsum(*vs0, vi0 as nat)
loop 0 start: let ghost gacc = vacc0; assert(decreases_to!(*vs0 => vs0[vi0 - 1]));
loop 0 end: proof { lemma_wsum_cong(gacc, vacc0, (vi0 - 1) as nat); }
loop 1 inv: vacc1.len() == vi1, wmax(vacc1, vi1 as nat) == cmax(*vs1, vi1 as nat)
loop 1 start: let ghost gacc = vacc1; assert(decreases_to!(*vs1 => vs1[vi1 - 1]));
loop 1 end: proof { lemma_wmax_cong(gacc, vacc1, (vi1 - 1) as nat); assert(vacc1@ == gacc@.push(vacc1[vi1 - 1])); assert(wsum(vacc1[vi1 - 1], vacc1[vi1 - 1].len() as nat) == cfields(vs1[vi1 - 1].1, vs1[vi1 - 1].1.len() as nat)); }
loop 2 inv: vacc2.len() == vi2, wsum(vacc2, vi2 as nat) == cfields(*vs2, vi2 as nat)
loop 2 start: let ghost gacc2 = vacc2; assert(decreases_to!(*vs2 => vs2[vi2 - 1]));
loop 2 end: proof { lemma_wsum_cong(gacc2, vacc2, (vi2 - 1) as nat); }
loop 3 inv: vacc3.len() == vi3, wfields(vacc3, vi3 as nat) == cfields(*vs3, vi3 as nat), bfields(vacc3, vi3 as nat) == cbfields(*vs3, vi3 as nat)
loop 3 start: let ghost gacc = vacc3; assert(decreases_to!(*vs3 => vs3[vi3 - 1]));
loop 3 end: proof { lemma_wfields_cong(gacc, vacc3, (vi3 - 1) as nat); }
@*/

