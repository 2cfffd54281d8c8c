//@include core.rs
/*@ rules
type: FxHashMap ==> VMap<@0,@1>
rule: BigUint::from($x) ==> $x.vbu()
rule: $x.to_biguint() ==> $x.vbu()
rule: $x.clone() ==> $x.vclone()
rule: eprintln!($x) ==> ()
rule: eprintln!() ==> ()
macro: eprintln ==> ()
macro: panic ==> vdiverge()
macro: unreachable ==> vdiverge()
rule: vzero() ==> BigUint::zero()
@*/
verus! {
broadcast use {group_num, lemma_flog2_pow2, lemma_tagw_is};
/*@ type spade-mir/src/types.rs :: Type @*/

pub open spec fn w(t: Type) -> nat decreases t {
    match t {
        Type::Int(n) => n@,
        Type::UInt(n) => n@,
        Type::Bool => 1,
        Type::Tuple(v) => wsum(v, v.len() as nat),
        Type::Struct(v) => wfields(v, v.len() as nat),
        Type::Array { inner, length } => w(*inner) * length@,
        Type::Memory { inner, length } => w(*inner) * length@,
        Type::Enum(v) => tagw(v.len() as nat) + wmax(v, v.len() as nat),
        Type::Backward(_) => 0,
        Type::CopyView(i) => w(*i),
        Type::InOut(i) => w(*i),
    }
}
pub open spec fn wsum(v: Vec<Type>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { wsum(v, (k - 1) as nat) + w(v[k - 1]) }
}
pub open spec fn wfields(v: Vec<(String, Type)>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { wfields(v, (k - 1) as nat) + w(v[k - 1].1) }
}
pub open spec fn wmax(v: Vec<Vec<Type>>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else {
        let r = wmax(v, (k - 1) as nat); let x = wsum(v[k - 1], v[k - 1].len() as nat);
        if x > r { x } else { r } }
}
/// total width carried against the flow direction
pub open spec fn bw(t: Type) -> nat decreases t {
    match t {
        Type::Backward(i) => w(*i),
        Type::Array { inner, length } => bw(*inner) * length@,
        Type::Tuple(v) => bsum(v, v.len() as nat),
        Type::Struct(v) => bfields(v, v.len() as nat),
        _ => 0,
    }
}
pub open spec fn bsum(v: Vec<Type>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { bsum(v, (k - 1) as nat) + bw(v[k - 1]) }
}
pub open spec fn bfields(v: Vec<(String, Type)>, k: nat) -> nat decreases v, k {
    if k == 0 || k > v.len() { 0 } else { bfields(v, (k - 1) as nat) + bw(v[k - 1].1) }
}

/*@ fn spade-mir/src/enum_util.rs :: tag_size
ensures: is_tagw($1 as nat, r as nat), r as nat == tagw($1 as nat)
@*/

/*@ fn spade-mir/src/types.rs :: Type::size
ensures: r@ == w(*self)
decreases: *self
loop 0 inv: $a0@ == wsum(*vs0, vi0 as nat)
loop 0 start: assert(decreases_to!(*vs0 => vs0[vi0 - 1]));
loop 1 inv: $a0@ == wfields(*vs1, vi1 as nat)
loop 1 start: assert(decreases_to!(*vs1 => vs1[vi1 - 1])); 
loop 2 acc: Option<BigUint>
loop 2 inv: $a0 is None <==> vi2 == 0, ($a0 matches Some(x) ==> x@ == wmax(*vs2, vi2 as nat))
loop 2 start: assert(decreases_to!(*vs2 => vs2[vi2 - 1])); 
loop 2 end: assert(wmax(*vs2, vi2 as nat) == { let r_ = wmax(*vs2, (vi2 - 1) as nat); let x_ = wsum(vs2[vi2 - 1], vs2[vi2 - 1].len() as nat); if x_ > r_ { x_ } else { r_ } });
loop 3 inv: $a0@ == wsum(*vs3, vi3 as nat)
loop 3 start: assert(decreases_to!(*vs3 => vs3[vi3 - 1])); 
@*/

/*@ fn spade-mir/src/types.rs :: Type::backward_size
ensures: r@ == bw(*self)
decreases: *self
loop 0 start: assert(decreases_to!(*vs0 => vs0[vi0 - 1]));
loop 1 start: assert(decreases_to!(*vs1 => vs1[vi1 - 1])); 
loop 2 inv: $a0@ == bsum(*vs2, vi2 as nat)
loop 2 start: assert(decreases_to!(*vs2 => vs2[vi2 - 1]));
loop 3 inv: $a0@ == bfields(*vs3, vi3 as nat)
loop 3 start: assert(decreases_to!(*vs3 => vs3[vi3 - 1])); 
@*/

}
fn main(){}
