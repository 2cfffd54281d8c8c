//@include core.rs
//@include vmap.rs
/*@ rules
type: FxHashMap ==> VMap<@0,@1>
type: HashMap ==> VMap<@0,@1>
type: String ==> VS
rule: BigUint::from($x) ==> $x.vbu()
rule: $x.clone() ==> $x.vclone()
rule: vzero() ==> BigUint::zero()
rule: Err($x) ==> Err(SErr::new())
rule: $x.to_owned() ==> vowned($x)
rule: $x.to_string() ==> vlit($x)
rule: $x.map(MirLowerable::to_mir_type) ==> $x.map(|x_| x_.to_mir_type())
rule: $x.expect($m) ==> vexpect($x)
rule: $x.unwrap() ==> vexpect($x)
rule: $x.to_u64().ok_or($e)? ==> vu64($x)?
macro: eprintln ==> ()
macro: panic ==> vdiverge()
macro: unreachable ==> vdiverge()
@*/
verus! {
broadcast use {group_num, lemma_flog2_pow2, lemma_tagw_is};
global size_of usize == 8;
//@include layout.rs
// ==== next
/*@ fn spade-types/src/lib.rs :: ConcreteType::assume_struct
ensures: *self matches ConcreteType::Struct { name, members, .. } && *r.0 == name && *r.1 == members
@*/

/*@ type spade-types/src/lib.rs :: KnownType @*/
/*@ type spade-typeinference/src/equation.rs :: KnownTypeVar @*/
/*@ type spade-simulation-ext/src/range.rs :: UptoRange
attr: #[derive(Clone, Copy)]
@*/
/*@ type spade-simulation-ext/src/field_ref.rs :: FieldSource @*/
/*@ type spade-simulation-ext/src/field_ref.rs :: FieldRef
type: Vec ==> VecPath
@*/

/*@ fn spade-simulation-ext/src/range.rs :: UptoRange::as_downto
requires: self.from <= self.to, self.to <= $1
ensures: r.0 == $1 - self.to, r.1 == $1 - self.from
@*/

/*@ fn spade-simulation-ext/src/field_ref.rs :: FieldSource::fwd_mangled
ensures: r@ == (match *self { FieldSource::Input { mangled_fwd, .. } => mangled_fwd@, FieldSource::Output {} => "input__"@ })
rule: &mangled_fwd ==> mangled_fwd.as_str()
entry: proof { reveal_strlit("input__"); }
@*/
/*@ fn spade-simulation-ext/src/field_ref.rs :: FieldSource::back_mangled
ensures: r@ == (match *self { FieldSource::Input { mangled_back, .. } => mangled_back@, FieldSource::Output {} => "output__"@ })
rule: &mangled_back ==> mangled_back.as_str()
entry: proof { reveal_strlit("output__"); }
@*/

pub open spec fn is_out(s: FieldSource) -> bool { s is Output }
/// the bits a testbench drives: the forward part of an input, the inverted part of the output
pub open spec fn driven(f: FieldRef) -> Option<UptoRange> { if is_out(f.source) { f.back_range } else { f.fwd_range } }
/// the bits a testbench observes
pub open spec fn observed(f: FieldRef) -> Option<UptoRange> { if is_out(f.source) { f.fwd_range } else { f.back_range } }

/*@ fn spade-simulation-ext/src/field_ref.rs :: FieldRef::fwd_range
ensures: r == driven(*self)
@*/
/*@ fn spade-simulation-ext/src/field_ref.rs :: FieldRef::back_range
ensures: r == observed(*self)
@*/
/*@ fn spade-simulation-ext/src/field_ref.rs :: FieldRef::write_dir_range
ensures: (driven(*self) is Some && observed(*self) is None) <==> r is Ok, r matches Ok(x) ==> Some(x) == driven(*self)
@*/
/*@ fn spade-simulation-ext/src/field_ref.rs :: FieldRef::read_dir_range
ensures: (driven(*self) is None && observed(*self) is Some) <==> r is Ok, r matches Ok(x) ==> Some(x) == observed(*self)
@*/
/*@ fn spade-simulation-ext/src/field_ref.rs :: FieldRef::write_range_and_type
requires: self.ty.1 is Inverted ==> self.ty.2.len() == 1
ensures: r matches Ok(x) ==> (driven(*self) == Some(x.0) && observed(*self) is None && (!is_out(self.source) ==> x.1 == self.ty) && (is_out(self.source) ==> (self.ty.1 is Inverted && x.1 == self.ty.2[0])))
@*/
/*@ fn spade-simulation-ext/src/field_ref.rs :: FieldRef::read_range_and_type
requires: self.ty.1 is Inverted ==> self.ty.2.len() == 1
ensures: r matches Ok(x) ==> (observed(*self) == Some(x.0) && driven(*self) is None && (is_out(self.source) ==> x.1 == self.ty) && (!is_out(self.source) ==> (self.ty.1 is Inverted && x.1 == self.ty.2[0])))
@*/

// ==== sub-ranges
#[derive(Clone, Copy)]
pub enum Dir { Fwd, Back }
/// the two size functions `field_of_field` passes to its closure `get_range`
pub open spec fn csize(d: Dir, c: ConcreteType) -> nat { match d { Dir::Fwd => cfw(c), Dir::Back => cbw(c) } }
pub open spec fn cpre(d: Dir, v: Vec<(Identifier, ConcreteType)>, k: nat) -> nat { match d { Dir::Fwd => cfields(v, k), Dir::Back => cbfields(v, k) } }
pub fn vsize(d: Dir, c: &ConcreteType) -> (r: BigUint) ensures r@ == csize(d, *c)
{ match d { Dir::Fwd => c.to_mir_type().size(), Dir::Back => c.to_mir_type().backward_size() } }
/// i is the position of the member called n
pub open spec fn is_first(v: Vec<(Identifier, ConcreteType)>, n: Seq<char>, i: int) -> bool {
    0 <= i < v.len() && v[i].0@ == n && forall|j: int| 0 <= j < i ==> (#[trigger] v[j]).0@ != n
}
/// the range of member i inside a parent that occupies o
pub open spec fn member_range(d: Dir, o: UptoRange, v: Vec<(Identifier, ConcreteType)>, i: int, u: UptoRange) -> bool {
    u.from == o.from + cpre(d, v, i as nat) && u.to == o.from + cpre(d, v, (i + 1) as nat)
        && u.is_full == (o.is_full && u.from == o.from && u.to == o.to)
}
pub open spec fn sub_ok(d: Dir, outer: Option<UptoRange>, v: Vec<(Identifier, ConcreteType)>, i: int, r: Option<UptoRange>) -> bool {
    match outer {
        None => r is None,
        Some(o) => if csize(d, v[i].1) == 0 { r is None } else { r matches Some(u) && member_range(d, o, v, i, u) },
    }
}

/*@ fn spade-simulation-ext/src/lib.rs :: Spade::field_of_field as get_range
take: get_range
sig: (struct_ty: &ConcreteType, next: &str, q0: Option<UptoRange>, q1: Dir) -> (r: Result<Option<UptoRange>>)
rule: size_fn($t) ==> vsize(size_fn, $t)
rule: $a == next ==> veq($a, next)
requires: struct_ty is Struct
ensures: forall|i: int| (#[trigger] is_first(struct_ty->members, next@, i)) ==> (r matches Ok(x) ==> sub_ok(q1, q0, struct_ty->members, i, x))
attr: #[verifier::allow_complex_invariants]
loop 0 xinv: $a0@ == cpre(q1, *vs0, vi0 as nat), $a1@ == 0, forall|j: int| 0 <= j < vi0 ==> (#[trigger] vs0[j]).0@ != next@
loop 0 ensures: (vi0 >= 1 && $a0@ == cpre(q1, *vs0, (vi0 - 1) as nat) && is_first(*vs0, next@, vi0 - 1) && $a1@ == csize(q1, vs0[vi0 - 1].1)) || (forall|j: int| 0 <= j < vs0@.len() ==> (#[trigger] vs0[j]).0@ != next@)
@*/

/*@ fn spade-simulation-ext/src/lib.rs :: concrete_ty_has_field
ensures: r == has_member(*$1, $2@)
decreases: *$1
rule: $a == field ==> veq($a, field)
loop 0 inv: vacc0 is None ==> forall|j: int| 0 <= j < vi0 ==> (#[trigger] vs0[j]).0@ != $2@, vacc0 is Some ==> exists|j: int| 0 <= j < vi0 && (#[trigger] vs0[j]).0@ == $2@
@*/
/// `o.name` can be accessed: a struct with such a member, possibly behind `inv`
pub open spec fn has_member(c: ConcreteType, n: Seq<char>) -> bool decreases c {
    match c {
        ConcreteType::Struct { members, .. } => exists|i: int| 0 <= i < members.len() && (#[trigger] members[i]).0@ == n,
        ConcreteType::Backward(i) => has_member(*i, n),
        _ => false,
    }
}

/// the ranges of a field reference obtained by accessing member i
pub open spec fn child_ok(v: Vec<(Identifier, ConcreteType)>, i: int, p: FieldRef, c: FieldRef) -> bool {
    sub_ok(Dir::Fwd, p.fwd_range, v, i, c.fwd_range) && sub_ok(Dir::Back, p.back_range, v, i, c.back_range) && c.source == p.source
}
/*@ fn spade-simulation-ext/src/lib.rs :: Spade::field_of_field as member_ref
take: result
wrap: Ok
sig: (struct_ty: &ConcreteType, next: &str, field: &FieldRef, result_type: &KnownTypeVar, path: VecPath) -> (r: Result<FieldRef>)
requires: struct_ty is Struct
rule: get_range($x, &|ty| ty.to_mir_type().size())? ==> get_range(struct_ty, next, $x, Dir::Fwd)?
rule: get_range($x, &|ty| ty.to_mir_type().backward_size())? ==> get_range(struct_ty, next, $x, Dir::Back)?
rule: result_type.resolve($a).into_known($b).ok_or_else($c)? ==> result_type.vclone()
ensures: forall|i: int| (#[trigger] is_first(struct_ty->members, next@, i)) ==> (r matches Ok(x) ==> child_ok(struct_ty->members, i, *field, x))
@*/

/// the reference to a whole port or to the whole output
pub open spec fn root_range(n: nat, r: Option<UptoRange>) -> bool {
    if n == 0 { r is None } else { r matches Some(u) && u.from == 0 && u.to == n && u.is_full }
}
/*@ fn spade-simulation-ext/src/lib.rs :: Spade::output_as_field_ref as output_ref
take: result
wrap: Ok
lets: fwd_size, back_size
sig: (concrete: &ConcreteType, ty: &KnownTypeVar) -> (r: Result<FieldRef>)
rule: ty.resolve($a).into_known($b).ok_or_else($c)? ==> ty.vclone()
rule: vec!["o".to_string()] ==> vpath()
ensures: r matches Ok(x) ==> (root_range(cfw(*concrete), x.fwd_range) && root_range(cbw(*concrete), x.back_range) && is_out(x.source))
@*/
/*@ fn spade-simulation-ext/src/lib.rs :: Spade::arg_as_field as arg_ref
take: result
wrap: Ok
lets: fwd_size, back_size
sig: (concrete: &ConcreteType, ty: KnownTypeVar, source: FieldSource, path: VecPath) -> (r: Result<FieldRef>)
ensures: r matches Ok(x) ==> (root_range(cfw(*concrete), x.fwd_range) && root_range(cbw(*concrete), x.back_range) && x.source == source)
@*/

pub struct BitString(pub VS);
impl BitString { pub fn inner(&self) -> (r: &VS) ensures *r == self.0 { &self.0 } }
/*@ fn spade-simulation-ext/src/lib.rs :: Spade::extract_field_read_bits as relevant
take: relevant_bits
sig: (output_bits: &BitString, range: UptoRange) -> (r: BitString)
rule: output_bits.inner()[$a..$b].to_owned() ==> vsub(output_bits.inner(), $a, $b)
ensures: r.0@ == output_bits.0@.subrange(range.from as int, range.to as int), range.from <= range.to <= output_bits.0@.len()
@*/

pub struct ComparisonResult { pub expected_bits: BitString, pub got_bits: BitString }
/// the observed bits agree with the expected ones wherever the expected value is defined
pub open spec fn agrees(e: Seq<char>, g: Seq<char>) -> bool {
    forall|i: int| 0 <= i < e.len() && i < g.len() ==> (#[trigger] e[i]) == 'X' || e[i] == g[i]
}
/*@ fn spade-simulation-ext/src/lib.rs :: ComparisonResult::matches
rule: $x.chars() ==> vchars(&$x).into_iter()
ensures: r == agrees(self.expected_bits.0@, self.got_bits.0@)
loop 0 inv: vacc0 ==> forall|j: int| 0 <= j < vi0 ==> (#[trigger] self.expected_bits.0@[j]) == 'X' || self.expected_bits.0@[j] == self.got_bits.0@[j], !vacc0 ==> exists|j: int| 0 <= j < wlim2 && !((#[trigger] self.expected_bits.0@[j]) == 'X' || self.expected_bits.0@[j] == self.got_bits.0@[j])
@*/

// ---------------------------------------------------------------- the layout
proof fn lemma_pre_mono(d: Dir, v: Vec<(Identifier, ConcreteType)>, a: nat, b: nat)
    requires a <= b <= v.len() ensures cpre(d, v, a) <= cpre(d, v, b) decreases b
{ if a < b { lemma_pre_mono(d, v, a, (b - 1) as nat); } }
/// every member lies inside its parent, in declaration order, and two members never share a bit
proof fn lemma_layout(d: Dir, o: UptoRange, v: Vec<(Identifier, ConcreteType)>, i: int, j: int, x: UptoRange, y: UptoRange)
    requires 0 <= i < j < v.len(), member_range(d, o, v, i, x), member_range(d, o, v, j, y), o.to - o.from == cpre(d, v, v.len() as nat),
    ensures o.from <= x.from <= x.to <= y.from <= y.to <= o.to,
        x.to - x.from == csize(d, v[i].1), y.to - y.from == csize(d, v[j].1),
{
    lemma_pre_mono(d, v, 0, i as nat); lemma_pre_mono(d, v, (i + 1) as nat, j as nat); lemma_pre_mono(d, v, (j + 1) as nat, v.len() as nat);
}
/// the bits of a struct value: its members one after the other (first member first)
pub open spec fn concat(vals: Seq<Seq<char>>, k: nat) -> Seq<char> decreases k {
    if k == 0 { Seq::empty() } else { concat(vals, (k - 1) as nat) + vals[k - 1] }
}
proof fn lemma_concat_len(d: Dir, v: Vec<(Identifier, ConcreteType)>, vals: Seq<Seq<char>>, k: nat)
    requires k <= v.len(), vals.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] vals[i]).len() == csize(d, v[i].1),
    ensures concat(vals, k).len() == cpre(d, v, k) decreases k
{ if k > 0 { lemma_concat_len(d, v, vals, (k - 1) as nat); } }
proof fn lemma_concat_sub(d: Dir, v: Vec<(Identifier, ConcreteType)>, vals: Seq<Seq<char>>, k: nat, i: int)
    requires 0 <= i < k <= v.len(), vals.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] vals[i]).len() == csize(d, v[i].1),
    ensures concat(vals, k).subrange(cpre(d, v, i as nat) as int, cpre(d, v, (i + 1) as nat) as int) == vals[i] decreases k
{
    lemma_concat_len(d, v, vals, k); lemma_concat_len(d, v, vals, (k - 1) as nat); lemma_concat_len(d, v, vals, i as nat);
    lemma_pre_mono(d, v, 0, i as nat); lemma_pre_mono(d, v, (i + 1) as nat, k);
    if i == k - 1 {
        assert(concat(vals, k).subrange(cpre(d, v, i as nat) as int, cpre(d, v, (i + 1) as nat) as int) =~= vals[i]);
    } else {
        lemma_concat_sub(d, v, vals, (k - 1) as nat, i);
        assert(concat(vals, k).subrange(cpre(d, v, i as nat) as int, cpre(d, v, (i + 1) as nat) as int)
            =~= concat(vals, (k - 1) as nat).subrange(cpre(d, v, i as nat) as int, cpre(d, v, (i + 1) as nat) as int)) by {
            lemma_pre_mono(d, v, (i + 1) as nat, (k - 1) as nat);
        }
    }
}
/// reading the range of a member of a parent whose bits are the members' values gives the member's value
proof fn lemma_read(d: Dir, o: UptoRange, v: Vec<(Identifier, ConcreteType)>, vals: Seq<Seq<char>>, bits: Seq<char>, i: int, u: UptoRange)
    requires 0 <= i < v.len(), vals.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] vals[i]).len() == csize(d, v[i].1),
        o.from <= o.to <= bits.len(), o.to - o.from == cpre(d, v, v.len() as nat),
        bits.subrange(o.from as int, o.to as int) == concat(vals, v.len() as nat), member_range(d, o, v, i, u),
    ensures bits.subrange(u.from as int, u.to as int) == vals[i]
{
    lemma_concat_sub(d, v, vals, v.len() as nat, i); lemma_pre_mono(d, v, 0, i as nat); lemma_pre_mono(d, v, (i + 1) as nat, v.len() as nat); lemma_pre_mono(d, v, i as nat, (i + 1) as nat);
    assert(bits.subrange(u.from as int, u.to as int) =~= bits.subrange(o.from as int, o.to as int).subrange(cpre(d, v, i as nat) as int, cpre(d, v, (i + 1) as nat) as int));
}
/// the Verilog range [hi-1:lo] (counted from the least significant bit) of upto range u of a signal of n bits covers exactly the same bits, and converting twice is the identity
proof fn lemma_downto(n: nat, u: UptoRange, i: int)
    requires u.from <= u.to <= n
    ensures (u.from <= i < u.to) <==> (n - u.to <= n - 1 - i < n - u.from)
{ }
}
fn main(){}
