//@include core.rs
//@include vmap.rs
/*@ rules
type: FxHashMap ==> VMap<@0,@1>
type: HashMap ==> VMap<@0,@1>
type: String ==> VS
rule: BigUint::from($x) ==> $x.vbu()
rule: BigUint::ZERO ==> BigUint::zero()
rule: vzero() ==> BigUint::zero()
rule: $x.map(MirLowerable::to_mir_type) ==> $x.map(|x_| x_.to_mir_type())
rule: $x.expect($m) ==> vexpect($x)
rule: reg.value ==> reg.inner.value
rule: reg.reset ==> reg.inner.reset
rule: reg.clock ==> reg.inner.clock
rule: reg.name ==> reg.inner.name
rule: reg.ty ==> reg.inner.ty
rule: reg.initial ==> reg.inner.initial
rule: $x.to_owned() ==> vowned($x)
rule: *inner.clone() ==> vunbox(inner)
rule: $x.clone() ==> $x.vclone()
rule: $x.at_loc($y) ==> $x.vat()
rule: $x.unzip() ==> vunzip($x.collect::<Vec<_>>())
rule: $a.into_iter().flatten().chain($b).collect() ==> vcats(vflat($a), $b)
rule: $a.into_iter().chain($b).chain($c).collect::<Vec<_>>() ==> vcats(vcats($a, $b), $c)
rule: $a.into_iter().chain($b).collect::<Vec<_>>() ==> vcats($a, $b)
rule: &$x + $y ==> $x.vclone() + $y
macro: eprintln ==> ()
macro: panic ==> vdiverge()
macro: unreachable ==> vdiverge()
macro: format ==> __vfmt
@*/
verus! {
pub mod types { #[allow(unused_imports)] pub use super::Type; }
broadcast use {group_num, lemma_flog2_pow2, lemma_tagw_is};
global size_of usize == 8;
//@include layout.rs
impl Copy for Loc<()> {}
impl Clone for Loc<()> { fn clone(&self) -> (r: Self) { Loc { inner: () } } }
impl<T> Loc<T> { pub fn vat(self) -> (r: Loc<T>) ensures r == self { self } }
impl ValueName { pub fn vat(self) -> (r: Loc<ValueName>) ensures r.inner == self { Loc { inner: self } } }
impl Statement { pub fn vat(self) -> (r: Loc<Statement>) ensures r.inner == self { Loc { inner: self } } }
impl Register { pub fn vat(self) -> (r: Loc<Register>) ensures r.inner == self { Loc { inner: self } } }
/// assumed contracts on iterator sinks
#[verifier::external_body]
pub fn vunzip<A, B>(v: Vec<(A, B)>) -> (r: (Vec<A>, Vec<B>)) ensures r.0@ == v@.map_values(|x: (A, B)| x.0), r.1@ == v@.map_values(|x: (A, B)| x.1) { unimplemented!() }
#[verifier::external_body]
pub fn vcats<A>(a: Vec<A>, b: Vec<A>) -> (r: Vec<A>) ensures r@ == a@ + b@ { unimplemented!() }
pub open spec fn flat<A>(v: Seq<Vec<A>>, k: nat) -> Seq<A> decreases k { if k == 0 { Seq::empty() } else { flat(v, (k - 1) as nat) + v[k - 1]@ } }
#[verifier::external_body]
pub fn vflat<A>(v: Vec<Vec<A>>) -> (r: Vec<A>) ensures r@ == flat(v@, v@.len()) { unimplemented!() }
#[verifier::external_body]
pub fn vunbox<T>(x: &Box<T>) -> (r: T) ensures r == **x { unimplemented!() }

/// `x.map(|_| panic!())` of an absent value
pub fn vnone<T>(x: &Option<T>) -> (r: Option<T>) requires x is None ensures r is None { None }
pub struct ExprID(pub u64);
#[verifier::external_body] pub struct ExprIdTracker { x: u64 }
impl ExprIdTracker { #[verifier::external_body] pub fn next(&self) -> (r: ExprID) { unimplemented!() } }
#[verifier::external_body] pub struct VSource { x: u64 }
/*@ type spade-mir/src/lib.rs :: ValueName
type: ValueNameSource ==> VSource
@*/
/*@ type spade-mir/src/lib.rs :: Operator
keep: Select, Alias, Concat, ConstructTuple, ConstructArray, IndexTuple, RangeIndexBits, LogicalAnd, LogicalOr, LogicalXor, Not, BitwiseAnd, BitwiseOr, BitwiseXor, Truncate
@*/
/*@ type spade-mir/src/lib.rs :: Binding @*/
/*@ type spade-mir/src/lib.rs :: Register @*/
#[verifier::external_body] pub struct ConstantValue { x: u64 }
/*@ type spade-mir/src/lib.rs :: Statement @*/

// ---------------------------------------------------------------- what statements mean
/// what makes two value names the same signal
pub enum VKey { N(u64), E(u64) }
pub open spec fn key(v: ValueName) -> VKey { match v { ValueName::Named(i, _, _) => VKey::N(i), ValueName::Expr(e) => VKey::E(e.0) } }
/// a unit's run: the declared type of every signal and its bits in every cycle, most significant bit first
pub struct Run { pub val: spec_fn(VKey, nat) -> Seq<int>, pub ty: spec_fn(VKey) -> Type, pub tick: spec_fn(VKey, nat) -> bool }
pub open spec fn val(e: Run, v: Loc<ValueName>, t: nat) -> Seq<int> { (e.val)(key(v.inner), t) }
pub open spec fn tyof(e: Run, v: Loc<ValueName>) -> Type { (e.ty)(key(v.inner)) }
pub open spec fn is_high(b: Seq<int>) -> bool { b =~= seq![1int] }
pub open spec fn is_compound(t: Type) -> bool { t is Tuple || t is Struct || t is Array }
/// the members of a compound type; an array is treated as its elements
pub open spec fn nmem(t: Type) -> nat { match t { Type::Tuple(v) => v@.len(), Type::Struct(v) => v@.len(), Type::Array { inner, length } => length@, _ => 0 } }
pub open spec fn mem(t: Type, i: int) -> Type { match t { Type::Tuple(v) => v@[i], Type::Struct(v) => v@[i].1, Type::Array { inner, length } => *inner, _ => t } }
/// bits before member k
pub open spec fn off(t: Type, k: nat) -> nat decreases k { if k == 0 { 0 } else { off(t, (k - 1) as nat) + w(mem(t, k - 1)) } }
pub open spec fn slice(b: Seq<int>, t: Type, i: nat) -> Seq<int> { b.subrange(off(t, i) as int, off(t, i + 1) as int) }
pub open spec fn cat(e: Run, ops: Seq<Loc<ValueName>>, k: nat, t: nat) -> Seq<int> decreases k { if k == 0 { Seq::empty() } else { cat(e, ops, (k - 1) as nat, t) + val(e, ops[k - 1], t) } }
/// what a bound operator computes (C02 and C03 tie the operators to the emitted text)
pub open spec fn computes(op: Operator, ops: Seq<Loc<ValueName>>, e: Run, t: nat, v: Seq<int>) -> bool {
    match op {
        Operator::Select => ops.len() == 3 ==> v == (if is_high(val(e, ops[0], t)) { val(e, ops[1], t) } else { val(e, ops[2], t) }),
        Operator::Alias => ops.len() == 1 ==> v == val(e, ops[0], t),
        Operator::IndexTuple(i) => ops.len() == 1 && is_compound(tyof(e, ops[0])) && i < nmem(tyof(e, ops[0])) && val(e, ops[0], t).len() == w(tyof(e, ops[0])) ==> v == slice(val(e, ops[0], t), tyof(e, ops[0]), i as nat),
        Operator::RangeIndexBits { start, end_exclusive } => ops.len() == 1 && start@ <= end_exclusive@ <= val(e, ops[0], t).len() ==> v == val(e, ops[0], t).subrange(val(e, ops[0], t).len() - end_exclusive@, val(e, ops[0], t).len() - start@),
        Operator::ConstructTuple => v == cat(e, ops, ops.len(), t),
        Operator::Concat => v == cat(e, ops, ops.len(), t),
        _ => true,
    }
}
/// trigger and value of a reset
pub open spec fn rc(r: Register) -> Loc<ValueName> { match r.reset { Some((c, _)) => c, None => arbitrary() } }
pub open spec fn rv(r: Register) -> Loc<ValueName> { match r.reset { Some((_, v)) => v, None => arbitrary() } }
/// what a register takes over at the end of cycle t
pub open spec fn taken(r: Register, e: Run, t: nat) -> Seq<int> {
    match r.reset { Some((c, v)) => if is_high(val(e, c, t)) { val(e, v, t) } else { val(e, r.value, t) }, None => val(e, r.value, t) }
}
pub uninterp spec fn starts(i: Vec<Loc<Statement>>, v: Seq<int>) -> bool;
pub open spec fn reg_step(r: Register, e: Run, t: nat) -> bool {
    &&& val(e, r.name, t).len() == w(r.ty)
    &&& val(e, r.name, t + 1) == (if (e.tick)(key(r.clock.inner), t) { taken(r, e, t) } else { val(e, r.name, t) })
}
pub open spec fn reg_holds(r: Register, e: Run) -> bool {
    &&& tyof(e, r.name) == r.ty
    &&& r.initial matches Some(i) ==> starts(i, val(e, r.name, 0))
    &&& forall|t: nat| #[trigger] reg_step(r, e, t)
}
pub open spec fn bind_step(b: Binding, e: Run, t: nat) -> bool { computes(b.operator, b.operands@, e, t, val(e, b.name, t)) }
pub open spec fn bind_holds(b: Binding, e: Run) -> bool { tyof(e, b.name) == b.ty && forall|t: nat| #[trigger] bind_step(b, e, t) }
/// a statement holds in every cycle
pub open spec fn holds(s: Statement, e: Run) -> bool {
    match s { Statement::Binding(b) => bind_holds(b, e), Statement::Register(r) => reg_holds(r, e), _ => true }
}
pub open spec fn all_hold(s: Seq<Loc<Statement>>, e: Run) -> bool { forall|i: int| 0 <= i < s.len() ==> holds((#[trigger] s[i]).inner, e) }
/// the operands of a register have its type
pub open spec fn fit(v: Loc<ValueName>, ty: Type, e: Run) -> bool { tyof(e, v) == ty && forall|t: nat| (#[trigger] val(e, v, t)).len() == w(ty) }
pub open spec fn fits(r: Register, e: Run) -> bool { fit(r.value, r.ty, e) && (r.reset matches Some((_, v)) ==> fit(v, r.ty, e)) }
/// the statements say at least what the register says
pub open spec fn refines(s: Seq<Loc<Statement>>, r: Register) -> bool { forall|e: Run| fits(r, e) && #[trigger] all_hold(s, e) ==> reg_holds(r, e) }

// ---------------------------------------------------------------- members of compound values
proof fn l_off_tuple(v: Vec<Type>, k: nat) requires k <= v@.len() ensures off(Type::Tuple(v), k) == wsum(v, k) decreases k { if k > 0 { l_off_tuple(v, (k - 1) as nat); } }
proof fn l_off_struct(v: Vec<(VS, Type)>, k: nat) requires k <= v@.len() ensures off(Type::Struct(v), k) == wfields(v, k) decreases k { if k > 0 { l_off_struct(v, (k - 1) as nat); } }
proof fn l_off_array(i: Box<Type>, n: BigUint, k: nat) ensures off(Type::Array { inner: i, length: n }, k) == w(*i) * k decreases k {
    if k > 0 { l_off_array(i, n, (k - 1) as nat); assert(w(*i) * k == w(*i) * (k - 1) + w(*i)) by (nonlinear_arith) requires k > 0; } else { assert(w(*i) * k == 0) by (nonlinear_arith) requires k == 0; }
}
proof fn l_off_all(t: Type) requires is_compound(t) ensures off(t, nmem(t)) == w(t)
{
    match t { Type::Tuple(v) => l_off_tuple(v, v@.len()), Type::Struct(v) => l_off_struct(v, v@.len()), Type::Array { inner, length } => l_off_array(inner, length, length@), _ => {} }
}
proof fn l_off_mono(t: Type, a: nat, b: nat) requires a <= b ensures off(t, a) <= off(t, b) decreases b { if a < b { l_off_mono(t, a, (b - 1) as nat); } }
/// slice i has the width of member i
proof fn l_slice(b: Seq<int>, t: Type, i: nat) requires is_compound(t), i < nmem(t), b.len() == w(t) ensures slice(b, t, i).len() == w(mem(t, i as int)), off(t, i + 1) <= b.len()
{ l_off_all(t); l_off_mono(t, i + 1, nmem(t)); l_off_mono(t, i, i + 1); }
/// the first k slices side by side
pub open spec fn slices(b: Seq<int>, t: Type, k: nat) -> Seq<int> decreases k { if k == 0 { Seq::empty() } else { slices(b, t, (k - 1) as nat) + slice(b, t, (k - 1) as nat) } }
proof fn l_slices(b: Seq<int>, t: Type, k: nat) requires is_compound(t), k <= nmem(t), b.len() == w(t) ensures slices(b, t, k) == b.subrange(0, off(t, k) as int), off(t, k) <= b.len() decreases k
{
    l_off_all(t); l_off_mono(t, k, nmem(t));
    if k > 0 { l_slices(b, t, (k - 1) as nat); l_slice(b, t, (k - 1) as nat); l_off_mono(t, (k - 1) as nat, k); assert(slices(b, t, k) =~= b.subrange(0, off(t, k) as int)); }
    else { assert(slices(b, t, k) =~= b.subrange(0, 0)); }
}
proof fn l_whole(b: Seq<int>, t: Type) requires is_compound(t), b.len() == w(t) ensures slices(b, t, nmem(t)) == b
{ l_slices(b, t, nmem(t)); l_off_all(t); assert(b.subrange(0, b.len() as int) =~= b); }
proof fn l_flat(v: Seq<Vec<Loc<Statement>>>, k: nat, j: int, e: Run)
    requires 0 <= j < k <= v.len(), all_hold(flat(v, k), e) ensures all_hold(v[j]@, e) decreases k
{
    let a = flat(v, (k - 1) as nat); let b = v[k - 1]@;
    if j == k - 1 { assert forall|i: int| 0 <= i < b.len() implies holds((#[trigger] b[i]).inner, e) by { assert(flat(v, k)[a.len() + i] == b[i]); } }
    else { assert forall|i: int| 0 <= i < a.len() implies holds((#[trigger] a[i]).inner, e) by { assert(flat(v, k)[i] == a[i]); } l_flat(v, (k - 1) as nat, j, e); }
}
proof fn l_parts(a: Seq<Loc<Statement>>, b: Seq<Loc<Statement>>, e: Run) requires all_hold(a + b, e) ensures all_hold(a, e), all_hold(b, e)
{
    assert forall|i: int| 0 <= i < a.len() implies holds((#[trigger] a[i]).inner, e) by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies holds((#[trigger] b[i]).inner, e) by { assert((a + b)[a.len() + i] == b[i]); }
}
/// a signal that always holds member i of the register
pub open spec fn part(n: Loc<ValueName>, r: Register, i: nat, e: Run, t: nat) -> bool {
    &&& val(e, n, t).len() == w(mem(r.ty, i as int))
    &&& val(e, n, t + 1) == (if (e.tick)(key(r.clock.inner), t) { slice(taken(r, e, t), r.ty, i) } else { val(e, n, t) })
}
pub open spec fn splits(s: Seq<Loc<Statement>>, n: Loc<ValueName>, r: Register, i: nat) -> bool { forall|e: Run| fits(r, e) && #[trigger] all_hold(s, e) ==> forall|t: nat| #[trigger] part(n, r, i, e, t) }
proof fn l_cat(e: Run, ops: Seq<Loc<ValueName>>, r: Register, k: nat, t: nat)
    requires k <= ops.len(), ops.len() == nmem(r.ty), is_compound(r.ty), forall|i: int, t: nat| 0 <= i < ops.len() ==> #[trigger] part(ops[i], r, i as nat, e, t)
    ensures cat(e, ops, k, t).len() == off(r.ty, k), cat(e, ops, k, t + 1) == (if (e.tick)(key(r.clock.inner), t) { slices(taken(r, e, t), r.ty, k) } else { cat(e, ops, k, t) })
    decreases k
{ if k > 0 { l_cat(e, ops, r, (k - 1) as nat, t); assert(part(ops[k - 1], r, (k - 1) as nat, e, t)); } }
/// putting the parts together gives the register
pub open spec fn joins(ss: Seq<Vec<Loc<Statement>>>, last: Seq<Loc<Statement>>, r: Register) -> bool {
    last.len() == 1 && (last[0].inner matches Statement::Binding(b) && b.operator == Operator::ConstructTuple && b.name == r.name && b.ty == r.ty && b.operands@.len() == nmem(r.ty) && ss.len() == b.operands@.len()
        && forall|i: int| 0 <= i < ss.len() ==> #[trigger] splits(ss[i]@, b.operands@[i], r, i as nat))
}
broadcast proof fn l_together(ss: Seq<Vec<Loc<Statement>>>, last: Seq<Loc<Statement>>, r: Register)
    requires is_compound(r.ty), r.initial is None, joins(ss, last, r)
    ensures #[trigger] refines(flat(ss, ss.len()) + last, r)
{
    let s = flat(ss, ss.len()) + last;
    let b = last[0].inner->Binding_0;
    let ops = b.operands@;
    assert forall|e: Run| fits(r, e) && #[trigger] all_hold(s, e) implies reg_holds(r, e) by {
        l_parts(flat(ss, ss.len()), last, e);
        assert(holds(last[0].inner, e));
        assert forall|i: int, t: nat| 0 <= i < ops.len() implies #[trigger] part(ops[i], r, i as nat, e, t) by { l_flat(ss, ss.len(), i, e); assert(splits(ss[i]@, ops[i], r, i as nat)); }
        assert forall|t: nat| #[trigger] reg_step(r, e, t) by {
            l_cat(e, ops, r, ops.len(), t); l_cat(e, ops, r, ops.len(), t + 1); l_off_all(r.ty);
            assert(bind_step(b, e, t)); assert(bind_step(b, e, t + 1));
            assert(val(e, r.value, t).len() == w(r.ty));
            if r.reset is Some { assert(val(e, rv(r), t).len() == w(r.ty)); }
            l_whole(taken(r, e, t), r.ty);
        }
    }
}
broadcast proof fn l_refines_tail(a: Seq<Loc<Statement>>, b: Seq<Loc<Statement>>, m: Register)
    requires refines(b, m) ensures #[trigger] refines(a + b, m)
{ assert forall|e: Run| fits(m, e) && #[trigger] all_hold(a + b, e) implies reg_holds(m, e) by { l_parts(a, b, e); assert(all_hold(b, e)); } }
/// one member: an index into the value (and into the reset value) and a register for it
proof fn l_member(s: Seq<Loc<Statement>>, b: Binding, c: Option<Binding>, m: Register, r: Register, i: nat)
    requires is_compound(r.ty), i < nmem(r.ty), i <= u64::MAX, refines(s, m), m.initial is None,
        b.operator == Operator::IndexTuple(i as u64), b.operands@ =~= seq![r.value], b.name == m.value, b.ty == mem(r.ty, i as int), m.ty == b.ty, m.clock == r.clock,
        m.reset is Some == r.reset is Some, c is Some == r.reset is Some,
        c matches Some(c) ==> c.operator == Operator::IndexTuple(i as u64) && c.operands@ =~= seq![rv(r)] && c.name == rv(m) && rc(m) == rc(r) && c.ty == b.ty,
        s.len() > 0, s[0].inner == Statement::Binding(b), c matches Some(c) ==> s.len() > 1 && s[1].inner == Statement::Binding(c),
    ensures splits(s, m.name, r, i)
{
    assert forall|e: Run| fits(r, e) && #[trigger] all_hold(s, e) implies forall|t: nat| #[trigger] part(m.name, r, i, e, t) by {
        assert(holds(s[0].inner, e)); if c is Some { assert(holds(s[1].inner, e)); }
        assert forall|t: nat| (#[trigger] val(e, m.value, t)).len() == w(m.ty) && val(e, m.value, t) == slice(val(e, r.value, t), r.ty, i) by {
            assert(bind_step(b, e, t)); assert(b.operands@[0] == r.value); assert(val(e, r.value, t).len() == w(r.ty)); l_slice(val(e, r.value, t), r.ty, i);
        }
        if let Some(cc) = c {
            let rr = rv(r);
            assert forall|t: nat| (#[trigger] val(e, rv(m), t)).len() == w(m.ty) && val(e, rv(m), t) == slice(val(e, rr, t), r.ty, i) by {
                assert(bind_step(cc, e, t)); assert(cc.operands@[0] == rr); assert(val(e, rr, t).len() == w(r.ty)); l_slice(val(e, rr, t), r.ty, i);
            }
        }
        assert(fits(m, e));
        assert(reg_holds(m, e));
        assert forall|t: nat| #[trigger] part(m.name, r, i, e, t) by { assert(reg_step(m, e, t)); assert(val(e, m.value, t).len() == w(m.ty)); if c is Some { assert(val(e, rv(m), t).len() == w(m.ty)); } }
    }
}
pub open spec fn all_split(v: Seq<(Loc<ValueName>, Vec<Loc<Statement>>)>, r: Register) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] splits(v[i].1@, v[i].0, r, i as nat) }
pub open spec fn bnd(s: Loc<Statement>) -> Binding { match s.inner { Statement::Binding(b) => b, _ => arbitrary() } }
/// the element just generated is the split of member i
proof fn l_push(v: Seq<(Loc<ValueName>, Vec<Loc<Statement>>)>, r: Register, m: Register)
    requires v.len() > 0, all_split(v.drop_last(), r), is_compound(r.ty), v.len() <= nmem(r.ty), v.len() <= u64::MAX,
        ({ let i = (v.len() - 1) as nat; let x = v.last(); let s = x.1@; let b = bnd(s[0]); let c = bnd(s[1]);
           s.len() > 0 && s[0].inner is Binding && refines(s, m) && b.operator == Operator::IndexTuple(i as u64) && b.operands@ =~= seq![r.value] && b.ty == mem(r.ty, i as int)
           && m.name == x.0 && m.ty == b.ty && m.clock == r.clock && m.initial is None && m.value == b.name
           && (match r.reset { None => m.reset is None, Some((a, d)) => s.len() > 1 && s[1].inner is Binding && c.operator == Operator::IndexTuple(i as u64) && c.operands@ =~= seq![d] && c.ty == b.ty && m.reset == Some((a, c.name)) }) }),
    ensures all_split(v, r)
{
    let s = v.last().1@;
    l_member(s, bnd(s[0]), if r.reset is Some { Some(bnd(s[1])) } else { None }, m, r, (v.len() - 1) as nat);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] splits(v[i].1@, v[i].0, r, i as nat) by { if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); assert(splits(v.drop_last()[i].1@, v.drop_last()[i].0, r, i as nat)); } }
}
pub open spec fn mreg(v: Seq<(Loc<ValueName>, Vec<Loc<Statement>>)>, r: Register) -> Register {
    let x = v.last(); let s = x.1@;
    Register { name: x.0, ty: bnd(s[0]).ty, clock: r.clock, reset: match r.reset { None => None, Some((a, d)) => Some((a, bnd(s[1]).name)) }, initial: None, value: bnd(s[0]).name, loc: None }
}

/*@ fn spade-mir/src/passes/split_compound_regs.rs :: generate_split_code
requires:
  is_compound($1.inner.ty), $2@.len() == nmem($1.inner.ty), forall|i: int| 0 <= i < $2@.len() ==> #[trigger] $2@[i] == mem($1.inner.ty, i), $1.inner.initial is None
ensures: refines(r@, $1.inner)
attr: #[verifier::exec_allows_no_decreases_clause]
entry: broadcast use {l_together, l_refines_tail};
loop 0 inv: vacc0@.len() == vi0, all_split(vacc0@, $1.inner)
loop 0 start: let ghost old_acc = vacc0@;
loop 0 end: proof { assert(vacc0@.drop_last() =~= old_acc); l_push(vacc0@, $1.inner, mreg(vacc0@, $1.inner)); }
@*/
pub open spec fn are_mems(v: Seq<Type>, k: nat, t: Type) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> #[trigger] v[i] == mem(t, i) }
proof fn l_same(r: Register) ensures refines(seq![Loc { inner: Statement::Register(r) }], r)
{ let s = seq![Loc { inner: Statement::Register(r) }]; assert forall|e: Run| fits(r, e) && #[trigger] all_hold(s, e) implies reg_holds(r, e) by { assert(holds(s[0].inner, e)); } }
/*@ fn spade-mir/src/passes/split_compound_regs.rs :: split_compound_reg
ensures: refines(r@, $1.inner)
attr: #[verifier::exec_allows_no_decreases_clause]
entry: proof { l_same($1.inner); assert(forall|v: Vec<Loc<Statement>>| v@.len() == 1 && v@[0] == (Loc { inner: Statement::Register($1.inner) }) ==> #[trigger] v@ =~= seq![Loc { inner: Statement::Register($1.inner) }]); }
loop 0 inv: are_mems(vacc0@, vi0 as nat, $1.inner.ty)
loop 1 inv: are_mems(vacc1@, vi1 as nat, $1.inner.ty)
@*/

/// every register's operands have its type
pub open spec fn all_fit(s: Seq<Loc<Statement>>, e: Run) -> bool { forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]).inner matches Statement::Register(r) ==> fits(r, e)) }
/// the new statements say at least what the old ones say
pub open spec fn keeps(new: Seq<Loc<Statement>>, old: Seq<Loc<Statement>>) -> bool { forall|e: Run| all_fit(old, e) && #[trigger] all_hold(new, e) ==> all_hold(old, e) }
/// one statement of the old list done
pub open spec fn stands_for(add: Seq<Loc<Statement>>, s: Statement) -> bool { match s { Statement::Register(r) => refines(add, r), _ => add.len() == 1 && add[0].inner == s } }
proof fn l_step(acc: Seq<Loc<Statement>>, add: Seq<Loc<Statement>>, old: Seq<Loc<Statement>>, k: int)
    requires 0 < k <= old.len(), keeps(acc, old.take(k - 1)), stands_for(add, old[k - 1].inner) ensures keeps(acc + add, old.take(k))
{
    assert forall|e: Run| all_fit(old.take(k), e) && #[trigger] all_hold(acc + add, e) implies all_hold(old.take(k), e) by {
        l_parts(acc, add, e);
        assert forall|i: int| 0 <= i < k - 1 implies ((#[trigger] old.take(k - 1)[i]).inner matches Statement::Register(r) ==> fits(r, e)) by { assert(old.take(k)[i] == old.take(k - 1)[i]); }
        assert(all_hold(old.take(k - 1), e));
        assert forall|i: int| 0 <= i < k implies holds((#[trigger] old.take(k)[i]).inner, e) by {
            if i < k - 1 { assert(old.take(k)[i] == old.take(k - 1)[i]); }
            else { let s = old.take(k)[i]; if let Statement::Register(r) = s.inner { assert(fits(r, e)); assert(all_hold(add, e)); } else { assert(holds(add[0].inner, e)); } }
        }
    }
}
/*@ fn spade-mir/src/passes/split_compound_regs.rs :: <MirPass for SplitCompoundRegs>::transform_statements as split_transform
sig: (stmts: &[Loc<Statement>], expr_idtracker: &ExprIdTracker) -> (r: Vec<Loc<Statement>>)
ensures: keeps(r@, stmts@)
loop 0 inv: keeps(vacc0@, stmts@.take(vi0 as int))
loop 1 inv: vacc0@ == acc0 + vs1@.take(vi1 as int)
loop 0 start: let ghost acc0 = vacc0@;
loop 1 after: proof { assert(vs1@.take(vi1 as int) =~= vs1@); l_step(acc0, vs1@, stmts@, vi0 as int); }
loop 0 after: proof { assert(stmts@.take(vi0 as int) =~= stmts@); }
@*/
/// a statement naming bits a..b of a value
pub open spec fn is_cut(s: Loc<Statement>, n: Loc<ValueName>, v: Loc<ValueName>, a: nat, b: nat, ty: Type) -> bool {
    s.inner matches Statement::Binding(x) && x.name == n && x.ty == ty && x.operands@ =~= seq![v] && (x.operator matches Operator::RangeIndexBits { start, end_exclusive } && start@ == a && end_exclusive@ == b)
}
/*@ fn spade-mir/src/passes/auto_clock_gating.rs :: split_trivial_tag_value
requires: $2@.len() > 1
ensures:
  final($3)@ =~= old($3)@ + seq![final($3)@[old($3)@.len() as int], final($3)@[old($3)@.len() as int + 1]], is_cut(final($3)@[old($3)@.len() as int], r.0, *$1, wsum($2@[1], $2@[1]@.len()), wsum($2@[1], $2@[1]@.len()) + 1, Type::Bool), is_cut(final($3)@[old($3)@.len() as int + 1], r.1, *$1, 0, wsum($2@[1], $2@[1]@.len()), Type::Tuple($2@[1]))
loop 0 inv: vacc0@ == wsum($2@[1], vi0 as nat)
@*/
/// equal, or both the first variant (which has no payload) with any bits after the tag
pub open spec fn alike(a: Seq<int>, b: Seq<int>) -> bool { a.len() == b.len() && a.len() > 0 && a[0] == b[0] && (a[0] == 1 ==> a == b) }
pub open spec fn gate_step(r: Register, e: Run, t: nat) -> bool {
    &&& val(e, r.name, t).len() == w(r.ty)
    &&& if (e.tick)(key(r.clock.inner), t) { alike(val(e, r.name, t + 1), taken(r, e, t)) } else { val(e, r.name, t + 1) == val(e, r.name, t) }
}
/// the statements say what the register says, up to the unused bits of the variant without payload
pub open spec fn gates(s: Seq<Loc<Statement>>, r: Register) -> bool {
    forall|e: Run| fits(r, e) && #[trigger] all_hold(s, e) ==> tyof(e, r.name) == r.ty && forall|t: nat| #[trigger] gate_step(r, e, t)
}
pub open spec fn evars(t: Type) -> Vec<Vec<Type>> { match t { Type::Enum(v) => v, _ => arbitrary() } }
pub open spec fn greg(s: Loc<Statement>) -> Register { match s.inner { Statement::Register(r) => r, _ => arbitrary() } }
pub open spec fn is_gated(s: Seq<Loc<Statement>>, r: Register) -> bool {
    let v = evars(r.ty); let p = wsum(v@[1], v@[1]@.len()); let o: int = if r.reset is Some { 2 } else { 0 };
    let tg = greg(s[2 + o]); let sel = bnd(s[3 + o]); let pg = greg(s[4 + o]); let out = bnd(s[5 + o]);
    &&& r.ty is Enum && v@.len() == 2 && v@[0]@.len() == 0 && s.len() == 6 + o
    &&& is_cut(s[0], bnd(s[0]).name, r.value, p, p + 1, Type::Bool) && is_cut(s[1], bnd(s[1]).name, r.value, 0, p, Type::Tuple(v@[1]))
    &&& (r.reset is Some ==> is_cut(s[2], bnd(s[2]).name, rv(r), p, p + 1, Type::Bool) && is_cut(s[3], bnd(s[3]).name, rv(r), 0, p, Type::Tuple(v@[1])))
    &&& s[2 + o].inner is Register && tg.ty == Type::Bool && tg.clock == r.clock && tg.initial is None && tg.value == bnd(s[0]).name
    &&& (match r.reset { None => tg.reset is None, Some((c, d)) => tg.reset == Some((c, bnd(s[2]).name)) })
    &&& s[3 + o].inner is Binding && sel.operator == Operator::Select && sel.operands@ =~= seq![bnd(s[0]).name, bnd(s[1]).name, pg.name]
    &&& s[4 + o].inner is Register && pg.ty == Type::Tuple(v@[1]) && pg.clock == r.clock && pg.initial is None && pg.value == sel.name
    &&& (match r.reset { None => pg.reset is None, Some((c, d)) => pg.reset == Some((c, bnd(s[3]).name)) })
    &&& s[5 + o].inner is Binding && out.operator == Operator::Concat && out.operands@ =~= seq![tg.name, pg.name] && out.name == r.name && out.ty == r.ty
}
proof fn l_w2(v: Vec<Vec<Type>>) requires v@.len() == 2, v@[0]@.len() == 0 ensures w(Type::Enum(v)) == 1 + wsum(v@[1], v@[1]@.len()), w(Type::Tuple(v@[1])) == wsum(v@[1], v@[1]@.len()), w(Type::Bool) == 1
{
    assert(pow2(0) == 1 && pow2(1) == 2) by { vstd::arithmetic::power2::lemma2_to64(); }
    assert(is_tagw(2, 1)); lemma_tagw(2, 1);
    assert(wmax(v, 0) == 0); assert(wsum(v@[0], 0) == 0); assert(wmax(v, 1) == 0);
    assert(wmax(v, 2) == wsum(v@[1], v@[1]@.len()));
}
/// the two cuts of a value are its first bit and the rest
proof fn l_cuts(s: Seq<Loc<Statement>>, k: int, v: Loc<ValueName>, p: nat, ty: Type, e: Run, t: nat)
    requires 0 <= k < s.len() - 1, all_hold(s, e), val(e, v, t).len() == p + 1, is_cut(s[k], bnd(s[k]).name, v, p, p + 1, Type::Bool), is_cut(s[k + 1], bnd(s[k + 1]).name, v, 0, p, ty)
    ensures val(e, bnd(s[k]).name, t) == val(e, v, t).subrange(0, 1), val(e, bnd(s[k + 1]).name, t) == val(e, v, t).subrange(1, p as int + 1)
{
    let a = bnd(s[k]); let b = bnd(s[k + 1]);
    assert(holds(s[k].inner, e)); assert(holds(s[k + 1].inner, e)); assert(bind_step(a, e, t)); assert(bind_step(b, e, t));
    assert(a.operands@[0] == v && b.operands@[0] == v);
}
proof fn l_cat2(e: Run, ops: Seq<Loc<ValueName>>, t: nat) requires ops.len() == 2 ensures cat(e, ops, 2, t) == val(e, ops[0], t) + val(e, ops[1], t)
{ assert(cat(e, ops, 0, t) =~= Seq::empty()); assert(cat(e, ops, 1, t) =~= val(e, ops[0], t)); }
proof fn l_gate_step(s: Seq<Loc<Statement>>, r: Register, e: Run, t: nat) requires is_gated(s, r), fits(r, e), all_hold(s, e) ensures gate_step(r, e, t)
{
    let v = evars(r.ty); let p = wsum(v@[1], v@[1]@.len()); let o: int = if r.reset is Some { 2 } else { 0 };
    let tg = greg(s[2 + o]); let sel = bnd(s[3 + o]); let pg = greg(s[4 + o]); let out = bnd(s[5 + o]);
    l_w2(v);
    assert(val(e, r.value, t).len() == p + 1);
    l_cuts(s, 0, r.value, p, Type::Tuple(v@[1]), e, t);
    if r.reset is Some { assert(val(e, rv(r), t).len() == p + 1); l_cuts(s, 2, rv(r), p, Type::Tuple(v@[1]), e, t); }
    assert(holds(s[2 + o].inner, e)); assert(holds(s[3 + o].inner, e)); assert(holds(s[4 + o].inner, e)); assert(holds(s[5 + o].inner, e));
    assert(reg_step(tg, e, t)); assert(reg_step(tg, e, t + 1)); assert(reg_step(pg, e, t)); assert(reg_step(pg, e, t + 1));
    assert(bind_step(sel, e, t)); assert(bind_step(out, e, t)); assert(bind_step(out, e, t + 1));
    l_cat2(e, out.operands@, t); l_cat2(e, out.operands@, t + 1);
    assert(sel.operands@.len() == 3); assert(out.operands@.len() == 2);
    assert(sel.operands@[0] == bnd(s[0]).name && sel.operands@[1] == bnd(s[1]).name && sel.operands@[2] == pg.name);
    assert(out.operands@[0] == tg.name && out.operands@[1] == pg.name);
    let x = taken(r, e, t);
    assert(x.len() == p + 1);
    assert(x.subrange(0, 1) + x.subrange(1, p as int + 1) =~= x);
    if (e.tick)(key(r.clock.inner), t) {
        assert(taken(tg, e, t) == x.subrange(0, 1));
        let a = val(e, r.name, t + 1);
        assert(a[0] == x[0]);
        if x[0] == 1 { assert(is_high(x.subrange(0, 1))); assert(taken(pg, e, t) == x.subrange(1, p as int + 1)); assert(a == x); }
    }
}
broadcast proof fn l_gate(s: Seq<Loc<Statement>>, r: Register) requires is_gated(s, r) ensures #[trigger] gates(s, r)
{
    assert forall|e: Run| fits(r, e) && #[trigger] all_hold(s, e) implies tyof(e, r.name) == r.ty && forall|t: nat| #[trigger] gate_step(r, e, t) by {
        let o: int = if r.reset is Some { 2 } else { 0 }; assert(holds(s[5 + o].inner, e));
        assert forall|t: nat| #[trigger] gate_step(r, e, t) by { l_gate_step(s, r, e, t); }
    }
}
/*@ fn spade-mir/src/passes/auto_clock_gating.rs :: <RegExt for Loc>::perform_trivial_gating
sig: (this: &Register, expr_idtracker: &ExprIdTracker) -> (r: Option<Vec<Loc<Statement>>>)
ensures: r matches Some(s) ==> gates(s@, *this)
entry: broadcast use l_gate;
rule: self ==> this
rule: this.initial.as_ref().map(|_| $e) ==> vnone(&this.initial)
@*/

/// a statement, or a register up to the unused bits of the variant without payload
pub open spec fn gholds(s: Statement, e: Run) -> bool { match s { Statement::Register(r) => reg_holds(r, e) || (tyof(e, r.name) == r.ty && forall|t: nat| #[trigger] gate_step(r, e, t)), _ => holds(s, e) } }
pub open spec fn all_gold(s: Seq<Loc<Statement>>, e: Run) -> bool { forall|i: int| 0 <= i < s.len() ==> gholds((#[trigger] s[i]).inner, e) }
pub open spec fn gkeeps(new: Seq<Loc<Statement>>, old: Seq<Loc<Statement>>) -> bool { forall|e: Run| all_fit(old, e) && #[trigger] all_hold(new, e) ==> all_gold(old, e) }
pub open spec fn gstands(add: Seq<Loc<Statement>>, s: Statement) -> bool { add.len() == 1 && add[0].inner == s || (s matches Statement::Register(r) && gates(add, r)) }
proof fn l_gstep(acc: Seq<Loc<Statement>>, add: Seq<Loc<Statement>>, old: Seq<Loc<Statement>>, k: int)
    requires 0 < k <= old.len(), gkeeps(acc, old.take(k - 1)), gstands(add, old[k - 1].inner) ensures gkeeps(acc + add, old.take(k))
{
    assert forall|e: Run| all_fit(old.take(k), e) && #[trigger] all_hold(acc + add, e) implies all_gold(old.take(k), e) by {
        l_parts(acc, add, e);
        assert forall|i: int| 0 <= i < k - 1 implies ((#[trigger] old.take(k - 1)[i]).inner matches Statement::Register(r) ==> fits(r, e)) by { assert(old.take(k)[i] == old.take(k - 1)[i]); }
        assert(all_gold(old.take(k - 1), e));
        assert forall|i: int| 0 <= i < k implies gholds((#[trigger] old.take(k)[i]).inner, e) by {
            if i < k - 1 { assert(old.take(k)[i] == old.take(k - 1)[i]); }
            else { let s = old.take(k)[i]; if let Statement::Register(r) = s.inner { assert(fits(r, e)); } if add.len() == 1 && add[0].inner == s.inner { assert(holds(add[0].inner, e)); } else { assert(all_hold(add, e)); } }
        }
    }
}
/*@ fn spade-mir/src/passes/auto_clock_gating.rs :: <MirPass for AutoGating>::transform_statements as gating_transform
sig: (stmts: &[Loc<Statement>], expr_idtracker: &ExprIdTracker) -> (r: Vec<Loc<Statement>>)
ensures: gkeeps(r@, stmts@)
rule: $x.unwrap_or_else(|| $y) ==> (match $x { Some(z_) => z_, None => $y })
rule: $x.vat().perform_trivial_gating($z) ==> perform_trivial_gating($x, $z)
loop 0 inv: gkeeps(vacc0@, stmts@.take(vi0 as int))
loop 1 inv: vacc0@ == acc0 + vs1@.take(vi1 as int)
loop 0 start: let ghost acc0 = vacc0@;
loop 1 after: proof { assert(vs1@.take(vi1 as int) =~= vs1@); l_gstep(acc0, vs1@, stmts@, vi0 as int); }
loop 0 after: proof { assert(stmts@.take(vi0 as int) =~= stmts@); }
@*/
}
fn main() {}
