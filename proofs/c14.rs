//@include core.rs
/*@ rules
rule: current_stage + time ==> vplus(current_stage, time)
type: HashMap ==> NMap<@1>
type: FxHashMap ==> NMap<@1>
type: BTreeMap ==> NMap<@1>
rule: $x.clone() ==> $x.vclone()
rule: HashMap::default() ==> NMap::new()
rule: $x.at_loc($y) ==> vloc($x)
rule: $x.near_loc($y) ==> vloc($x)
rule: $x.nowhere() ==> vloc($x)
rule: $x.loc() ==> vl()
rule: &self.inner.last().unwrap()[$o] ==> self.inner.last().unwrap().at($o)
rule: self.inner.last_mut().unwrap().insert($k, $v) ==> vins_last(&mut self.inner, $k, $v)
rule: $t.to_mir_type().size() == BigUint::zero() ==> vzerosize(&$t)
rule: original.1.tail() ==> vl()
rule: Identifier::intern($x) ==> vl()
rule: original.1.pop().push_ident($x) ==> vl()
rule: symtab.new_name($p) ==> symtab.new_name(Ghost(ids_used(*self, result.view())))
macro: format ==> ()
macro: unreachable ==> vpanic()
@*/
verus! {
global size_of usize == 8;
// ---------------------------------------------------------------- names, maps, places
/// a name: equality of names is equality of ids (spade-common/src/name.rs)
pub struct NameID(pub u64);
pub struct Loc<T> { pub inner: T }
pub fn vloc<T>(x: T) -> (r: Loc<T>) ensures r.inner == x { Loc { inner: x } }
pub fn vl() -> (r: Loc<()>) { Loc { inner: () } }
#[verifier::external_body]
pub fn vcloned<T>(x: Option<&T>) -> (r: Option<T>) ensures r == (match x { Some(v) => Some(*v), None => None }) { unimplemented!() }
#[verifier::external_body]
pub struct SErr { x: u8 }
impl SErr { #[verifier::external_body] pub fn new() -> (r: SErr) { unimplemented!() } }
pub type Result<T> = core::result::Result<T, SErr>;
/// assumed contract on hash maps and tree maps with names as keys: a finite map from ids
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct NMap<V> { x: Vec<V> }
impl<V> View for NMap<V> { type V = Map<u64, V>; uninterp spec fn view(&self) -> Map<u64, V>; }
pub trait AsId { spec fn id(&self) -> u64; }
impl AsId for NameID { open spec fn id(&self) -> u64 { self.0 } }
impl AsId for Loc<NameID> { open spec fn id(&self) -> u64 { self.inner.0 } }
impl<V> NMap<V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<u64, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: NameID, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.0, v), r == (if old(self)@.dom().contains(k.0) { Some(old(self)@[k.0]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<K: AsId>(&self, k: &K) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(k.id()) { Some(&self@[k.id()]) } else { None }) { unimplemented!() }
    /// indexing: panics when the key is missing
    #[verifier::external_body]
    pub fn at<K: AsId>(&self, k: &K) -> (r: &V)
        requires self@.dom().contains(k.id()) ensures *r == self@[k.id()] { unimplemented!() }
}
/// insertion into the last map of a vector
#[verifier::external_body]
pub fn vins_last<V>(v: &mut Vec<NMap<V>>, k: NameID, x: V)
    requires old(v)@.len() > 0
    ensures final(v)@.len() == old(v)@.len(), forall|i: int| 0 <= i < old(v)@.len() - 1 ==> final(v)@[i] == old(v)@[i],
        final(v)@.last()@ == old(v)@.last()@.insert(k.0, x) { unimplemented!() }
#[verifier::external_body] pub struct BigInt { x: u64 }
/*@ type spade-types/src/lib.rs :: ConcreteType
keep: Integer
@*/
pub uninterp spec fn zero_sized(t: ConcreteType) -> bool;
/// `ty.to_mir_type().size() == 0` (widths are C08's subject)
#[verifier::external_body]
pub fn vzerosize(t: &ConcreteType) -> (r: bool) ensures r == zero_sized(*t) { unimplemented!() }
/// the frozen symbol table: `new_name` returns a name that differs from every name that exists
#[verifier::external_body] pub struct FrozenSymtab { x: u64 }
impl FrozenSymtab {
    #[verifier::external_body]
    pub fn new_name(&self, used: Ghost<spec_fn(u64) -> bool>) -> (r: NameID) ensures !used@(r.0) { unimplemented!() }
}

// ---------------------------------------------------------------- what a pipeline does
/*@ type spade-hir-lowering/src/substitution.rs :: Substitution @*/
/*@ type spade-hir-lowering/src/substitution.rs :: SubRegister @*/
/*@ type spade-hir-lowering/src/substitution.rs :: Substitutions @*/

/// the value of every signal in every cycle
pub type Sig = spec_fn(u64, nat) -> int;
/// whether the boundary after stage k lets data through in cycle t
pub type En = spec_fn(nat, nat) -> bool;
/// the cycle in which the transaction that is in stage `k` in cycle `t` was in stage `s` (unknown before the first data arrived)
pub open spec fn origin(en: En, s: nat, k: nat, t: nat) -> Option<nat> decreases t {
    if k <= s { Some(t) } else if t == 0 { None } else if en((k - 1) as nat, (t - 1) as nat) { origin(en, s, (k - 1) as nat, (t - 1) as nat) } else { origin(en, s, k, (t - 1) as nat) }
}
/// the pipeline register at boundary `k`
pub open spec fn reg_ok(prev: u64, new: u64, k: nat, sig: Sig, en: En) -> bool {
    forall|t: nat| #[trigger] sig(new, t + 1) == (if en(k, t) { sig(prev, t) } else { sig(new, t) })
}
/// the meaning of a name in stage k+1, given its meaning in stage k
pub open spec fn moves(id: u64, a: Substitution, b: Substitution, k: nat, sig: Sig, en: En) -> bool {
    match a {
        Substitution::Available(p) => b matches Substitution::Available(n) && reg_ok(p.0, n.0, k, sig, en),
        Substitution::Waiting { stages_left, original_stage, available_at, definition } =>
            if stages_left == 1 { b matches Substitution::Available(n) && n.0 == id }
            else { b matches Substitution::Waiting { stages_left: s2, original_stage: o2, available_at: a2, definition: d2 } && s2 == stages_left - 1 && o2 == original_stage && a2 == available_at && d2 == definition },
        Substitution::Wire => b is Wire,
        Substitution::ZeroSized => b is ZeroSized,
        Substitution::Undefined => false,
    }
}
/// an entry of stage `k` as such
pub open spec fn entry_ok(id: u64, a: Substitution, k: nat) -> bool {
    !(a is Undefined) && (a matches Substitution::Waiting { stages_left, original_stage, available_at, definition } ==> stages_left >= 1 && definition.inner.0 == id && available_at == k + stages_left)
}
pub type SMap = Map<u64, Substitution>;
pub open spec fn entries_ok(m: SMap, k: nat) -> bool { forall|id: u64| #[trigger] m.dom().contains(id) ==> entry_ok(id, m[id], k) }
pub open spec fn linked(a: SMap, b: SMap, k: nat, sig: Sig, en: En) -> bool {
    &&& forall|id: u64| #[trigger] a.dom().contains(id) ==> b.dom().contains(id) && moves(id, a[id], b[id], k, sig, en)
    // a name that appears in stage k+1 is available under its own name, or will be
    &&& forall|id: u64| #[trigger] b.dom().contains(id) && !a.dom().contains(id) ==> (b[id] matches Substitution::Available(n) ==> n.0 == id)
}
pub open spec fn stage(s: Substitutions, k: int) -> SMap { s.inner@[k]@ }
/// every pipeline register found so far carries its value across its boundary
pub open spec fn aligned(s: Substitutions, sig: Sig, en: En) -> bool {
    &&& forall|k: nat| k + 1 < s.inner@.len() ==> linked(#[trigger] stage(s, k as int), stage(s, (k + 1) as int), k, sig, en)
    &&& s.inner@.len() > 0 ==> forall|id: u64| #[trigger] stage(s, 0).dom().contains(id) ==> (stage(s, 0)[id] matches Substitution::Available(n) ==> n.0 == id)
}
pub open spec fn live(s: Substitutions, id: u64) -> bool { exists|i: int| 0 <= i < s.live_vars@.len() && #[trigger] s.live_vars@[i].inner.0 == id }
pub open spec fn wf(s: Substitutions) -> bool {
    &&& s.inner@.len() > 0
    &&& forall|k: int| 0 <= k < s.inner@.len() ==> entries_ok(#[trigger] stage(s, k), k as nat)
    &&& forall|id: u64| #[trigger] live(s, id) <==> stage(s, s.inner@.len() - 1).dom().contains(id)
}
pub open spec fn last(s: Substitutions) -> SMap { stage(s, s.inner@.len() - 1) }
/// the ids of the names that exist in the table
pub open spec fn ids_used(s: Substitutions, rs: Seq<SubRegister>) -> spec_fn(u64) -> bool {
    |x: u64| (live(s, x) || (exists|k: int, id: u64| 0 <= k < s.inner@.len() && #[trigger] stage(s, k).dom().contains(id) && stage(s, k)[id] == Substitution::Available(NameID(x)))
        || (exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).new.0 == x))
}
pub open spec fn regs_ok(rs: Seq<SubRegister>, k: nat, sig: Sig, en: En) -> bool {
    forall|i: int| 0 <= i < rs.len() ==> reg_ok((#[trigger] rs[i]).previous.0, rs[i].new.0, k, sig, en)
}
/// the entry of the next stage: `rs` has the register when one is needed
pub open spec fn next_entry(id: u64, a: Substitution, b: Substitution, rs: Seq<SubRegister>) -> bool {
    match a {
        Substitution::Available(p) => b matches Substitution::Available(n) && exists|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).original.inner.0 == id && rs[j].previous == p && rs[j].new == n,
        _ => moves(id, a, b, 0, |i: u64, t: nat| 0, |i: nat, t: nat| true),
    }
}

/*@ fn spade-hir-lowering/src/substitution.rs :: Substitutions::new
assoc: yes
ensures: r.inner@.len() == 1, last(r) =~= Map::<u64, Substitution>::empty(), r.current_stage == 0, wf(r), forall|sig: Sig, en: En| #[trigger] aligned(r, sig, en)
@*/
/*@ fn spade-hir-lowering/src/substitution.rs :: Substitutions::next_stage
requires: wf(*old(self))
ensures: wf(*final(self)),
    final(self).inner@.len() == old(self).inner@.len() + 1, final(self).inner@.take(old(self).inner@.len() as int) =~= old(self).inner@, final(self).live_vars == old(self).live_vars, final(self).current_stage == old(self).current_stage,
    forall|sig: Sig, en: En| aligned(*old(self), sig, en) && regs_ok(r@, (old(self).inner@.len() - 1) as nat, sig, en) ==> #[trigger] aligned(*final(self), sig, en),
    forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).new.0 != (#[trigger] r@[j]).new.0,
    forall|i: int| 0 <= i < r@.len() ==> !ids_used(*old(self), Seq::empty())((#[trigger] r@[i]).new.0)
loop 0 inv: *self == *old(self), wf(*self), stage_num == self.inner@.len(),
    forall|i: int| 0 <= i < vi0 ==> new_subs@.dom().contains((#[trigger] self.live_vars@[i]).inner.0),
    forall|id: u64| #[trigger] new_subs@.dom().contains(id) ==> live(*self, id) && entry_ok(id, new_subs@[id], stage_num as nat) && next_entry(id, last(*self)[id], new_subs@[id], result@),
    forall|i: int, j: int| 0 <= i < j < result@.len() ==> (#[trigger] result@[i]).new.0 != (#[trigger] result@[j]).new.0,
    forall|i: int| 0 <= i < result@.len() ==> !ids_used(*self, Seq::empty())((#[trigger] result@[i]).new.0)
loop 0 start: let ghost r0 = result@; let ghost n0 = new_subs@; proof { assert(live(*self, self.live_vars@[vi0 - 1].inner.0)); assert(entry_ok(self.live_vars@[vi0 - 1].inner.0, last(*self)[self.live_vars@[vi0 - 1].inner.0], (stage_num - 1) as nat)); }
loop 0 end: proof {
        l_next(r0, result@, n0, last(*self));
        let id = self.live_vars@[vi0 - 1].inner.0;
        if last(*self)[id] is Available { assert(result@[r0.len() as int].original.inner.0 == id); assert(result@[r0.len() as int].new == new_subs@[id]->Available_0); }
        assert(next_entry(id, last(*self)[id], new_subs@[id], result@));
        assert(entry_ok(id, new_subs@[id], stage_num as nat));
    }
entry: let ghost s0 = *self;
before-call push#1: proof {
        assert forall|id: u64| #[trigger] last(*self).dom().contains(id) implies new_subs@.dom().contains(id) by {
            assert(live(*self, id));
            let i = choose|i: int| 0 <= i < self.live_vars@.len() && #[trigger] self.live_vars@[i].inner.0 == id;
            assert(new_subs@.dom().contains(self.live_vars@[i].inner.0));
        }
    }
    let ghost n1 = new_subs;
after-call push#1: proof {
        assert(self.inner@.take(s0.inner@.len() as int) =~= s0.inner@);
        assert(forall|k: int| 0 <= k < s0.inner@.len() ==> stage(*self, k) == #[trigger] stage(s0, k));
        assert(last(*self) == n1@);
        assert forall|id: u64| #[trigger] live(*self, id) == live(s0, id) by { assert(self.live_vars == s0.live_vars); }
        l_step(s0, *self, result@);
    }
@*/
proof fn l_step(a: Substitutions, b: Substitutions, rs: Seq<SubRegister>)
    requires wf(a), b.inner@.len() == a.inner@.len() + 1, b.live_vars == a.live_vars,
        forall|k: int| 0 <= k < a.inner@.len() ==> stage(b, k) == #[trigger] stage(a, k),
        forall|id: u64| #[trigger] last(a).dom().contains(id) ==> last(b).dom().contains(id),
        forall|id: u64| #[trigger] last(b).dom().contains(id) ==> live(a, id) && entry_ok(id, last(b)[id], a.inner@.len() as nat) && next_entry(id, last(a)[id], last(b)[id], rs),
    ensures wf(b), forall|sig: Sig, en: En| aligned(a, sig, en) && regs_ok(rs, (a.inner@.len() - 1) as nat, sig, en) ==> #[trigger] aligned(b, sig, en)
{
    assert forall|id: u64| #[trigger] live(b, id) == live(a, id) by { assert(b.live_vars == a.live_vars); }
    assert forall|k: int| 0 <= k < b.inner@.len() implies entries_ok(#[trigger] stage(b, k), k as nat) by { if k < a.inner@.len() { assert(stage(b, k) == stage(a, k)); } else { assert(stage(b, k) == last(b)); assert forall|id: u64| #[trigger] stage(b, k).dom().contains(id) implies entry_ok(id, stage(b, k)[id], k as nat) by { assert(last(b).dom().contains(id)); } } }
    assert forall|sig: Sig, en: En| aligned(a, sig, en) && regs_ok(rs, (a.inner@.len() - 1) as nat, sig, en) implies #[trigger] aligned(b, sig, en) by {
        assert(stage(b, 0) == stage(a, 0));
        assert forall|k: nat| k + 1 < b.inner@.len() implies linked(#[trigger] stage(b, k as int), stage(b, (k + 1) as int), k, sig, en) by {
            assert(stage(b, k as int) == stage(a, k as int));
            if k + 1 < a.inner@.len() { assert(stage(b, (k + 1) as int) == stage(a, (k + 1) as int)); }
            else {
                assert forall|id: u64| #[trigger] last(a).dom().contains(id) implies moves(id, last(a)[id], last(b)[id], k, sig, en) by {
                    assert(last(b).dom().contains(id));
                    assert(entries_ok(last(a), (a.inner@.len() - 1) as nat));
                    assert(entry_ok(id, last(a)[id], (a.inner@.len() - 1) as nat));
                }
                assert forall|id: u64| #[trigger] last(b).dom().contains(id) implies last(a).dom().contains(id) by { assert(live(a, id)); }
            }
        }
    }
}
proof fn l_next(a: Seq<SubRegister>, b: Seq<SubRegister>, n: SMap, m: SMap)
    requires b.len() >= a.len(), b.take(a.len() as int) =~= a, forall|id: u64| #[trigger] n.dom().contains(id) ==> next_entry(id, m[id], n[id], a)
    ensures forall|id: u64| #[trigger] n.dom().contains(id) ==> next_entry(id, m[id], n[id], b)
{
    assert forall|id: u64| #[trigger] n.dom().contains(id) implies next_entry(id, m[id], n[id], b) by {
        if m[id] is Available {
            let nn = n[id]->Available_0;
            let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).original.inner.0 == id && a[j].previous == m[id]->Available_0 && a[j].new == nn;
            assert(b[j] == b.take(a.len() as int)[j]);
        }
    }
}

/// the entry of a name that is defined in stage `k` with latency `time`
pub open spec fn defined(id: NameID, time: nat, k: nat, z: bool) -> spec_fn(Substitution) -> bool {
    |a: Substitution| if z { a is ZeroSized } else if time == 0 { a == Substitution::Available(id) }
        else { a matches Substitution::Waiting { stages_left, original_stage, available_at, definition } && stages_left == time && original_stage == k && available_at == k + time && definition.inner == id }
}
/// one more name in the last stage, nothing else
pub open spec fn adds_name(a: Substitutions, b: Substitutions, id: u64) -> bool {
    &&& b.inner@.len() == a.inner@.len() && b.current_stage == a.current_stage
    &&& forall|k: int| 0 <= k < a.inner@.len() - 1 ==> stage(b, k) == #[trigger] stage(a, k)
    &&& last(b).dom().contains(id) && last(b) =~= last(a).insert(id, last(b)[id])
}
/// the addition does not fit into a machine word: out of scope (latencies are far smaller)
#[verifier::external_body]
pub fn vplus(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
proof fn l_adds(a: Substitutions, b: Substitutions, from: Loc<NameID>)
    requires wf(a), adds_name(a, b, from.inner.0), b.live_vars@ == a.live_vars@.push(from), !live(a, from.inner.0), entry_ok(from.inner.0, last(b)[from.inner.0], (a.inner@.len() - 1) as nat),
        last(b)[from.inner.0] matches Substitution::Available(n) ==> n.0 == from.inner.0
    ensures wf(b), forall|sig: Sig, en: En| aligned(a, sig, en) ==> #[trigger] aligned(b, sig, en), forall|id: u64| #[trigger] live(b, id) <==> live(a, id) || id == from.inner.0
{
    let id0 = from.inner.0;
    let n = a.inner@.len();
    assert forall|id: u64| #[trigger] live(b, id) <==> live(a, id) || id == id0 by {
        if live(a, id) { let i = choose|i: int| 0 <= i < a.live_vars@.len() && #[trigger] a.live_vars@[i].inner.0 == id; assert(b.live_vars@[i].inner.0 == id); }
        if id == id0 { assert(b.live_vars@[a.live_vars@.len() as int].inner.0 == id); }
        if live(b, id) && id != id0 { let i = choose|i: int| 0 <= i < b.live_vars@.len() && #[trigger] b.live_vars@[i].inner.0 == id; assert(a.live_vars@[i].inner.0 == id); }
    }
    assert forall|k: int| 0 <= k < n implies entries_ok(#[trigger] stage(b, k), k as nat) by {
        assert(entries_ok(stage(a, k), k as nat));
        if k < n - 1 { assert(stage(b, k) == stage(a, k)); }
    }
    assert forall|sig: Sig, en: En| aligned(a, sig, en) implies #[trigger] aligned(b, sig, en) by {
        if n > 1 { assert(stage(b, 0) == stage(a, 0)); }
        assert forall|k: nat| k + 1 < n implies linked(#[trigger] stage(b, k as int), stage(b, (k + 1) as int), k, sig, en) by {
            assert(stage(b, k as int) == stage(a, k as int));
            assert(linked(stage(a, k as int), stage(a, (k + 1) as int), k, sig, en));
            if k + 1 < n - 1 { assert(stage(b, (k + 1) as int) == stage(a, (k + 1) as int)); }
            else { assert forall|id: u64| #[trigger] stage(b, k as int).dom().contains(id) implies stage(b, (k + 1) as int).dom().contains(id) && moves(id, stage(b, k as int)[id], stage(b, (k + 1) as int)[id], k, sig, en) by {
                assert(stage(a, (k + 1) as int).dom().contains(id)); assert(live(a, id)); assert(id != id0);
            } }
        }
    }
}
/*@ fn spade-hir-lowering/src/substitution.rs :: Substitutions::set_available
requires: wf(*old(self)), !live(*old(self), $1.inner.0), $3 + 1 == old(self).inner@.len()
ensures: wf(*final(self)), forall|sig: Sig, en: En| aligned(*old(self), sig, en) ==> #[trigger] aligned(*final(self), sig, en),
    adds_name(*old(self), *final(self), $1.inner.0), defined($1.inner, $2 as nat, $3 as nat, zero_sized($4))(last(*final(self))[$1.inner.0]),
    forall|id: u64| #[trigger] live(*final(self), id) <==> live(*old(self), id) || id == $1.inner.0
entry: let ghost s0 = *self;
after-call vins_last: proof { l_adds(s0, *self, from); }
@*/
/*@ fn spade-hir-lowering/src/substitution.rs :: Substitutions::set_wire
requires: wf(*old(self)), !live(*old(self), $1.inner.0)
ensures: wf(*final(self)), forall|sig: Sig, en: En| aligned(*old(self), sig, en) ==> #[trigger] aligned(*final(self), sig, en),
    adds_name(*old(self), *final(self), $1.inner.0), last(*final(self))[$1.inner.0] is Wire,
    forall|id: u64| #[trigger] live(*final(self), id) <==> live(*old(self), id) || id == $1.inner.0
entry: let ghost s0 = *self;
after-call vins_last: proof { l_adds(s0, *self, name); }
@*/
/*@ fn spade-hir-lowering/src/substitution.rs :: Substitutions::lookup
rule: $x.cloned() ==> vcloned($x)
requires: self.current_stage < self.inner@.len()
ensures: r == (if stage(*self, self.current_stage as int).dom().contains($1.0) { stage(*self, self.current_stage as int)[$1.0] } else { Substitution::Available(*$1) })
@*/
/*@ fn spade-hir-lowering/src/substitution.rs :: Substitutions::lookup_referenced
rule: $x.cloned() ==> vcloned($x)
requires: $1 < self.inner@.len()
ensures: r == (if stage(*self, $1 as int).dom().contains($2.0) { stage(*self, $1 as int)[$2.0] } else { Substitution::Undefined })
@*/

// ---------------------------------------------------------------- what alignment means
/// an available name stays available, and its name in a later stage carries the value of the same transaction
proof fn l_meaning(s: Substitutions, sig: Sig, en: En, id: u64, j: nat, k: nat, t: nat)
    requires wf(s), aligned(s, sig, en), j <= k < s.inner@.len(), stage(s, j as int).dom().contains(id), stage(s, j as int)[id] is Available
    ensures stage(s, k as int).dom().contains(id), stage(s, k as int)[id] is Available,
        origin(en, j, k, t) matches Some(u) ==> sig(stage(s, k as int)[id]->Available_0.0, t) == sig(stage(s, j as int)[id]->Available_0.0, u)
    decreases k, t
{
    if j < k {
        let k1 = (k - 1) as nat;
        l_meaning(s, sig, en, id, j, k1, 0);
        assert(linked(stage(s, k1 as int), stage(s, (k1 + 1) as int), k1, sig, en));
        assert(moves(id, stage(s, k1 as int)[id], stage(s, k as int)[id], k1, sig, en));
        if t > 0 {
            let t1 = (t - 1) as nat;
            let n = stage(s, k as int)[id]->Available_0.0;
            let p = stage(s, k1 as int)[id]->Available_0.0;
            assert(sig(n, t1 + 1) == (if en(k1, t1) { sig(p, t1) } else { sig(n, t1) }));
            if en(k1, t1) { l_meaning(s, sig, en, id, j, k1, t1); } else { l_meaning(s, sig, en, id, j, k, t1); }
        }
    }
}
/// a name that becomes available in stage `a` is rejected before, and is available under its own name in that stage
proof fn l_waiting(s: Substitutions, sig: Sig, en: En, id: u64, j: nat, k: nat)
    requires wf(s), aligned(s, sig, en), j <= k < s.inner@.len(), stage(s, j as int).dom().contains(id), stage(s, j as int)[id] is Waiting, k <= stage(s, j as int)[id]->available_at
    ensures stage(s, k as int).dom().contains(id), k < stage(s, j as int)[id]->available_at ==> stage(s, k as int)[id] is Waiting && stage(s, k as int)[id]->available_at == stage(s, j as int)[id]->available_at,
        k == stage(s, j as int)[id]->available_at ==> stage(s, k as int)[id] == Substitution::Available(NameID(id))
    decreases k
{
    assert(entries_ok(stage(s, j as int), j));
    assert(entry_ok(id, stage(s, j as int)[id], j));
    if j < k {
        let k1 = (k - 1) as nat;
        l_waiting(s, sig, en, id, j, k1);
        assert(linked(stage(s, k1 as int), stage(s, (k1 + 1) as int), k1, sig, en));
        assert(moves(id, stage(s, k1 as int)[id], stage(s, k as int)[id], k1, sig, en));
        assert(entries_ok(stage(s, k1 as int), k1));
        assert(entry_ok(id, stage(s, k1 as int)[id], k1));
    }
}
/// a name defined in stage `j` with the given latency: in every later stage it is rejected until it is ready, and from then on denotes its value of the same transaction
pub proof fn defined_then_used(s: Substitutions, sig: Sig, en: En, id: u64, j: nat, time: nat, k: nat, t: nat)
    requires wf(s), aligned(s, sig, en), j <= k < s.inner@.len(), stage(s, j as int).dom().contains(id), defined(NameID(id), time, j, false)(stage(s, j as int)[id])
    ensures stage(s, k as int).dom().contains(id), k < j + time ==> stage(s, k as int)[id] is Waiting,
        k >= j + time ==> (stage(s, k as int)[id] matches Substitution::Available(n) && (origin(en, j + time, k, t) matches Some(u) ==> sig(n.0, t) == sig(id, u)))
{
    if time == 0 { l_meaning(s, sig, en, id, j, k, t); }
    else if k < j + time { l_waiting(s, sig, en, id, j, k); }
    else { l_waiting(s, sig, en, id, j, j + time); l_meaning(s, sig, en, id, j + time, k, t); }
}
/// without stage conditions the delay is the number of boundaries
pub proof fn unstalled(en: En, s: nat, k: nat, t: nat)
    requires s <= k, forall|b: nat, c: nat| #[trigger] en(b, c)
    ensures origin(en, s, k, t) == (if t >= k - s { Some((t - (k - s)) as nat) } else { None::<nat> })
    decreases t
{ if s < k && t > 0 { unstalled(en, s, (k - 1) as nat, (t - 1) as nat); } }
/// values that meet in a stage belong to one transaction, whatever stage each was defined in
pub proof fn one_transaction(en: En, s: nat, j: nat, k: nat, t: nat)
    requires s <= j <= k
    ensures origin(en, s, k, t) == (match origin(en, j, k, t) { Some(m) => origin(en, s, j, m), None => None })
    decreases t
{
    if j < k && t > 0 {
        if en((k - 1) as nat, (t - 1) as nat) { one_transaction(en, s, j, (k - 1) as nat, (t - 1) as nat); } else { one_transaction(en, s, j, k, (t - 1) as nat); }
    } else if j < k { }
}

// ==================================================================== the emitted statements
/*@ rules
type: String ==> VText
type: mir::Statement ==> mir::Statement
rule: format!("{}", self.1.tail()) ==> vtext()
rule: statements.push_secondary($a, $b, $c) ==> vpush_secondary(statements, $a)
rule: this.name_map.insert_secondary($a, $b, $c) ==> ()
rule: self.name_map.merge($x) ==> ()
rule: description.to_string() ==> vtext()
rule: $x.map_ref(|c| $e) ==> { let c = &$x.inner; vloc($e) }
rule: $x.map(|c| $e) ==> match $x { Some(c) => Some($e), None => None }
rule: ctx.types.concrete_type_of_name($e, $s, $t) ==> vtype_of_name($e, ctx)
rule: ctx.subs.next_stage(ctx.symtab) ==> ctx.subs.next_stage(&ctx.symtab)
rule: ctx.symtab.new_name($p) ==> ctx.symtab.new_name(Ghost(no_ids()))
rule: *ctx.pipeline_context = $x ==> ctx.pipeline_context = $x
rule: body.kind ==> body.inner.kind
rule: Err($x) ==> Err(SErr::new())
rule: self.clone() ==> self.vclone()
macro: panic ==> vdiverge::<()>()
macro: diag_bail ==> (return Err(SErr::new()))
@*/
#[verifier::external_body] pub struct VText { x: u64 }
#[verifier::external_body] pub fn vtext() -> VText { unimplemented!() }
pub open spec fn no_ids() -> spec_fn(u64) -> bool { |x: u64| false }
pub struct ExprID(pub u64);
#[verifier::external_body] pub struct ExprIdTracker { x: u64 }
impl ExprIdTracker { #[verifier::external_body] pub fn next(&self) -> (r: ExprID) { unimplemented!() } }
pub mod mir {
use super::*;
pub mod types { #[allow(unused_imports)] pub use super::Type; }
/*@ type spade-mir/src/lib.rs :: ValueNameSource @*/
/*@ type spade-mir/src/lib.rs :: ValueName @*/
/*@ type spade-mir/src/types.rs :: Type
keep: Bool
@*/
/*@ type spade-mir/src/lib.rs :: Operator
keep: Select, Alias, LogicalAnd, LogicalOr, LogicalXor, LogicalNot, Not, BitwiseAnd, BitwiseOr, BlackBoxAlias
@*/
/*@ type spade-mir/src/lib.rs :: Binding @*/
/*@ type spade-mir/src/lib.rs :: Register @*/
/*@ type spade-mir/src/lib.rs :: ConstantValue
keep: Bool
@*/
/*@ type spade-mir/src/lib.rs :: Statement @*/
}
pub use mir::ValueName;
pub use mir::ValueNameSource;
pub mod slist {
use super::*;
use super::mir::Statement;
/*@ type spade-hir-lowering/src/statement_list.rs :: StatementList
drop: name_map
@*/
/*@ fn spade-hir-lowering/src/statement_list.rs :: StatementList::push_secondary as vpush_secondary
sig: (this: &mut StatementList, stmt: Loc<mir::Statement>) -> (r: ())
rule: self ==> this
ensures: final(this).stmts@ == old(this).stmts@.push(stmt)
@*/
/*@ fn spade-hir-lowering/src/statement_list.rs :: StatementList::push_primary as vpush_primary
sig: (this: &mut StatementList, stmt: Loc<mir::Statement>) -> (r: ())
rule: self ==> this
rule: this.name_map.insert_primary($a, $b) ==> ()
ensures: final(this).stmts@ == old(this).stmts@.push(stmt)
@*/
/*@ fn spade-hir-lowering/src/statement_list.rs :: StatementList::push_anonymous
ensures: final(self).stmts@ == old(self).stmts@.push($1)
@*/
/*@ fn spade-hir-lowering/src/statement_list.rs :: StatementList::append
ensures: final(self).stmts@ == old(self).stmts@ + $1.stmts@
@*/
}
pub use slist::*;

/// what makes two value names the same signal
pub enum VKey { N(u64), E(u64) }
pub open spec fn key(v: ValueName) -> VKey { match v { ValueName::Named(i, _, _) => VKey::N(i), ValueName::Expr(e) => VKey::E(e.0) } }
/// the value of every signal in every cycle
pub type Env = spec_fn(VKey, nat) -> int;
pub open spec fn val(env: Env, v: Loc<ValueName>, t: nat) -> int { env(key(v.inner), t) }
pub open spec fn tr(x: int) -> bool { x != 0 }
pub open spec fn bit(b: bool) -> int { if b { 1 } else { 0 } }
/// what a bound operator computes (C03 ties the operators to the emitted text)
pub open spec fn computes(op: mir::Operator, ops: Seq<Loc<ValueName>>, env: Env, t: nat, v: int) -> bool {
    match op {
        mir::Operator::Select => ops.len() == 3 ==> v == (if tr(val(env, ops[0], t)) { val(env, ops[1], t) } else { val(env, ops[2], t) }),
        mir::Operator::Alias => ops.len() == 1 ==> v == val(env, ops[0], t),
        mir::Operator::LogicalAnd => ops.len() == 2 ==> v == bit(tr(val(env, ops[0], t)) && tr(val(env, ops[1], t))),
        mir::Operator::LogicalOr => ops.len() == 2 ==> v == bit(tr(val(env, ops[0], t)) || tr(val(env, ops[1], t))),
        mir::Operator::LogicalXor => ops.len() == 2 ==> v == bit(tr(val(env, ops[0], t)) != tr(val(env, ops[1], t))),
        mir::Operator::LogicalNot => ops.len() == 1 ==> v == bit(!tr(val(env, ops[0], t))),
        mir::Operator::Not => ops.len() == 1 ==> v == bit(!tr(val(env, ops[0], t))),
        _ => true,
    }
}
/// a statement holds in every cycle
pub open spec fn holds(s: mir::Statement, env: Env) -> bool {
    match s {
        mir::Statement::Binding(b) => forall|t: nat| computes(b.operator, b.operands@, env, t, #[trigger] env(key(b.name.inner), t)),
        mir::Statement::Register(r) => r.reset is None ==> forall|t: nat| #[trigger] env(key(r.name.inner), t + 1) == env(key(r.value.inner), t),
        mir::Statement::Constant(n, _, mir::ConstantValue::Bool(b)) => forall|t: nat| #[trigger] env(key(n.inner), t) == bit(b),
        _ => true,
    }
}
pub open spec fn all_hold(s: Seq<Loc<mir::Statement>>, env: Env) -> bool { forall|i: int| 0 <= i < s.len() ==> holds((#[trigger] s[i]).inner, env) }
/// `b` is `a` with more statements at the end
pub open spec fn grows(a: Seq<Loc<mir::Statement>>, b: Seq<Loc<mir::Statement>>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> b[i] == #[trigger] a[i] }
proof fn l_grows(a: Seq<Loc<mir::Statement>>, b: Seq<Loc<mir::Statement>>, env: Env) requires grows(a, b), all_hold(b, env) ensures all_hold(a, env)
{ assert forall|i: int| 0 <= i < a.len() implies holds((#[trigger] a[i]).inner, env) by { assert(b[i] == a[i]); } }

/*@ fn spade-hir-lowering/src/lib.rs :: <NameIDExt for NameID>::value_name_with_alternate_source
impl: impl NameID
macro: format ==> vtext()
ensures: key(r) == VKey::N(self.0)
@*/
/*@ fn spade-hir-lowering/src/lib.rs :: <NameIDExt for NameID>::value_name
impl: impl NameID
ensures: key(r) == VKey::N(self.0)
@*/

// ---------------------------------------------------------------- conditions that may be constant
/*@ type spade-hir-lowering/src/pipelines.rs :: MaybeConst @*/
pub open spec fn mc(m: MaybeConst, env: Env, t: nat) -> bool { match m { MaybeConst::Val(v) => tr(env(key(v), t)), MaybeConst::Const(b) => b } }
pub open spec fn oc(o: Option<ValueName>, env: Env, t: nat) -> bool { match o { Some(v) => tr(env(key(v), t)), None => true } }
pub struct Context {
    pub symtab: FrozenSymtab,
    pub idtracker: ExprIdTracker,
    pub subs: Substitutions,
    pub pipeline_context: MaybePipelineContext,
}
/*@ type spade-hir-lowering/src/pipelines.rs :: PipelineContext @*/
/*@ type spade-hir-lowering/src/pipelines.rs :: MaybePipelineContext @*/
/*@ fn spade-hir-lowering/src/pipelines.rs :: MaybeConst::to_value_name
ensures: *final(ctx) == *old(ctx), grows(old(statements).stmts@, final(statements).stmts@), forall|env: Env, t: nat| all_hold(final(statements).stmts@, env) ==> #[trigger] tr(env(key(r), t)) == mc(self, env, t)
before-call push_anonymous: let ghost m = statements.stmts@;
after-call push_anonymous: proof { assert forall|env: Env, t: nat| all_hold(statements.stmts@, env) implies #[trigger] tr(env(key(new_name), t)) == v by { assert(holds(statements.stmts@[m.len() as int].inner, env)); } }
@*/
/*@ fn spade-hir-lowering/src/pipelines.rs :: <OptionExt for Option>::or_const_true
sig: (this: Option<ValueName>) -> (r: MaybeConst)
rule: self ==> this
ensures: forall|env: Env, t: nat| #[trigger] mc(r, env, t) == oc(this, env, t), r == (match this { Some(v) => MaybeConst::Val(v), None => MaybeConst::Const(true) })
@*/
/*@ rules
rule: $x.or_const_true() ==> or_const_true($x)
@*/
/*@ fn spade-hir-lowering/src/pipelines.rs :: constexpr_and
ret: res
ensures: *final(ctx) == *old(ctx), grows(old(statements).stmts@, final(statements).stmts@), forall|env: Env, t: nat| all_hold(final(statements).stmts@, env) ==> #[trigger] mc(res, env, t) == (mc(l, env, t) && mc(r, env, t)), res == MaybeConst::Const(true) ==> l == MaybeConst::Const(true) && r == MaybeConst::Const(true)
before-call push_anonymous: let ghost m = statements.stmts@;
after-call push_anonymous: proof { assert forall|env: Env, t: nat| all_hold(statements.stmts@, env) implies #[trigger] tr(env(key(new_name), t)) == (tr(env(key(l), t)) && tr(env(key(r), t))) by { assert(holds(statements.stmts@[m.len() as int].inner, env)); } }
@*/
/*@ fn spade-hir-lowering/src/pipelines.rs :: constexpr_select
ensures: *final(ctx) == *old(ctx), grows(old(statements).stmts@, final(statements).stmts@), forall|env: Env, t: nat| all_hold(final(statements).stmts@, env) ==> #[trigger] mc(r, env, t) == (if mc($4, env, t) { mc($2, env, t) } else { mc($3, env, t) }), r is Const ==> $4 is Const && r == (if $4->Const_0 { $2 } else { $3 })
before-call push_anonymous: let ghost m = statements.stmts@;
after-call push_anonymous: proof { assert forall|env: Env, t: nat| all_hold(statements.stmts@, env) implies #[trigger] tr(env(key(new_name), t)) == (if mc(select, env, t) { mc(on_true, env, t) } else { mc(on_false, env, t) }) by { assert(holds(statements.stmts@[m.len() as int].inner, env)); l_grows(m, statements.stmts@, env); } }
@*/
/*@ fn spade-hir-lowering/src/pipelines.rs :: constexpr_inv
ensures: *final(ctx) == *old(ctx), grows(old(statements).stmts@, final(statements).stmts@), forall|env: Env, t: nat| all_hold(final(statements).stmts@, env) ==> #[trigger] mc(r, env, t) == !mc($2, env, t)
before-call push_anonymous: let ghost m = statements.stmts@;
after-call push_anonymous: proof { assert forall|env: Env, t: nat| all_hold(statements.stmts@, env) implies #[trigger] tr(env(key(new_name), t)) == !mc(input, env, t) by { assert(holds(statements.stmts@[m.len() as int].inner, env)); } }
@*/

// ==================================================================== stages
#[verifier::external_body] pub struct Pattern { x: u64 }
#[verifier::external_body] pub struct TypeSpec { x: u64 }
#[verifier::external_body] pub struct TypeExpression { x: u64 }
pub uninterp spec fn pat_names(p: Pattern) -> Seq<(Loc<NameID>, Option<Loc<()>>)>;
impl Loc<Pattern> {
    #[verifier::external_body]
    pub fn get_names_and_wireness(&self) -> (r: Vec<(Loc<NameID>, Option<Loc<()>>)>) ensures r@ == pat_names(self.inner) { unimplemented!() }
}
#[verifier::external_body] pub struct ConstGenericWithId { x: u64 }
#[verifier::external_body] pub struct IntLiteralKind { x: u64 }
#[verifier::external_body] pub struct TriLiteral { x: u64 }
#[verifier::external_body] pub struct Identifier { x: u64 }
#[verifier::external_body] pub struct TraitSpec { x: u64 }
#[verifier::external_body] pub struct Safety { x: u64 }
#[verifier::external_body] pub struct BinaryOperator { x: u64 }
#[verifier::external_body] pub struct UnaryOperator { x: u64 }
#[verifier::external_body] pub struct PipelineRefKind { x: u64 }
#[verifier::external_body] pub struct UnitKind { x: u64 }
#[verifier::external_body] pub struct LambdaTypeParams { x: u64 }
#[verifier::external_body] pub struct OuterLambdaParam { x: u64 }
#[verifier::external_body] pub struct Diagnostic { x: u64 }
#[verifier::external_body] pub struct IncompleteExpression { x: u64 }
/*@ type spade-hir/src/expression.rs :: CallKind @*/
/*@ type spade-hir/src/expression.rs :: NamedArgument @*/
/*@ type spade-hir/src/expression.rs :: ArgumentList @*/
/*@ type spade-hir/src/expression.rs :: ExprKind
@*/
pub struct Expression { pub kind: ExprKind, pub id: ExprID }
/*@ type spade-hir/src/lib.rs :: Block @*/
/*@ type spade-hir/src/lib.rs :: Binding @*/
/*@ type spade-hir/src/lib.rs :: Register
drop: keyword, attributes
@*/
/*@ type spade-hir/src/lib.rs :: PipelineRegMarkerExtra @*/
/*@ type spade-hir/src/lib.rs :: Statement @*/
/*@ type spade-hir/src/lib.rs :: Input @*/
pub mod spade_hir { pub use crate::PipelineRegMarkerExtra; }
pub mod substitution { pub use crate::Substitution; }
pub uninterp spec fn ntype(id: u64) -> ConcreteType;
pub uninterp spec fn mirt(t: ConcreteType) -> mir::Type;
impl Loc<NameID> { pub fn value_name(&self) -> (r: ValueName) ensures key(r) == VKey::N(self.inner.0) { self.inner.value_name() } }
impl ConcreteType { #[verifier::external_body] pub fn to_mir_type(&self) -> (r: mir::Type) ensures r == mirt(*self) { unimplemented!() } }
#[verifier::external_body]
pub fn vtype_of_name<K: AsId>(k: &K, ctx: &Context) -> (r: Result<ConcreteType>) ensures r matches Ok(t) ==> t == ntype(k.id()) { unimplemented!() }
/// `v` is the signal that carries the value of `e`
pub uninterp spec fn is_sig(e: Expression, v: ValueName) -> bool;
impl Loc<Expression> {
    #[verifier::external_body]
    pub fn lower(&self, ctx: &mut Context) -> (r: Result<StatementList>) ensures final(ctx).subs == old(ctx).subs { unimplemented!() }
    #[verifier::external_body]
    pub fn variable(&self, ctx: &Context) -> (r: Result<Loc<ValueName>>) ensures r matches Ok(v) ==> is_sig(self.inner, v.inner) { unimplemented!() }
    #[verifier::exec_allows_no_decreases_clause]
    pub fn available_in(&self, ctx: &Context) -> (r: Result<Option<usize>>) requires ctx.subs.current_stage < ctx.subs.inner@.len() ensures r matches Ok(v) ==> lat(self.inner, ctx.subs) == to_lat(v) { self.inner.available_in(ctx) }
}
// ---------------------------------------------------------------- latency of expressions
/// when a value is there, seen from the stage it is computed in: at any time (constants, wires), `n` cycles later, or never (values of different cycles are combined)
pub enum Lat { Any, At(nat), Mixed }
pub open spec fn join(a: Lat, b: Lat) -> Lat {
    match (a, b) { (Lat::Any, x) => x, (x, Lat::Any) => x, (Lat::At(x), Lat::At(y)) => if x == y { Lat::At(x) } else { Lat::Mixed }, _ => Lat::Mixed }
}
pub open spec fn to_lat(o: Option<usize>) -> Lat { match o { Some(x) => Lat::At(x as nat), None => Lat::Any } }
pub open spec fn when(l: Lat) -> nat { match l { Lat::At(n) => n, _ => 0 } }
/// the constant a type expression stands for
pub uninterp spec fn etype(id: u64) -> ConcreteType;
pub uninterp spec fn big(b: BigInt) -> int;
/// everything that goes into the value of an expression must be there in the same cycle; an instantiated pipeline adds its depth
pub open spec fn lat(e: Expression, s: Substitutions) -> Lat decreases e {
    match e.kind {
        ExprKind::Identifier(n) => match look(s, n) { Substitution::Wire => Lat::Any, Substitution::ZeroSized => Lat::Any, _ => Lat::At(0) },
        ExprKind::PipelineRef { .. } => Lat::At(0),
        ExprKind::StageReady => Lat::At(0),
        ExprKind::StageValid => Lat::At(0),
        ExprKind::TupleLiteral(v) => lats(v, v.len() as nat, s),
        ExprKind::ArrayLiteral(v) => lats(v, v.len() as nat, s),
        ExprKind::ArrayShorthandLiteral(x, _) => lat(x.inner, s),
        ExprKind::Index(x, y) => join(lat(x.inner, s), lat(y.inner, s)),
        ExprKind::RangeIndex { target, .. } => lat(target.inner, s),
        ExprKind::TupleIndex(x, _) => lat(x.inner, s),
        ExprKind::FieldAccess(x, _) => lat(x.inner, s),
        ExprKind::TypeCast(x, _) => lat(x.inner, s),
        ExprKind::BinaryOperator(x, _, y) => join(lat(x.inner, s), lat(y.inner, s)),
        ExprKind::UnaryOperator(_, x) => lat(x.inner, s),
        ExprKind::If { cond, on_true, on_false } => join(lat(cond.inner, s), join(lat(on_true.inner, s), lat(on_false.inner, s))),
        ExprKind::Match(x, v) => join(lat(x.inner, s), latb(v, v.len() as nat, s)),
        ExprKind::Block(b) => match b.result { Some(x) => lat(x.inner, s), None => Lat::Any },
        ExprKind::Call { kind, args, .. } => {
            let a = match args.inner { ArgumentList::Positional(v) => lats(v, v.len() as nat, s), ArgumentList::Named(v) => latn(v, v.len() as nat, s) };
            match kind {
                CallKind::Pipeline { depth_typeexpr_id, .. } => match etype(depth_typeexpr_id.0) {
                    ConcreteType::Integer(d) => match a { Lat::Any => Lat::At(big(d) as nat), Lat::At(n) => Lat::At((n + big(d)) as nat), Lat::Mixed => Lat::Mixed },
                    _ => Lat::Mixed,
                },
                _ => a,
            }
        }
        _ => Lat::Any,
    }
}
pub open spec fn lats(v: Vec<Loc<Expression>>, k: nat, s: Substitutions) -> Lat decreases v, k {
    if k == 0 || k > v.len() { Lat::Any } else { join(lats(v, (k - 1) as nat, s), lat(v[k - 1].inner, s)) }
}
pub open spec fn latn(v: Vec<NamedArgument<Expression>>, k: nat, s: Substitutions) -> Lat decreases v, k {
    if k == 0 || k > v.len() { Lat::Any } else { join(latn(v, (k - 1) as nat, s), match v[k - 1] { NamedArgument::Full(_, x) => lat(x.inner, s), NamedArgument::Short(_, x) => lat(x.inner, s) }) }
}
pub open spec fn latb(v: Vec<(Loc<Pattern>, Option<Loc<Expression>>, Loc<Expression>)>, k: nat, s: Substitutions) -> Lat decreases v, k {
    if k == 0 || k > v.len() { Lat::Any } else { join(latb(v, (k - 1) as nat, s), join(match v[k - 1].1 { Some(g) => lat(g.inner, s), None => Lat::Any }, lat(v[k - 1].2.inner, s))) }
}
pub open spec fn look(s: Substitutions, n: NameID) -> Substitution { if stage(s, s.current_stage as int).dom().contains(n.0) { stage(s, s.current_stage as int)[n.0] } else { Substitution::Available(n) } }
pub trait VB { spec fn sp(&self) -> Loc<Expression>; fn vb(&self) -> (r: &Loc<Expression>) ensures *r == self.sp(); }
impl VB for Loc<Expression> { open spec fn sp(&self) -> Loc<Expression> { *self } fn vb(&self) -> (r: &Loc<Expression>) { self } }
impl<'a> VB for &'a Loc<Expression> { open spec fn sp(&self) -> Loc<Expression> { **self } fn vb(&self) -> (r: &Loc<Expression>) { *self } }
pub open spec fn ls<T: VB>(v: Seq<T>, k: nat, s: Substitutions) -> Lat decreases k {
    if k == 0 || k > v.len() { Lat::Any } else { join(ls(v, (k - 1) as nat, s), lat(v[k - 1].sp().inner, s)) }
}
proof fn l_ls(v: Vec<Loc<Expression>>, k: nat, s: Substitutions) requires k <= v.len() ensures ls(v@, k, s) == lats(v, k, s) decreases k
{ if k > 0 { l_ls(v, (k - 1) as nat, s); } }
proof fn l_lsp<T: VB>(a: Seq<T>, b: Seq<T>, k: nat, s: Substitutions) requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == #[trigger] b[i] ensures ls(a, k, s) == ls(b, k, s) decreases k
{ if k > 0 { l_lsp(a, b, (k - 1) as nat, s); } }
pub type Ls<'a> = Seq<&'a Loc<Expression>>;
pub open spec fn sq1<'a>(a: &'a Loc<Expression>) -> Ls<'a> { seq![a] }
pub open spec fn sq2<'a>(a: &'a Loc<Expression>, b: &'a Loc<Expression>) -> Ls<'a> { seq![a, b] }
pub open spec fn sq3<'a>(a: &'a Loc<Expression>, b: &'a Loc<Expression>, c: &'a Loc<Expression>) -> Ls<'a> { seq![a, b, c] }
pub fn vvec1<'a>(a: &'a Box<Loc<Expression>>) -> (r: Vec<&'a Loc<Expression>>) ensures r@ == sq1(&**a) { vec![&**a] }
pub fn vvec2<'a>(a: &'a Box<Loc<Expression>>, b: &'a Box<Loc<Expression>>) -> (r: Vec<&'a Loc<Expression>>) ensures r@ == sq2(&**a, &**b) { vec![&**a, &**b] }
pub fn vvec3<'a>(a: &'a Box<Loc<Expression>>, b: &'a Box<Loc<Expression>>, c: &'a Box<Loc<Expression>>) -> (r: Vec<&'a Loc<Expression>>) ensures r@ == sq3(&**a, &**b, &**c) { vec![&**a, &**b, &**c] }
proof fn l_ls1(a: &Loc<Expression>, s: Substitutions) ensures ls(sq1(a), 1, s) == lat(a.inner, s) { reveal_with_fuel(ls, 3); }
proof fn l_ls2(a: &Loc<Expression>, b: &Loc<Expression>, s: Substitutions) ensures ls(sq2(a, b), 2, s) == join(lat(a.inner, s), lat(b.inner, s)) { reveal_with_fuel(ls, 4); }
proof fn l_ls3(a: &Loc<Expression>, b: &Loc<Expression>, c: &Loc<Expression>, s: Substitutions) ensures ls(sq3(a, b, c), 3, s) == join(join(lat(a.inner, s), lat(b.inner, s)), lat(c.inner, s)) { reveal_with_fuel(ls, 5); }
proof fn l_lspush(v: Seq<&Loc<Expression>>, x: &Loc<Expression>, s: Substitutions) ensures ls(v.push(x), v.push(x).len(), s) == join(ls(v, v.len(), s), lat(x.inner, s)) { l_lsp(v, v.push(x), v.len(), s); assert(v.push(x).len() == v.len() + 1); }
pub open spec fn argn<T>(a: ArgumentList<T>) -> nat { match a { ArgumentList::Named(v) => v.len() as nat, ArgumentList::Positional(v) => v.len() as nat } }
pub open spec fn argk<T>(a: ArgumentList<T>, i: int) -> Loc<T> { match a { ArgumentList::Named(v) => match v[i] { NamedArgument::Full(_, x) => x, NamedArgument::Short(_, x) => x }, ArgumentList::Positional(v) => v[i] } }
pub open spec fn args_are<'a, T>(a: ArgumentList<T>, v: Seq<&'a Loc<T>>, k: int) -> bool { v.len() == k && forall|i: int| 0 <= i < k ==> *(#[trigger] v[i]) == argk(a, i) }
pub open spec fn args_lat(a: ArgumentList<Expression>, k: nat, s: Substitutions) -> Lat { match a { ArgumentList::Positional(v) => lats(v, k, s), ArgumentList::Named(v) => latn(v, k, s) } }
proof fn l_args(a: ArgumentList<Expression>, v: Seq<&Loc<Expression>>, k: nat, s: Substitutions) requires k <= argn(a), v.len() == argn(a), forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == argk(a, i) ensures ls(v, k, s) == args_lat(a, k, s) decreases k
{ if k > 0 { l_args(a, v, (k - 1) as nat, s); assert(*v[k - 1] == argk(a, k - 1)); } }
#[verifier::external_body]
pub fn vdepth(id: &ExprID) -> (r: Result<ConcreteType>) ensures r matches Ok(t) ==> t == etype(id.0) { unimplemented!() }
impl BigInt {
    #[verifier::external_body]
    pub fn to_usize(&self) -> (r: Option<usize>) ensures r matches Some(x) ==> big(*self) == x { unimplemented!() }
}
/*@ rules
rule: $x.borrow().clone().map(|_| $e) ==> { let q = $x.vb(); vloc($e) }
rule: $x.borrow() ==> $x.vb()
rule: ctx.types.concrete_type_of($x.at_loc($l), $s, $t) ==> vdepth($x)
rule: &[$a.as_ref(), $b.as_ref(), $c.as_ref()] ==> &vvec3($a, $b, $c)
rule: &[$a.as_ref(), $b.as_ref()] ==> &vvec2($a, $b)
rule: &[$a.as_ref()] ==> &vvec1($a)
rule: args.expressions() ==> args.inner.expressions()
rule: $x.ok_or_else($f)? ==> match $x { Some(v) => v, None => return Err(SErr::new()) }
rule: arg_availability.unwrap_or(0) + $x ==> vplus(arg_availability.unwrap_or(0), $x)
macro: panic ==> (return vdiverge())
@*/
/*@ fn spade-hir-lowering/src/pipelines.rs :: try_compute_availability
attr: #[verifier::exec_allows_no_decreases_clause]
sig: (exprs: &Vec<impl VB>, ctx: &Context) -> (r: Result<Option<usize>>)
requires: ctx.subs.current_stage < ctx.subs.inner@.len()
ensures: r matches Ok(v) ==> ls(exprs@, exprs@.len(), ctx.subs) == to_lat(v)
loop 0 inv: vs0@ == exprs@, ls(exprs@, vi0 as nat, ctx.subs) == to_lat(result)
@*/
/*@ fn spade-hir/src/expression.rs :: ArgumentList::expressions
ensures: args_are(*self, r@, argn(*self) as int)
loop 0 inv: vs0@.len() == argn(*self), args_are(*self, vacc0@, vi0 as int)
loop 1 inv: vs1@.len() == argn(*self), args_are(*self, vacc1@, vi1 as int)
@*/
/*@ fn spade-hir-lowering/src/pipelines.rs :: <PipelineAvailability for Expression>::available_in
impl: impl Expression
attr: #[verifier::exec_allows_no_decreases_clause]
byref: yes
rule: matched.as_ref() ==> &**matched
macro: panic ==> (return vdiverge())
requires: ctx.subs.current_stage < ctx.subs.inner@.len()
ensures: r matches Ok(v) ==> lat(*self, ctx.subs) == to_lat(v)
entry: let ghost s = ctx.subs; proof {
        assert forall|a: &Loc<Expression>| #[trigger] ls(sq1(a), sq1(a).len(), s) == lat(a.inner, s) by { l_ls1(a, s); }
        assert forall|a: &Loc<Expression>, b: &Loc<Expression>| #[trigger] ls(sq2(a, b), sq2(a, b).len(), s) == join(lat(a.inner, s), lat(b.inner, s)) by { l_ls2(a, b, s); }
        assert forall|a: &Loc<Expression>, b: &Loc<Expression>, c: &Loc<Expression>| #[trigger] ls(sq3(a, b, c), sq3(a, b, c).len(), s) == join(join(lat(a.inner, s), lat(b.inner, s)), lat(c.inner, s)) by { l_ls3(a, b, c, s); }
        assert forall|v: Vec<Loc<Expression>>| #[trigger] ls(v@, v@.len(), s) == lats(v, v@.len(), s) by { l_ls(v, v@.len(), s); }
        assert forall|v: Seq<&Loc<Expression>>, x: &Loc<Expression>| #[trigger] ls(v.push(x), v.push(x).len(), s) == join(ls(v, v.len(), s), lat(x.inner, s)) by { l_lspush(v, x, s); }
    }
loop 0 inv: vs0 == values, ls(exprs@, exprs@.len(), s) == latb(*values, vi0 as nat, s)
loop 1 inv: vacc1@ =~= vs1@.take(vi1 as int)
loop 1 after: proof { l_args(args.inner, vacc1@, argn(args.inner), s); }
@*/
pub type Names = Seq<(Loc<NameID>, Option<Loc<()>>)>;
/// the names a statement brings into scope
pub open spec fn intro(st: Statement) -> Names {
    match st { Statement::Binding(b) => pat_names(b.pattern.inner), Statement::Register(r) => pat_names(r.pattern.inner), _ => Seq::empty() }
}
pub open spec fn intro_value(st: Statement) -> Expression {
    match st { Statement::Binding(b) => b.value.inner, Statement::Register(r) => r.value.inner, _ => arbitrary() }
}
pub open spec fn fresh(s: Substitutions, n: Names) -> bool {
    &&& forall|i: int| 0 <= i < n.len() ==> !live(s, (#[trigger] n[i]).0.inner.0)
    &&& forall|i: int, j: int| 0 <= i < j < n.len() ==> (#[trigger] n[i]).0.inner.0 != (#[trigger] n[j]).0.inner.0
}
/// the entry a new name gets in the last stage
pub open spec fn new_entry(b: Substitutions, e: (Loc<NameID>, Option<Loc<()>>), time: nat) -> bool {
    let id = e.0.inner.0;
    last(b).dom().contains(id) && (if e.1 is Some { last(b)[id] is Wire } else { defined(e.0.inner, time, (b.inner@.len() - 1) as nat, zero_sized(ntype(id)))(last(b)[id]) })
}
/// the first `m` names are added to the last stage, nothing else changes
pub open spec fn named(a: Substitutions, b: Substitutions, n: Names, m: int, time: nat) -> bool {
    &&& b.inner@.len() == a.inner@.len() && b.current_stage == a.current_stage
    &&& forall|k: int| 0 <= k < a.inner@.len() - 1 ==> stage(b, k) == #[trigger] stage(a, k)
    &&& forall|i: int| 0 <= i < m ==> new_entry(b, #[trigger] n[i], time)
    &&& forall|id: u64| #[trigger] live(b, id) <==> live(a, id) || in_names(n, m, id)
    &&& forall|id: u64| #[trigger] last(a).dom().contains(id) ==> last(b).dom().contains(id) && last(b)[id] == last(a)[id]
}
pub open spec fn in_names(n: Names, m: int, id: u64) -> bool { exists|i: int| 0 <= i < m && (#[trigger] n[i]).0.inner.0 == id }
proof fn l_named(a: Substitutions, b: Substitutions, c: Substitutions, n: Names, m: int, time: nat)
    requires wf(a), wf(b), named(a, b, n, m, time), 0 <= m < n.len(), fresh(a, n), adds_name(b, c, n[m].0.inner.0), new_entry(c, n[m], time),
        forall|id: u64| #[trigger] live(c, id) <==> live(b, id) || id == n[m].0.inner.0
    ensures named(a, c, n, m + 1, time)
{
    assert forall|i: int| 0 <= i < m + 1 implies new_entry(c, #[trigger] n[i], time) by { if i < m { assert(new_entry(b, n[i], time)); assert(n[i].0.inner.0 != n[m].0.inner.0); } }
    assert forall|id: u64| #[trigger] live(c, id) <==> live(a, id) || in_names(n, m + 1, id) by {
        if in_names(n, m, id) { let i = choose|i: int| 0 <= i < m && (#[trigger] n[i]).0.inner.0 == id; assert(0 <= i < m + 1 && n[i].0.inner.0 == id); }
        if id == n[m].0.inner.0 { assert(0 <= m < m + 1 && n[m].0.inner.0 == id); }
        if in_names(n, m + 1, id) && id != n[m].0.inner.0 { let i = choose|i: int| 0 <= i < m + 1 && (#[trigger] n[i]).0.inner.0 == id; assert(0 <= i < m && n[i].0.inner.0 == id); }
    }
    assert forall|id: u64| #[trigger] last(a).dom().contains(id) implies last(c).dom().contains(id) && last(c)[id] == last(a)[id] by { assert(live(a, id)); assert(id != n[m].0.inner.0); assert(last(b).dom().contains(id)); }
    assert forall|k: int| 0 <= k < a.inner@.len() - 1 implies stage(c, k) == #[trigger] stage(a, k) by { assert(stage(b, k) == stage(a, k)); }
}
pub open spec fn sg(env: Env) -> Sig { |id: u64, t: nat| env(VKey::N(id), t) }
/// boundary `k` opens when its enable signal is true
pub open spec fn gates(names: Seq<Option<ValueName>>, env: Env) -> En { |k: nat, t: nat| k < names.len() ==> oc(names[k as int], env, t) }
pub open spec fn cond_of(x: Option<PipelineRegMarkerExtra>, c: Option<ValueName>) -> bool {
    match x {
        Some(PipelineRegMarkerExtra::Condition(e)) => c matches Some(v) && is_sig(e.inner, v),
        Some(_) => false,
        None => c is None,
    }
}
/// the statements `m..` are the registers (with their enable muxes) of `rs[..n]`
pub open spec fn regs_emitted(st: Seq<Loc<mir::Statement>>, rs: Seq<SubRegister>, n: int, en: Option<ValueName>) -> bool {
    forall|env: Env, i: int| 0 <= i < n && all_hold(st, env) ==> #[trigger] reg_emitted(env, rs[i], en)
}
pub open spec fn reg_emitted(env: Env, r: SubRegister, en: Option<ValueName>) -> bool {
    forall|t: nat| #[trigger] env(VKey::N(r.new.0), t + 1) == (if oc(en, env, t) { env(VKey::N(r.previous.0), t) } else { env(VKey::N(r.new.0), t) })
}
/// the last one or two statements are the register of `rs[n]`
pub open spec fn one_reg(a: Seq<Loc<mir::Statement>>, b: Seq<Loc<mir::Statement>>, r: SubRegister, en: Option<ValueName>, clk: u64) -> bool {
    (b.last().inner matches mir::Statement::Register(y) && key(y.clock.inner) == VKey::N(clk) && y.ty == mirt(ntype(r.original.inner.0))) && match en {
        None => b.len() == a.len() + 1 && (b.last().inner matches mir::Statement::Register(x) && key(x.name.inner) == VKey::N(r.new.0) && key(x.value.inner) == VKey::N(r.previous.0) && x.reset is None),
        Some(e) => b.len() == a.len() + 2 && (b.last().inner matches mir::Statement::Register(x) && key(x.name.inner) == VKey::N(r.new.0) && x.reset is None
            && (b[a.len() as int].inner matches mir::Statement::Binding(m) && m.operator is Select && m.operands@.len() == 3 && key(m.name.inner) == key(x.value.inner)
                && key(m.operands@[0].inner) == key(e) && key(m.operands@[1].inner) == VKey::N(r.previous.0) && key(m.operands@[2].inner) == VKey::N(r.new.0))),
    }
}
proof fn l_emitted(a: Seq<Loc<mir::Statement>>, b: Seq<Loc<mir::Statement>>, rs: Seq<SubRegister>, n: int, en: Option<ValueName>, clk: u64)
    requires grows(a, b), regs_emitted(a, rs, n, en), 0 <= n < rs.len(), one_reg(a, b, rs[n], en, clk)
    ensures regs_emitted(b, rs, n + 1, en)
{
    assert forall|env: Env, i: int| 0 <= i < n + 1 && all_hold(b, env) implies #[trigger] reg_emitted(env, rs[i], en) by {
        l_grows(a, b, env);
        if i == n {
            let r = rs[n];
            assert(holds(b.last().inner, env));
            assert(holds(b[a.len() as int].inner, env));
            assert forall|t: nat| #[trigger] env(VKey::N(r.new.0), t + 1) == (if oc(en, env, t) { env(VKey::N(r.previous.0), t) } else { env(VKey::N(r.new.0), t) }) by {
                let x = b.last().inner->Register_0;
                assert(env(key(x.name.inner), t + 1) == env(key(x.value.inner), t));
                if en is Some { let m = b[a.len() as int].inner->Binding_0; assert(computes(m.operator, m.operands@, env, t, env(key(m.name.inner), t))); }
            }
        }
    }
}
proof fn l_regs(st: Seq<Loc<mir::Statement>>, rs: Seq<SubRegister>, names: Seq<Option<ValueName>>, k: nat)
    requires k < names.len(), regs_emitted(st, rs, rs.len() as int, names[k as int])
    ensures forall|env: Env| #[trigger] all_hold(st, env) ==> regs_ok(rs, k, sg(env), gates(names, env))
{
    assert forall|env: Env| #[trigger] all_hold(st, env) implies regs_ok(rs, k, sg(env), gates(names, env)) by {
        assert forall|i: int| 0 <= i < rs.len() implies reg_ok((#[trigger] rs[i]).previous.0, rs[i].new.0, k, sg(env), gates(names, env)) by {
            assert(reg_emitted(env, rs[i], names[k as int]));
            assert forall|t: nat| #[trigger] sg(env)(rs[i].new.0, t + 1) == (if gates(names, env)(k, t) { sg(env)(rs[i].previous.0, t) } else { sg(env)(rs[i].new.0, t) }) by {
                assert(env(VKey::N(rs[i].new.0), t + 1) == (if oc(names[k as int], env, t) { env(VKey::N(rs[i].previous.0), t) } else { env(VKey::N(rs[i].new.0), t) }));
            }
        }
    }
}
/*@ fn spade-hir-lowering/src/pipelines.rs :: handle_statement
requires: wf(old(ctx).subs), old(ctx).subs.current_stage == 0, *old(current_stage) + 1 == old(ctx).subs.inner@.len(), (statement.inner is PipelineRegMarker) ==> *old(current_stage) < old(stage_enable_names)@.len(), fresh(old(ctx).subs, intro(statement.inner))
ensures: r is Ok ==> (wf(final(ctx).subs) && final(ctx).subs.current_stage == 0 && grows(old(statements).stmts@, final(statements).stmts@) && *final(current_stage) + 1 == final(ctx).subs.inner@.len() && final(stage_enable_names)@ == old(stage_enable_names)@),
    r is Ok ==> (forall|env: Env| aligned(old(ctx).subs, sg(env), gates(old(stage_enable_names)@, env)) && #[trigger] all_hold(final(statements).stmts@, env) ==> aligned(final(ctx).subs, sg(env), gates(old(stage_enable_names)@, env))),
    r is Ok ==> (match statement.inner {
        Statement::PipelineRegMarker(x) => *final(current_stage) == *old(current_stage) + 1 && final(local_conds)@.len() == old(local_conds)@.len() + 1 && final(local_conds)@.take(old(local_conds)@.len() as int) =~= old(local_conds)@ && cond_of(x, final(local_conds)@.last())
            && (forall|id: u64| #[trigger] live(final(ctx).subs, id) <==> live(old(ctx).subs, id)),
        _ => *final(current_stage) == *old(current_stage) && final(local_conds)@ == old(local_conds)@
            && named(old(ctx).subs, final(ctx).subs, intro(statement.inner), intro(statement.inner).len() as int, when(lat(intro_value(statement.inner), old(ctx).subs))),
    })
entry: let ghost s0 = ctx.subs; proof { assert(named(s0, s0, intro(statement.inner), 0, when(lat(intro_value(statement.inner), s0)))); }
loop 0 inv: *statements == *old(statements), *local_conds == *old(local_conds), *stage_enable_names == *old(stage_enable_names), *current_stage == *old(current_stage), *current_stage + 1 == ctx.subs.inner@.len(), wf(ctx.subs), vs0@ == intro(statement.inner), fresh(s0, vs0@), wf(s0),
    to_lat(time) == lat(intro_value(statement.inner), s0), named(s0, ctx.subs, vs0@, vi0 as int, when(to_lat(time))),
    forall|sig: Sig, en: En| aligned(s0, sig, en) ==> #[trigger] aligned(ctx.subs, sig, en)
loop 0 start: let ghost b = ctx.subs; proof { assert(!live(s0, vs0@[vi0 - 1].0.inner.0)); assert(!in_names(vs0@, vi0 - 1, vs0@[vi0 - 1].0.inner.0)); }
loop 0 end: proof { l_named(s0, b, ctx.subs, vs0@, vi0 - 1, when(to_lat(time))); }
loop 1 inv: *statements == *old(statements), *local_conds == *old(local_conds), *stage_enable_names == *old(stage_enable_names), *current_stage == *old(current_stage), *current_stage + 1 == ctx.subs.inner@.len(), wf(ctx.subs), vs1@ == intro(statement.inner), fresh(s0, vs1@), wf(s0),
    to_lat(time) == lat(intro_value(statement.inner), s0), named(s0, ctx.subs, vs1@, vi1 as int, when(to_lat(time))),
    forall|sig: Sig, en: En| aligned(s0, sig, en) ==> #[trigger] aligned(ctx.subs, sig, en)
loop 1 start: let ghost b = ctx.subs; proof { assert(!live(s0, vs1@[vi1 - 1].0.inner.0)); assert(!in_names(vs1@, vi1 - 1, vs1@[vi1 - 1].0.inner.0)); }
loop 1 end: proof { l_named(s0, b, ctx.subs, vs1@, vi1 - 1, when(to_lat(time))); }
loop 2 inv: wf(ctx.subs), stage_enable_names@ == old(stage_enable_names)@, *current_stage == *old(current_stage), *current_stage < stage_enable_names@.len(), ctx.subs == s1, *local_conds == lc1, grows(old(statements).stmts@, statements.stmts@),
    vs2@ == live_vars@, regs_emitted(statements.stmts@, vs2@, vi2 as int, stage_enable_names@[*current_stage as int])
loop 2 start: let ghost st0 = statements.stmts@;
loop 2 end: proof { l_emitted(st0, statements.stmts@, vs2@, vi2 - 1, stage_enable_names@[*current_stage as int], clock.inner.0); }
loop 2 after: proof { l_regs(statements.stmts@, live_vars@, stage_enable_names@, *current_stage as nat); }
after-call next_stage: let ghost s1 = ctx.subs; let ghost lc1 = *local_conds; proof { assert(stage_enable_names.len() >= 0); assert forall|id: u64| #[trigger] live(s1, id) <==> live(s0, id) by { assert(s1.live_vars == s0.live_vars); } assert(local_conds@.take(old(local_conds)@.len() as int) =~= old(local_conds)@); }
@*/

// ==================================================================== the whole pipeline
/*@ rules
droplet: num_stages
rule: stage_enable_names.reverse() ==> vreverse(&mut stage_enable_names)
rule: enable_name.clone().expect($m) ==> vsome(enable_name)
rule: ready_signals.get($i).cloned().flatten() ==> vflat(&ready_signals, $i)
@*/
#[verifier::external_body]
pub fn vreverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
/// `expect` on a clone: must be present
#[verifier::external_body]
pub fn vsome<T>(x: &Option<T>) -> (r: T) requires *x is Some ensures *x == Some(r) { unimplemented!() }
#[verifier::external_body]
pub fn vflat<T>(v: &Vec<Option<T>>, i: usize) -> (r: Option<T>) ensures r == (if i < v@.len() { v@[i as int] } else { None }) { unimplemented!() }
pub type Stmts = Seq<Loc<Statement>>;
/// the stage boundaries among the first `n` statements, with their conditions
pub open spec fn marks(s: Stmts, n: int) -> Seq<Option<PipelineRegMarkerExtra>> decreases n {
    if n <= 0 { Seq::empty() } else { match s[n - 1].inner { Statement::PipelineRegMarker(x) => marks(s, n - 1).push(x), _ => marks(s, n - 1) } }
}
pub open spec fn body_stmts(b: Expression) -> Stmts { match b.kind { ExprKind::Block(k) => k.statements@, _ => Seq::empty() } }
pub open spec fn in_inputs(inp: Seq<Input>, m: int, x: u64) -> bool { exists|i: int| 0 <= i < m && (#[trigger] inp[i]).name.inner.0 == x }
/// the names in scope after the inputs and the first `n` statements
pub open spec fn scope(inp: Seq<Input>, s: Stmts, n: int) -> spec_fn(u64) -> bool decreases n {
    if n <= 0 { |x: u64| in_inputs(inp, inp.len() as int, x) }
    else { |x: u64| scope(inp, s, n - 1)(x) || in_names(intro(s[n - 1].inner), intro(s[n - 1].inner).len() as int, x) }
}
/// every name of a unit is bound once (names are unique by construction)
pub open spec fn once(inp: Seq<Input>, s: Stmts) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < inp.len() ==> (#[trigger] inp[i]).name.inner.0 != (#[trigger] inp[j]).name.inner.0
    &&& forall|n: int, i: int| 0 <= n < s.len() && 0 <= i < intro(s[n].inner).len() ==> !scope(inp, s, n)((#[trigger] intro(s[n].inner)[i]).0.inner.0)
    &&& forall|n: int, i: int, j: int| 0 <= n < s.len() && 0 <= i < j < intro(s[n].inner).len() ==> (#[trigger] intro(s[n].inner)[i]).0.inner.0 != (#[trigger] intro(s[n].inner)[j]).0.inner.0
}
pub open spec fn conds_ok(m: Seq<Option<PipelineRegMarkerExtra>>, lc: Seq<Option<ValueName>>) -> bool { m.len() == lc.len() && forall|k: int| 0 <= k < m.len() ==> cond_of(#[trigger] m[k], lc[k]) }
/// stage `k` is ready: no condition from its boundary on holds it back
pub open spec fn ready(lc: Seq<Option<ValueName>>, env: Env, k: int, t: nat) -> bool decreases lc.len() - k {
    if k < 0 || k >= lc.len() { true } else { oc(lc[k], env, t) && ready(lc, env, k + 1, t) }
}
pub open spec fn cond_from(m: Seq<Option<PipelineRegMarkerExtra>>, k: int) -> bool { exists|j: int| k <= j < m.len() && (#[trigger] m[j]) is Some }
/// the signal of each stage's readiness
pub open spec fn readies(names: Seq<Option<ValueName>>, lc: Seq<Option<ValueName>>, env: Env) -> bool {
    names.len() == lc.len() + 1 && forall|k: int, t: nat| 0 <= k < names.len() ==> #[trigger] oc(names[k], env, t) == ready(lc, env, k, t)
}
/// the signal of each stage's validity: the first stage is valid; data moves along with its validity, and a stage that stalls while the following ones go on leaves a bubble
pub open spec fn valids(v: Seq<Option<ValueName>>, lc: Seq<Option<ValueName>>, env: Env) -> bool {
    &&& v.len() == lc.len() + 1 && v[0] is None
    &&& forall|k: int, t: nat| 0 <= k < lc.len() ==> valid_step(v, lc, env, k, t)
}
pub open spec fn valid_step(v: Seq<Option<ValueName>>, lc: Seq<Option<ValueName>>, env: Env, k: int, t: nat) -> bool {
    oc(v[k + 1], env, t + 1) == (!(ready(lc, env, k + 1, t) && !oc(lc[k], env, t)) && (if ready(lc, env, k, t) { oc(v[k], env, t) } else { oc(v[k + 1], env, t) }))
}
pub open spec fn pc_ok(p: MaybePipelineContext, lc: Seq<Option<ValueName>>, env: Env) -> bool {
    p matches MaybePipelineContext::Pipeline(c) && readies(c.ready_signals@, lc, env) && valids(c.valid_signals@, lc, env)
}
pub open spec fn opens(lc: Seq<Option<ValueName>>, env: Env) -> En { |k: nat, t: nat| ready(lc, env, k as int, t) }
proof fn l_prefix(s: Stmts, q: int, n: int)
    requires 0 <= q <= n <= s.len()
    ensures marks(s, q).len() <= marks(s, n).len(), forall|i: int| 0 <= i < marks(s, q).len() ==> marks(s, n)[i] == #[trigger] marks(s, q)[i]
    decreases n
{ if q < n { l_prefix(s, q, n - 1); } }
proof fn l_has(m: Seq<Option<PipelineRegMarkerExtra>>, k: int)
    requires 0 <= k
    ensures k < m.len() ==> cond_from(m, k) == (m[k] is Some || cond_from(m, k + 1)), k >= m.len() ==> !cond_from(m, k)
{
    if k < m.len() {
        if m[k] is Some { assert(k <= k < m.len() && m[k] is Some); }
        if cond_from(m, k + 1) { let j = choose|j: int| k + 1 <= j < m.len() && (#[trigger] m[j]) is Some; assert(k <= j < m.len() && m[j] is Some); }
        if cond_from(m, k) && !(m[k] is Some) { let j = choose|j: int| k <= j < m.len() && (#[trigger] m[j]) is Some; assert(k + 1 <= j < m.len() && m[j] is Some); }
    }
}
proof fn l_fresh(s: Substitutions, inp: Seq<Input>, b: Stmts, n: int)
    requires once(inp, b), 0 <= n < b.len(), forall|id: u64| #[trigger] live(s, id) <==> scope(inp, b, n)(id)
    ensures fresh(s, intro(b[n].inner))
{ }
proof fn l_conds(s: Stmts, n: int, a: Seq<Option<ValueName>>, b: Seq<Option<ValueName>>)
    requires 0 < n <= s.len(), conds_ok(marks(s, n - 1), a),
        match s[n - 1].inner { Statement::PipelineRegMarker(x) => b.len() == a.len() + 1 && b.take(a.len() as int) =~= a && cond_of(x, b.last()), _ => b == a }
    ensures conds_ok(marks(s, n), b)
{
    assert forall|k: int| 0 <= k < marks(s, n).len() implies cond_of(#[trigger] marks(s, n)[k], b[k]) by {
        if k < a.len() { assert(b[k] == b.take(a.len() as int)[k] || b == a); assert(cond_of(marks(s, n - 1)[k], a[k])); }
    }
}
/// one more stage's enable signal
proof fn l_enable(a: Seq<Loc<mir::Statement>>, b: Seq<Loc<mir::Statement>>, names: Seq<Option<ValueName>>, lc: Seq<Option<ValueName>>, k: int, c0: Option<ValueName>, c1: Option<ValueName>)
    requires grows(a, b), 0 <= k < lc.len(), names.len() == lc.len(),
        forall|env: Env, t: nat| #[trigger] all_hold(a, env) ==> #[trigger] oc(c0, env, t) == ready(lc, env, k + 1, t),
        forall|env: Env, j: int, t: nat| #[trigger] all_hold(a, env) && k + 1 <= j < lc.len() ==> #[trigger] oc(names[j], env, t) == ready(lc, env, j, t),
        c1 == names[k], 
        c1 is None ==> lc[k] is None && c0 is None,
        c1 is Some ==> b.len() == a.len() + 1 && (b.last().inner matches mir::Statement::Binding(m) && m.name.inner == c1->0 && (match (lc[k], c0) {
            (Some(l), None) => m.operator is Alias && m.operands@.len() == 1 && m.operands@[0].inner == l,
            (None, Some(p)) => m.operator is Alias && m.operands@.len() == 1 && m.operands@[0].inner == p,
            (Some(l), Some(p)) => m.operator is LogicalAnd && m.operands@.len() == 2 && ((m.operands@[0].inner == l && m.operands@[1].inner == p) || (m.operands@[0].inner == p && m.operands@[1].inner == l)),
            (None, None) => false,
        })),
    ensures forall|env: Env, t: nat| #[trigger] all_hold(b, env) ==> #[trigger] oc(c1, env, t) == ready(lc, env, k, t),
        forall|env: Env, j: int, t: nat| #[trigger] all_hold(b, env) && k <= j < lc.len() ==> #[trigger] oc(names[j], env, t) == ready(lc, env, j, t),
{
    assert forall|env: Env, t: nat| #[trigger] all_hold(b, env) implies #[trigger] oc(c1, env, t) == ready(lc, env, k, t) by {
        l_grows(a, b, env);
        assert(oc(c0, env, t) == ready(lc, env, k + 1, t));
        assert(ready(lc, env, k, t) == (oc(lc[k], env, t) && ready(lc, env, k + 1, t)));
        if c1 is Some {
            assert(holds(b.last().inner, env));
            let m = b.last().inner->Binding_0;
            assert(computes(m.operator, m.operands@, env, t, env(key(m.name.inner), t)));
        }
    }
    assert forall|env: Env, j: int, t: nat| #[trigger] all_hold(b, env) && k <= j < lc.len() implies #[trigger] oc(names[j], env, t) == ready(lc, env, j, t) by { l_grows(a, b, env); }
}
proof fn l_last_ready(names: Seq<Option<ValueName>>, lc: Seq<Option<ValueName>>, k: int)
    requires 0 <= k < lc.len() ensures forall|env: Env, t: nat| k + 1 == lc.len() ==> #[trigger] ready(lc, env, k + 1, t) { }
/*@ fn spade-hir-lowering/src/pipelines.rs :: lower_pipeline
byref: yes
rule: stage_enable_names.into_iter() ==> stage_enable_names.iter().cloned()
rule: local_conds.into_iter() ==> local_conds.iter().cloned()
macro: panic ==> (return vdiverge())
requires: wf(old(ctx).subs), old(ctx).subs.current_stage == 0, old(ctx).subs.inner@.len() == 1, forall|id: u64| !#[trigger] live(old(ctx).subs, id), forall|sig: Sig, en: En| #[trigger] aligned(old(ctx).subs, sig, en), once(hir_inputs@, body_stmts(body.inner)), hir_inputs@.len() > (if is_nonstatic_method { 1int } else { 0int })
ensures: r is Ok ==> (wf(final(ctx).subs) && final(ctx).subs.inner@.len() == marks(body_stmts(body.inner), body_stmts(body.inner).len() as int).len() + 1),
    r is Ok ==> (exists|lc: Seq<Option<ValueName>>| #[trigger] conds_ok(marks(body_stmts(body.inner), body_stmts(body.inner).len() as int), lc) && (forall|env: Env| #[trigger] all_hold(final(statements).stmts@, env) ==> aligned(final(ctx).subs, sg(env), opens(lc, env)) && pc_ok(final(ctx).pipeline_context, lc, env))),
    r is Ok ==> (lat(body.inner, final(ctx).subs) is Any || lat(body.inner, final(ctx).subs) == Lat::At(0))
entry: let ghost bs = body_stmts(body.inner); let ghost mm = marks(bs, bs.len() as int);
loop 0 inv: wf(ctx.subs), ctx.subs.current_stage == 0, ctx.subs.inner@.len() == 1, forall|sig: Sig, en: En| #[trigger] aligned(ctx.subs, sig, en), *statements == *old(statements), forall|id: u64| #[trigger] live(ctx.subs, id) <==> in_inputs(hir_inputs@, vi0 as int, id), vs0@ == hir_inputs@
loop 0 start: proof { assert(!in_inputs(hir_inputs@, vi0 - 1, hir_inputs@[vi0 - 1].name.inner.0)); }
loop 0 end: proof {
        assert forall|id: u64| #[trigger] live(ctx.subs, id) <==> in_inputs(hir_inputs@, vi0 as int, id) by {
            if in_inputs(hir_inputs@, vi0 as int, id) && id != hir_inputs@[vi0 - 1].name.inner.0 { let i = choose|i: int| 0 <= i < vi0 && (#[trigger] hir_inputs@[i]).name.inner.0 == id; assert(0 <= i < vi0 - 1 && hir_inputs@[i].name.inner.0 == id); }
            if in_inputs(hir_inputs@, vi0 - 1, id) { let i = choose|i: int| 0 <= i < vi0 - 1 && (#[trigger] hir_inputs@[i]).name.inner.0 == id; assert(0 <= i < vi0 && hir_inputs@[i].name.inner.0 == id); }
            assert(hir_inputs@[vi0 - 1].name.inner.0 == hir_inputs@[vi0 - 1].name.inner.0);
        }
    }
loop 1 inv: vs1@ == bs, mm == marks(bs, bs.len() as int), stage_enable_names@.len() == mm.len() - marks(bs, bs.len() - vi1).len(), has_enable == cond_from(mm, marks(bs, bs.len() - vi1).len() as int),
    forall|i: int| 0 <= i < stage_enable_names@.len() ==> ((#[trigger] stage_enable_names@[i]) is Some <==> cond_from(mm, mm.len() - 1 - i))
loop 1 start: proof { l_prefix(bs, bs.len() - vi1 + 1, bs.len() as int); l_prefix(bs, bs.len() - vi1, bs.len() as int); l_has(mm, marks(bs, bs.len() - vi1).len() as int); }
loop 1 end: proof {
        let q = bs.len() - vi1;
        let k0 = marks(bs, q).len() as int;
        if bs[q].inner is PipelineRegMarker {
            assert(marks(bs, q + 1).len() == k0 + 1);
            assert(mm[k0] == marks(bs, q + 1)[k0]);
            assert(mm.len() - 1 - (stage_enable_names@.len() - 1) == k0);
        }
    }
before-call vreverse: let ghost rev = stage_enable_names@;
after-call vreverse: let ghost names = stage_enable_names@; proof { assert forall|k: int| 0 <= k < mm.len() implies ((#[trigger] names[k]) is Some <==> cond_from(mm, k)) by { assert(names[k] == rev[rev.len() - 1 - k]); } }
loop 2 inv: vs2@ == bs, mm == marks(bs, bs.len() as int), once(hir_inputs@, bs), names.len() == mm.len(), stage_enable_names@ == names, wf(ctx.subs), ctx.subs.current_stage == 0, current_stage == marks(bs, vi2 as int).len(), current_stage + 1 == ctx.subs.inner@.len(), conds_ok(marks(bs, vi2 as int), local_conds@),
    forall|id: u64| #[trigger] live(ctx.subs, id) <==> scope(hir_inputs@, bs, vi2 as int)(id), grows(old(statements).stmts@, statements.stmts@),
    forall|env: Env| #[trigger] all_hold(statements.stmts@, env) ==> aligned(ctx.subs, sg(env), gates(names, env))
loop 2 start: let ghost st0 = statements.stmts@; let ghost lc0 = local_conds@; let ghost sub0 = ctx.subs;
    proof { l_prefix(bs, vi2 as int, bs.len() as int); l_fresh(ctx.subs, hir_inputs@, bs, vi2 - 1); }
loop 2 end: proof { l_conds(bs, vi2 as int, lc0, local_conds@); assert forall|env: Env| #[trigger] all_hold(statements.stmts@, env) implies aligned(ctx.subs, sg(env), gates(names, env)) by { l_grows(st0, statements.stmts@, env); } }
after-let current_enable: let ghost subs2 = ctx.subs; let ghost st2 = statements.stmts@; let ghost lc = local_conds@;
loop 3 inv: wlim5 == mm.len(), vs3@ == lc, wz5@ == names, names.len() == mm.len(), lc.len() == mm.len(), conds_ok(mm, lc), ctx.subs == subs2, forall|k: int| 0 <= k < mm.len() ==> ((#[trigger] names[k]) is Some <==> cond_from(mm, k)), grows(st2, statements.stmts@),
    current_enable is Some <==> cond_from(mm, wlim5 - vi3),
    forall|env: Env, t: nat| #[trigger] all_hold(statements.stmts@, env) ==> #[trigger] oc(current_enable, env, t) == ready(lc, env, wlim5 - vi3, t),
    forall|env: Env, k: int, t: nat| #[trigger] all_hold(statements.stmts@, env) && wlim5 - vi3 <= k < mm.len() ==> #[trigger] oc(names[k], env, t) == ready(lc, env, k, t)
loop 3 start: let ghost st0 = statements.stmts@; let ghost ce0 = current_enable; proof { l_has(mm, wlim5 - vi3); assert(cond_of(mm[wlim5 - vi3], lc[wlim5 - vi3])); }
loop 3 end: proof { l_enable(st0, statements.stmts@, names, lc, wlim5 - vi3, ce0, current_enable); }
after-let valid_signals: let ghost st3 = statements.stmts@;
loop 4 inv: vs4@ == names, vacc4@ =~= names.take(vi4 as int)
loop 5 after: proof {
        assert forall|env: Env| #[trigger] all_hold(statements.stmts@, env) implies aligned(ctx.subs, sg(env), opens(lc, env)) && readies(names.push(None), lc, env) && valids(valid_signals@, lc, env) by {
            l_grows(st3, statements.stmts@, env);
            l_grows(st2, st3, env);
            assert(aligned(ctx.subs, sg(env), gates(names, env)));
            assert forall|k: nat, t: nat| #[trigger] gates(names, env)(k, t) == opens(lc, env)(k, t) by { if k < mm.len() { assert(oc(names[k as int], env, t) == ready(lc, env, k as int, t)); } }
            assert(gates(names, env) =~= opens(lc, env));
            assert forall|k: int, t: nat| 0 <= k < names.len() + 1 implies #[trigger] oc(names.push(None)[k], env, t) == ready(lc, env, k, t) by { if k < mm.len() { assert(oc(names[k], env, t) == ready(lc, env, k, t)); } }
        }
    }
loop 5 inv: vs5@ == lc, ready_signals@ =~= names.push(None), lc.len() == mm.len(), names.len() == mm.len(), ctx.subs == subs2, grows(st3, statements.stmts@), valid_signals@.len() == vi5 + 1, valid_signals@[0] is None, prev_valid == valid_signals@.last(),
    forall|env: Env, k: int, t: nat| #[trigger] all_hold(st3, env) && 0 <= k < mm.len() ==> #[trigger] oc(names[k], env, t) == ready(lc, env, k, t),
    forall|env: Env, k: int, t: nat| #[trigger] all_hold(statements.stmts@, env) && 0 <= k < vi5 ==> #[trigger] valid_step(valid_signals@, lc, env, k, t)
loop 5 start: let ghost st0 = statements.stmts@; let ghost vs0_ = valid_signals@; proof { l_last_ready(names, lc, vi5 - 1); }
after-let valid_mux: let ghost sa = statements.stmts@;
after-let local_cond_inv: let ghost sb = statements.stmts@;
after-let stall_here: let ghost sc = statements.stmts@;
after-let stall_here_inv: let ghost sd = statements.stmts@;
after-let valid_next: let ghost se = statements.stmts@;
loop 5 end: proof {
        let k = vi5 - 1;
        assert(valid_signals@.len() == vi5 + 1);
        assert(grows(se, statements.stmts@));
        assert forall|env: Env, j: int, t: nat| #[trigger] all_hold(statements.stmts@, env) && 0 <= j < vi5 implies #[trigger] valid_step(valid_signals@, lc, env, j, t) by {
            l_grows(se, statements.stmts@, env);
            l_grows(sd, se, env);
            l_grows(sc, sd, env);
            l_grows(sb, sc, env);
            l_grows(sa, sb, env);
            l_grows(st0, sa, env);
            if j < k {
                assert(valid_step(vs0_, lc, env, j, t));
                assert(valid_signals@[j] == vs0_[j] && valid_signals@[j + 1] == vs0_[j + 1]);
            } else {
                l_grows(st3, st0, env);
                assert(oc(names[k], env, t) == ready(lc, env, k, t));
                if k + 1 < mm.len() { assert(oc(names[k + 1], env, t) == ready(lc, env, k + 1, t)); }
                assert(valid_signals@[k] == vs0_[k]);
                assert(mc(downstream_enable, env, t) == ready(lc, env, k + 1, t));
                assert(mc(valid_mux, env, t) == (if ready(lc, env, k, t) { oc(vs0_[k], env, t) } else { tr(env(key(valid_name), t)) }));
                assert(mc(local_cond_inv, env, t) == !oc(lc[k], env, t));
                assert(mc(stall_here, env, t) == (!oc(lc[k], env, t) && ready(lc, env, k + 1, t)));
                assert(mc(valid_next, env, t) == (mc(valid_mux, env, t) && !mc(stall_here, env, t)));
                if valid_next is Val {
                    assert(holds(statements.stmts@[se.len() as int].inner, env));
                    assert(env(key(valid_name), t + 1) == env(key(valid_next->Val_0), t));
                }
            }
        }
    }
@*/

// ==================================================================== names used in a stage
/// the signal that carries the value of an expression: a name stands for its entry in the stage it is used in (`k` for `stage(..)` references), and cannot be used before it is ready
pub open spec fn signal_of(e: Expression, s: Substitutions) -> Option<VKey> decreases e {
    match e.kind {
        ExprKind::Identifier(n) => entry_signal(look(s, n), n.0),
        ExprKind::PipelineRef { name, depth_typeexpr_id, .. } => match etype(depth_typeexpr_id.0) {
            ConcreteType::Integer(d) => if stage(s, big(d)).dom().contains(name.inner.0) { entry_signal(stage(s, big(d))[name.inner.0], name.inner.0) } else { None },
            _ => None,
        },
        ExprKind::Block(b) => match b.result { Some(x) => signal_of(x.inner, s), None => Some(VKey::E(e.id.0)) },
        _ => Some(VKey::E(e.id.0)),
    }
}
pub open spec fn entry_signal(a: Substitution, id: u64) -> Option<VKey> {
    match a { Substitution::Available(p) => Some(VKey::N(p.0)), Substitution::Wire => Some(VKey::N(id)), Substitution::ZeroSized => Some(VKey::N(id)), _ => None }
}
/// the stages that `stage(..)` references name exist (checked by type inference: assumed here)
pub open spec fn refs_ok(e: Expression, s: Substitutions) -> bool decreases e {
    match e.kind {
        ExprKind::PipelineRef { depth_typeexpr_id, .. } => etype(depth_typeexpr_id.0) matches ConcreteType::Integer(d) ==> 0 <= big(d) < s.inner@.len(),
        ExprKind::Block(b) => match b.result { Some(x) => refs_ok(x.inner, s), None => true },
        _ => true,
    }
}
/*@ rules
rule: self.kind ==> self.inner.kind
rule: mir::ValueName::Expr(self.id) ==> vname_expr(&self.inner.id)
rule: ValueName::Expr(self.id) ==> vname_expr(&self.inner.id)
rule: $x.map(Some) ==> match $x { Ok(v) => Ok(Some(v)), Err(e) => Err(e) }
rule: self.alias(ctx) ==> self.valias(ctx)
rule: result.variable(ctx) ==> result.vvariable(ctx)
rule: self.variable(ctx) ==> self.vvariable(ctx)
rule: subs.lookup_referenced(depth, name) ==> subs.lookup_referenced(depth, &name.inner)
@*/
pub fn vname_expr(id: &ExprID) -> (r: ValueName) ensures key(r) == VKey::E(id.0) { ValueName::Expr(ExprID(id.0)) }
/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::alias as valias
impl: impl Loc<Expression>
attr: #[verifier::exec_allows_no_decreases_clause]
requires: ctx.subs.current_stage < ctx.subs.inner@.len(), refs_ok(self.inner, ctx.subs)
ensures: r matches Ok(Some(v)) ==> signal_of(self.inner, ctx.subs) == Some(key(v.inner)), r matches Ok(None) ==> signal_of(self.inner, ctx.subs) == Some(VKey::E(self.inner.id.0))
@*/
/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::variable as vvariable
impl: impl Loc<Expression>
attr: #[verifier::exec_allows_no_decreases_clause]
requires: ctx.subs.current_stage < ctx.subs.inner@.len(), refs_ok(self.inner, ctx.subs)
ensures: r matches Ok(v) ==> signal_of(self.inner, ctx.subs) == Some(key(v.inner))
@*/
/// a value that is used in stage `k` is the one that the transaction in that stage had where the value was defined
pub proof fn used_value(s: Substitutions, env: Env, en: En, e: Expression, id: u64, j: nat, k: nat, t: nat)
    requires wf(s), aligned(s, sg(env), en), e.kind matches ExprKind::Identifier(n) && n.0 == id, s.current_stage == k, j <= k < s.inner@.len(),
        stage(s, j as int).dom().contains(id), stage(s, j as int)[id] == Substitution::Available(NameID(id)),
    ensures signal_of(e, s) matches Some(g) ==> (origin(en, j, k, t) matches Some(t0) ==> env(g, t) == env(VKey::N(id), t0))
{
    l_meaning(s, sg(env), en, id, j, k, t);
}

// ==================================================================== stage.ready and stage.valid
/// assumed: the pipeline context of a pipeline (an error elsewhere)
#[verifier::external_body]
pub fn vpc(p: &MaybePipelineContext) -> (r: Result<&PipelineContext>) ensures r matches Ok(c) ==> *p == MaybePipelineContext::Pipeline(*c) { unimplemented!() }
/*@ rules
rule: ctx.pipeline_context.get(self)? ==> vpc(&ctx.pipeline_context)?
rule: $r.push_primary($s, $x) ==> vpush_primary(result, $s)
rule: $x.ok_or_else($f)? ==> match $x { Some(v) => v, None => return Err(SErr::new()) }
rule: self.loc() ==> vl()

@*/
/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as vstageready
arm: ExprKind::StageReady
tail: Ok(())
rule: self.variable(ctx) ==> this.vvariable(ctx)
rule: ValueName::Expr(self.id) ==> vname_expr(&this.inner.id)
sig: (this: &Loc<Expression>, ctx: &Context, result: &mut StatementList) -> (r: Result<()>)
requires: this.inner.kind is StageReady, ctx.subs.current_stage < ctx.subs.inner@.len()
ensures: r is Ok ==> grows(old(result).stmts@, final(result).stmts@),
    r is Ok ==> (ctx.pipeline_context matches MaybePipelineContext::Pipeline(c) && ctx.subs.current_stage < c.ready_signals@.len() && (forall|env: Env, t: nat| #[trigger] all_hold(final(result).stmts@, env) ==> tr(#[trigger] env(VKey::E(this.inner.id.0), t)) == oc(c.ready_signals@[ctx.subs.current_stage as int], env, t)))
entry: let ghost m = result.stmts@;
after-call vpush_primary: proof { assert forall|env: Env, t: nat| #[trigger] all_hold(result.stmts@, env) implies tr(#[trigger] env(VKey::E(this.inner.id.0), t)) == oc(ctx.pipeline_context->Pipeline_0.ready_signals@[ctx.subs.current_stage as int], env, t) by { assert(holds(result.stmts@[m.len() as int].inner, env)); if let mir::Statement::Binding(b) = result.stmts@[m.len() as int].inner { assert(computes(b.operator, b.operands@, env, t, env(key(b.name.inner), t))); } } }
@*/
/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as vstagevalid
arm: ExprKind::StageValid
tail: Ok(())
rule: self.variable(ctx) ==> this.vvariable(ctx)
rule: ValueName::Expr(self.id) ==> vname_expr(&this.inner.id)
sig: (this: &Loc<Expression>, ctx: &Context, result: &mut StatementList) -> (r: Result<()>)
requires: this.inner.kind is StageValid, ctx.subs.current_stage < ctx.subs.inner@.len()
ensures: r is Ok ==> grows(old(result).stmts@, final(result).stmts@),
    r is Ok ==> (ctx.pipeline_context matches MaybePipelineContext::Pipeline(c) && ctx.subs.current_stage < c.valid_signals@.len() && (forall|env: Env, t: nat| #[trigger] all_hold(final(result).stmts@, env) ==> tr(#[trigger] env(VKey::E(this.inner.id.0), t)) == oc(c.valid_signals@[ctx.subs.current_stage as int], env, t)))
entry: let ghost m = result.stmts@;
after-call vpush_primary: proof { assert forall|env: Env, t: nat| #[trigger] all_hold(result.stmts@, env) implies tr(#[trigger] env(VKey::E(this.inner.id.0), t)) == oc(ctx.pipeline_context->Pipeline_0.valid_signals@[ctx.subs.current_stage as int], env, t) by { assert(holds(result.stmts@[m.len() as int].inner, env)); if let mir::Statement::Binding(b) = result.stmts@[m.len() as int].inner { assert(computes(b.operator, b.operands@, env, t, env(key(b.name.inner), t))); } } }
@*/
/*@ fn spade-hir-lowering/src/lib.rs :: <StatementLocal for Loc>::lower as vreg_marker
arm: Statement::PipelineRegMarker
sig: (ctx: &mut Context) -> (r: ())
requires: old(ctx).subs.current_stage < usize::MAX
ensures: final(ctx).subs.current_stage == old(ctx).subs.current_stage + 1, final(ctx).subs.inner == old(ctx).subs.inner
@*/
} // verus!
fn main() {}
