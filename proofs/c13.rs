//@include core.rs
//@include vmap.rs
/*@ rules
type: HashMap ==> VMap<@0,@1>
type: FxHashMap ==> VMap<@0,@1>
type: CloningRWLock ==> @0
rule: CloningRWLock::new($x) ==> $x
rule: HashMap::default() ==> VMap::new()
rule: $x.read().unwrap() ==> $x
rule: $x.write().unwrap() ==> $x
rule: $x.clone() ==> $x.vclone()
@*/
verus! {
broadcast use {group_num};
#[derive(Clone, Copy)]
/*@ type spade-typeinference/src/equation.rs :: TypeVarID @*/
/*@ type spade-typeinference/src/replacement.rs :: Replacements @*/
/*@ type spade-typeinference/src/replacement.rs :: ReplacementStack @*/
/*@ type spade-types/src/meta_types.rs :: MetaType @*/
pub type Id = TypeVarID;
pub type L = Seq<Replacements>;
/// the newest entry recorded for k in the lowest n scopes
pub open spec fn lookn(s: L, n: nat, k: Id) -> Option<Id> decreases n {
    if n == 0 || n > s.len() { None }
    else if s[n - 1].replacements@.dom().contains(k) { Some(s[n - 1].replacements@[k]) }
    else { lookn(s, (n - 1) as nat, k) }
}
pub open spec fn look(s: L, k: Id) -> Option<Id> { lookn(s, s.len(), k) }
pub open spec fn reaches(s: L, k: Id, r: Id, n: nat) -> bool decreases n {
    if n == 0 { k == r && look(s, k) is None } else { look(s, k) matches Some(t) && reaches(s, t, r, (n - 1) as nat) }
}
/// r is the representative k resolves to
pub open spec fn is_root(s: L, k: Id, r: Id) -> bool { exists|n: nat| reaches(s, k, r, n) }
pub open spec fn root(s: L, k: Id) -> Id { choose|r: Id| is_root(s, k, r) }
pub open spec fn ranked(s: L, rank: spec_fn(Id) -> nat) -> bool { forall|k: Id| (#[trigger] look(s, k)) is Some ==> rank(look(s, k)->0) < rank(k) }
pub open spec fn acyclic(s: L) -> bool { exists|rank: spec_fn(Id) -> nat| ranked(s, rank) }
pub open spec fn below(s: L) -> L { s.take(s.len() - 1) }

pub proof fn lemma_total(s: L, rank: spec_fn(Id) -> nat, k: Id) requires ranked(s, rank) ensures exists|r: Id| is_root(s, k, r) decreases rank(k)
{
    match look(s, k) {
        None => { assert(reaches(s, k, k, 0)); assert(is_root(s, k, k)); }
        Some(t) => {
            assert(rank(look(s, k)->0) < rank(k));
            lemma_total(s, rank, t);
            let r = choose|r: Id| is_root(s, t, r);
            let n = choose|n: nat| reaches(s, t, r, n);
            assert(reaches(s, k, r, n + 1));
            assert(is_root(s, k, r));
        }
    }
}
pub proof fn lemma_det(s: L, k: Id, a: Id, m: nat, b: Id, n: nat) requires reaches(s, k, a, m), reaches(s, k, b, n) ensures a == b, m == n decreases m
{ if m > 0 && n > 0 { lemma_det(s, look(s, k)->0, a, (m - 1) as nat, b, (n - 1) as nat); } }
pub proof fn lemma_unique(s: L, k: Id, a: Id, b: Id) requires is_root(s, k, a), is_root(s, k, b) ensures a == b
{ let m = choose|m: nat| reaches(s, k, a, m); let n = choose|n: nat| reaches(s, k, b, n); lemma_det(s, k, a, m, b, n); }
pub proof fn lemma_root(s: L, k: Id, r: Id) requires is_root(s, k, r) ensures root(s, k) == r
{ assert(exists|x: Id| is_root(s, k, x)); lemma_unique(s, k, r, root(s, k)); }
pub proof fn lemma_root_end(s: L, k: Id, r: Id, n: nat) requires reaches(s, k, r, n) ensures look(s, r) is None decreases n
{ if n > 0 { lemma_root_end(s, look(s, k)->0, r, (n - 1) as nat); } }
pub proof fn lemma_rank(s: L, rank: spec_fn(Id) -> nat, k: Id, r: Id, n: nat) requires ranked(s, rank), reaches(s, k, r, n)
    ensures rank(r) <= rank(k), n > 0 ==> rank(r) < rank(k) decreases n
{ if n > 0 { assert(rank(look(s, k)->0) < rank(k)); lemma_rank(s, rank, look(s, k)->0, r, (n - 1) as nat); } }
/// s2 is s with k0 -> t recorded in the topmost scope
pub open spec fn put(s: L, s2: L, k0: Id, t: Id) -> bool {
    s.len() > 0 && s2.len() == s.len() && below(s2) =~= below(s)
    && s2[s.len() - 1].replacements@ == s[s.len() - 1].replacements@.insert(k0, t)
}
pub proof fn lemma_lookn(s: L, s2: L, n: nat, k: Id) requires n <= s.len(), n <= s2.len(), s.take(n as int) =~= s2.take(n as int)
    ensures lookn(s, n, k) == lookn(s2, n, k) decreases n
{ if n > 0 { assert(s.take(n as int)[n - 1] == s2.take(n as int)[n - 1]); assert(s.take(n - 1) =~= s.take(n as int).take(n - 1)); assert(s2.take(n - 1) =~= s2.take(n as int).take(n - 1)); lemma_lookn(s, s2, (n - 1) as nat, k); } }
pub proof fn lemma_put_look(s: L, s2: L, k0: Id, t: Id, k: Id) requires put(s, s2, k0, t)
    ensures look(s2, k) == (if k == k0 { Some(t) } else { look(s, k) })
{ lemma_lookn(s, s2, (s.len() - 1) as nat, k); }
/// path compression: recording the representative itself changes no resolution
pub proof fn lemma_compress(s: L, s2: L, k0: Id, t: Id, rank: spec_fn(Id) -> nat)
    requires put(s, s2, k0, t), ranked(s, rank), is_root(s, k0, t), k0 != t
    ensures ranked(s2, rank), forall|k: Id, r: Id| #[trigger] is_root(s, k, r) <==> is_root(s2, k, r)
{
    let n0 = choose|n: nat| reaches(s, k0, t, n);
    lemma_rank(s, rank, k0, t, n0);
    lemma_root_end(s, k0, t, n0);
    assert forall|k: Id| (#[trigger] look(s2, k)) is Some implies rank(look(s2, k)->0) < rank(k) by { lemma_put_look(s, s2, k0, t, k); }
    assert forall|k: Id, r: Id| #[trigger] is_root(s, k, r) implies is_root(s2, k, r) by {
        let n = choose|n: nat| reaches(s, k, r, n);
        lemma_compress1(s, s2, k0, t, k, r, n);
    }
    assert forall|k: Id, r: Id| is_root(s2, k, r) implies #[trigger] is_root(s, k, r) by {
        lemma_total(s, rank, k);
        let x = choose|x: Id| is_root(s, k, x);
        assert(is_root(s2, k, x));
        lemma_unique(s2, k, x, r);
    }
}
proof fn lemma_compress1(s: L, s2: L, k0: Id, t: Id, k: Id, r: Id, n: nat)
    requires put(s, s2, k0, t), is_root(s, k0, t), k0 != t, look(s, t) is None, reaches(s, k, r, n)
    ensures is_root(s2, k, r) decreases n
{
    lemma_put_look(s, s2, k0, t, k);
    lemma_put_look(s, s2, k0, t, t);
    if k == k0 {
        assert(is_root(s, k, r)); lemma_unique(s, k, r, t);
        assert(reaches(s2, t, t, 0)); assert(reaches(s2, k, t, 1));
    } else if n == 0 { assert(reaches(s2, k, k, 0)); }
    else {
        let x = look(s, k)->0;
        lemma_compress1(s, s2, k0, t, x, r, (n - 1) as nat);
        let m = choose|m: nat| reaches(s2, x, r, m);
        assert(reaches(s2, k, r, m + 1));
    }
}
/// merging `from` (its own representative) into `to`: everything that resolved to `from` now resolves
/// where `to` does, nothing else changes, and no cycle appears
pub proof fn lemma_merge(s: L, s2: L, from: Id, to: Id)
    requires put(s, s2, from, to), acyclic(s), look(s, from) is None, !is_root(s, to, from)
    ensures acyclic(s2), forall|k: Id, r: Id| #[trigger] is_root(s, k, r) ==> is_root(s2, k, if r == from { root(s, to) } else { r })
{
    let rank = choose|rank: spec_fn(Id) -> nat| ranked(s, rank);
    lemma_total(s, rank, to);
    let rt = choose|r: Id| is_root(s, to, r);
    lemma_root(s, to, rt);
    let rank2 = |k: Id| if is_root(s, k, from) { rank(k) + rank(to) + 1 } else { rank(k) };
    assert forall|k: Id| (#[trigger] look(s2, k)) is Some implies rank2(look(s2, k)->0) < rank2(k) by {
        lemma_put_look(s, s2, from, to, k);
        if k == from { assert(reaches(s, from, from, 0)); assert(is_root(s, from, from)); }
        else {
            let x = look(s, k)->0;
            assert(rank(look(s, k)->0) < rank(k));
            if is_root(s, x, from) { let n = choose|n: nat| reaches(s, x, from, n); assert(reaches(s, k, from, n + 1)); }
            if is_root(s, k, from) { let n = choose|n: nat| reaches(s, k, from, n); assert(n > 0); assert(reaches(s, x, from, (n - 1) as nat)); }
        }
    }
    assert(ranked(s2, rank2));
    let nt = choose|n: nat| reaches(s, to, rt, n);
    lemma_merge1(s, s2, from, to, to, rt, nt);
    let nt2 = choose|n: nat| reaches(s2, to, rt, n);
    assert forall|k: Id, r: Id| #[trigger] is_root(s, k, r) implies is_root(s2, k, if r == from { root(s, to) } else { r }) by {
        let n = choose|n: nat| reaches(s, k, r, n);
        if r == from { lemma_merge2(s, s2, from, to, k, n, rt, nt2); } else { lemma_merge1(s, s2, from, to, k, r, n); }
    }
}
proof fn lemma_merge1(s: L, s2: L, from: Id, to: Id, k: Id, r: Id, n: nat)
    requires put(s, s2, from, to), look(s, from) is None, reaches(s, k, r, n), r != from ensures is_root(s2, k, r) decreases n
{
    lemma_put_look(s, s2, from, to, k);
    if n == 0 { assert(reaches(s2, k, r, 0)); }
    else { let x = look(s, k)->0; lemma_merge1(s, s2, from, to, x, r, (n - 1) as nat); let m = choose|m: nat| reaches(s2, x, r, m); assert(reaches(s2, k, r, m + 1)); }
}
proof fn lemma_merge2(s: L, s2: L, from: Id, to: Id, k: Id, n: nat, rt: Id, nt: nat)
    requires put(s, s2, from, to), look(s, from) is None, reaches(s, k, from, n), reaches(s2, to, rt, nt) ensures is_root(s2, k, rt) decreases n
{
    lemma_put_look(s, s2, from, to, k);
    if n == 0 { assert(reaches(s2, k, rt, nt + 1)); }
    else { let x = look(s, k)->0; lemma_merge2(s, s2, from, to, x, (n - 1) as nat, rt, nt); let m = choose|m: nat| reaches(s2, x, rt, m); assert(reaches(s2, k, rt, m + 1)); }
}
/// a new stack resolves everything to itself
pub proof fn lemma_new(s: L) requires s.len() == 1, s[0].replacements@ == Map::<Id, Id>::empty()
    ensures forall|k: Id| #[trigger] look(s, k) is None, acyclic(s), forall|k: Id| #[trigger] is_root(s, k, k)
{
    assert forall|k: Id| #[trigger] look(s, k) is None by { assert(lookn(s, 0, k) is None); }
    assert(ranked(s, |k: Id| 0));
    assert forall|k: Id| #[trigger] is_root(s, k, k) by { assert(reaches(s, k, k, 0)); }
}
/// opening a speculative scope changes no resolution, and whatever is done in it, closing it restores
/// the scopes below exactly (get and insert leave `below` untouched)
pub proof fn lemma_push(s: L, s2: L) requires s2.len() == s.len() + 1, below(s2) =~= s, s2[s.len() as int].replacements@ == Map::<Id, Id>::empty()
    ensures forall|k: Id| #[trigger] look(s2, k) == look(s, k)
{ assert forall|k: Id| #[trigger] look(s2, k) == look(s, k) by { assert(s.take(s.len() as int) =~= s); lemma_lookn(s, s2, s.len(), k); } }

/// a reference to a scope, as its position (get keeps the reference across reads of the whole stack)
pub fn vlast_ix<T>(v: &Vec<T>) -> (r: Option<usize>) ensures r == (if v@.len() > 0 { Some((v@.len() - 1) as usize) } else { None }) { if v.len() > 0 { Some(v.len() - 1) } else { None } }
pub fn vfirst_ix<T>(v: &Vec<T>) -> (r: Option<usize>) ensures r == (if v@.len() > 0 { Some(0usize) } else { None }) { if v.len() > 0 { Some(0) } else { None } }
pub fn vget_ix<T>(v: &Vec<T>, k: usize) -> (r: Option<usize>) ensures r == (if k < v@.len() { Some(k) } else { None }) { if k < v.len() { Some(k) } else { None } }
pub fn vscope_mut(v: &mut Vec<Replacements>, k: usize) -> (r: &mut VMap<Id, Id>)
    requires k < old(v)@.len(),
    ensures *r == old(v)@[k as int].replacements, final(v)@ == old(v)@.update(k as int, Replacements { replacements: *final(r) })
{ &mut v[k].replacements }
pub open spec fn wit(s: L, m: VMap<Id, Id>) -> L { s.update(s.len() - 1, Replacements { replacements: m }) }
/*@ fn spade-typeinference/src/replacement.rs :: Replacements::new
assoc: y
ensures: r.replacements@ == Map::<TypeVarID, TypeVarID>::empty()
@*/
/*@ fn spade-typeinference/src/replacement.rs :: ReplacementStack::new
assoc: y
ensures: r.inner@.len() == 1, r.inner@[0].replacements@ == Map::<Id, Id>::empty()
@*/
/*@ fn spade-typeinference/src/replacement.rs :: ReplacementStack::push
ensures: final(self).inner@.len() == old(self).inner@.len() + 1, below(final(self).inner@) =~= old(self).inner@,
  final(self).inner@.last().replacements@ == Map::<Id, Id>::empty()
@*/
/*@ fn spade-typeinference/src/replacement.rs :: ReplacementStack::discard_top
requires: old(self).inner@.len() > 0
ensures: final(self).inner@ =~= below(old(self).inner@)
@*/
/*@ fn spade-typeinference/src/replacement.rs :: ReplacementStack::insert
requires: old(self).inner@.len() > 0
ensures: put(old(self).inner@, final(self).inner@, $1, $2)
@*/
/*@ fn spade-typeinference/src/replacement.rs :: ReplacementStack::get
mutself: y
attr: #[verifier::allow_complex_invariants]
requires: old(self).inner@.len() > 0, acyclic(old(self).inner@)
ensures: is_root(old(self).inner@, key, r), acyclic(final(self).inner@), final(self).inner@.len() == old(self).inner@.len(), below(final(self).inner@) =~= below(old(self).inner@),
  forall|k: Id, x: Id| #[trigger] is_root(old(self).inner@, k, x) <==> is_root(final(self).inner@, k, x)
rule: self.inner.last() ==> vlast_ix(&self.inner)
rule: self.inner.first() ==> vfirst_ix(&self.inner)
rule: self.inner.get($k) ==> vget_ix(&self.inner, $k)
rule: top.replacements.write().unwrap() ==> vscope_mut(&mut self.inner, top)
entry: let ghost s0 = self.inner@; let ghost key0 = $1; let ghost rank = choose|rank: spec_fn(Id) -> nat| ranked(s0, rank); let ghost r0 = root(s0, $1);
  proof { lemma_total(s0, rank, $1); let x = choose|x: Id| is_root(s0, $1, x); lemma_root(s0, $1, x); }
loop 0 inv: self.inner@ == s0, is_root(s0, key, r0), forall|j: int| 0 <= j < seen@.len() ==> is_root(s0, #[trigger] seen@[j], r0) && seen@[j] != r0
loop 0 ensures: look(s0, key) is None
loop 0 dec: rank(key)
loop 0 start: proof { let n = choose|n: nat| reaches(s0, key, r0, n); lemma_rank(s0, rank, key, r0, n); lemma_root_end(s0, key, r0, n); if n > 0 { assert(reaches(s0, look(s0, key)->0, r0, (n - 1) as nat)); assert(is_root(s0, look(s0, key)->0, r0)); assert(rank(look(s0, key)->0) < rank(key)); } }
loop 0 after: proof { assert(reaches(s0, key, key, 0)); assert(is_root(s0, key, key)); lemma_unique(s0, key, key, r0); }
loop 1 acc: Option<TypeVarID>
loop 1 inv: vacc1 is Some ==> vacc1 == look(s0, key), vacc1 is None ==> look(s0, key) == lookn(s0, (s0.len() - vi1) as nat, key)
loop 2 before: proof { assert(wit(s0, *replacements) =~= s0); }
loop 2 inv: ranked(wit(s0, *replacements), rank), forall|k: Id, x: Id| #[trigger] is_root(s0, k, x) <==> is_root(wit(s0, *replacements), k, x),
   forall|j: int| 0 <= j < vs2@.len() ==> is_root(s0, #[trigger] vs2@[j], r0) && vs2@[j] != r0
loop 2 start: let ghost m0 = *replacements;
loop 2 end: proof { assert(put(wit(s0, m0), wit(s0, *replacements), vs2@[vi2 - 1], r0)); lemma_compress(wit(s0, m0), wit(s0, *replacements), vs2@[vi2 - 1], r0, rank); }
@*/
pub open spec fn le(a: MetaType, b: MetaType) -> bool { a == b || b == MetaType::Any || (b == MetaType::Number && (a == MetaType::Int || a == MetaType::Uint)) }
/*@ fn spade-types/src/meta_types.rs :: unify_meta
ret: res
ensures: res matches Some(m) ==> le(m, *$1) && le(m, *$2) && forall|x: MetaType| le(x, *$1) && le(x, *$2) ==> #[trigger] le(x, m),
  res is None ==> forall|x: MetaType| !(le(x, *$1) && #[trigger] le(x, *$2))
@*/
}
fn main(){}
