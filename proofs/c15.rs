//@include core.rs
/*@ rules
rule: $x.clone() ==> $x.vclone()
rule: $x.shrink_left($y).shrink_right($z) ==> $x.inner_loc()
rule: $x.try_get_arg_type($y) ==> ParameterListWrapper::try_get_arg_type(&$x, &$y.vid())
rule: $x.arg_index($y) ==> ParameterListWrapper::arg_index(&$x, &$y.vid())
rule: $x.arg_default($y) ==> ParameterListWrapper::arg_default(&$x, vname($y))
rule: HashSet::default() ==> IdSet::new()
type: HashSet ==> IdSet<@0>
@*/
verus! {
broadcast use {group_num};
/// an interned name: equality is equality of names
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Identifier { pub n: u64 }
#[derive(Clone, Copy)]
pub struct Span { pub a: u32, pub b: u32 }
pub struct Loc<T> { pub inner: T, pub span: Span, pub file_id: usize }
impl<T: Copy> Copy for Loc<T> {}
impl<T: Clone> Clone for Loc<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Loc<T> {
    pub fn loc(&self) -> (r: Loc<()>) { Loc { inner: (), span: self.span, file_id: self.file_id } }
    #[verifier::external_body]
    pub fn inner_loc(&self) -> (r: Loc<()>) { unimplemented!() }
}
/// names compare by their text (the Deref of Loc<Identifier>)
pub trait VId { spec fn sid(&self) -> Identifier; fn vid(&self) -> (r: Identifier) ensures r == self.sid(); }
impl VId for Identifier { open spec fn sid(&self) -> Identifier { *self } fn vid(&self) -> (r: Identifier) { *self } }
impl VId for Loc<Identifier> { open spec fn sid(&self) -> Identifier { self.inner } fn vid(&self) -> (r: Identifier) { self.inner } }
impl<'a, K: VId> VId for &'a K { open spec fn sid(&self) -> Identifier { (**self).sid() } fn vid(&self) -> (r: Identifier) { (**self).vid() } }
pub fn vname<'a>(l: &'a Loc<Identifier>) -> (r: &'a Identifier) ensures *r == l.inner { &l.inner }
pub enum EitherOrBoth<A, B> { Both(A, B), Left(A), Right(B) }
/// a hash set whose elements are compared by name (assumed contract of FxHashSet; Loc compares by its content)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct IdSet<K> { x: Vec<K> }
impl<K: VId> IdSet<K> {
    pub uninterp spec fn view(&self) -> Map<Identifier, K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.view() == Map::<Identifier, K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VId>(&self, q: Q) -> (r: Option<&K>)
        ensures r == (if self.view().dom().contains(q.sid()) { Some(&self.view()[q.sid()]) } else { None }) { unimplemented!() }
    /// an element equal to one already in the set is not inserted again
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures r == !old(self).view().dom().contains(k.sid()), final(self).view() == (if r { old(self).view().insert(k.sid(), k) } else { old(self).view() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VId>(&mut self, q: Q) -> (r: bool)
        ensures final(self).view() == old(self).view().remove(q.sid()), r == old(self).view().dom().contains(q.sid()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (forall|i: Identifier| !self.view().dom().contains(i)) { unimplemented!() }
    /// the elements, in some order
    #[verifier::external_body]
    pub fn velems(&self) -> (r: Vec<K>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self.view().dom().contains((#[trigger] r@[i]).sid()) && self.view()[r@[i].sid()] == r@[i],
            forall|id: Identifier| self.view().dom().contains(id) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).sid() == id,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).sid() != (#[trigger] r@[j]).sid() { unimplemented!() }
}
#[verifier::external_body]
pub fn vcollect_IdSet<K: VId>(v: Vec<K>) -> (r: IdSet<K>)
    ensures forall|id: Identifier| r.view().dom().contains(id) <==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).sid() == id,
        forall|id: Identifier| r.view().dom().contains(id) ==> (#[trigger] r.view()[id]).sid() == id && exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == r.view()[id] { unimplemented!() }
/// sort_by_key on the index component (assumed contract of slice::sort_by_key)
pub open spec fn is_perm(q: Seq<int>, n: nat) -> bool {
    q.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n)
    && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] q[i] != #[trigger] q[j])
    && (forall|k: int| 0 <= k < n ==> #[trigger] q.contains(k))
}
#[verifier::external_body]
pub fn sort_by_first<A>(v: &mut Vec<(usize, A)>)
    ensures final(v)@.len() == old(v)@.len(),
        exists|q: Seq<int>| #[trigger] is_perm(q, old(v)@.len()) && forall|i: int| 0 <= i < q.len() ==> #[trigger] final(v)@[i] == old(v)@[q[i]],
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).0 <= (#[trigger] final(v)@[j]).0 { unimplemented!() }

/*@ type spade-hir/src/expression.rs :: NamedArgument @*/
/*@ type spade-hir/src/expression.rs :: ArgumentList @*/
/*@ type spade-hir/src/param_util.rs :: ArgumentError @*/
/*@ type spade-hir/src/param_util.rs :: ArgumentKind @*/
/*@ type spade-hir/src/param_util.rs :: Argument @*/
/*@ type spade-hir/src/param_util.rs :: ParameterListWrapper @*/

/// the parameters: name, type and default of each
pub type PList<'a, TypeLike, T> = Seq<(&'a Loc<Identifier>, &'a TypeLike, Option<&'a Loc<T>>)>;
pub trait ParameterListLike<'a, TypeLike, T> {
    spec fn plist(&self) -> PList<'a, TypeLike, T>;
    fn as_listlike(&'a self) -> (r: ParameterListWrapper<'a, TypeLike, T>) ensures r.0@ == self.plist();
}
pub open spec fn pid<'a, TypeLike, T>(p: PList<'a, TypeLike, T>, i: int) -> Identifier { p[i].0.inner }
pub open spec fn distinct<'a, TypeLike, T>(p: PList<'a, TypeLike, T>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] pid(p, i) != #[trigger] pid(p, j) }
pub open spec fn named_here<'a, TypeLike, T>(p: PList<'a, TypeLike, T>, name: Identifier, i: int) -> bool { 0 <= i < p.len() && pid(p, i) == name }

/*@ fn spade-hir/src/param_util.rs :: ParameterListWrapper::try_get_arg_type
ensures:
  match r { Some(t) => exists|i: int| #[trigger] named_here(self.0@, *name, i) && t == self.0@[i].1, None => forall|i: int| !named_here(self.0@, *name, i) }
loop 0 inv:
  vs0@ == self.0@,
  forall|i: int| 0 <= i < vi0 - (if vacc0.is_some() { 1int } else { 0int }) ==> !named_here(self.0@, *name, i),
  vacc0.is_some() ==> vi0 > 0 && named_here(self.0@, *name, vi0 - 1) && vacc0.unwrap() == self.0@[vi0 - 1].1
@*/
/*@ fn spade-hir/src/param_util.rs :: ParameterListWrapper::arg_index
ensures:
  match r { Some(k) => named_here(self.0@, *name, k as int), None => forall|i: int| !named_here(self.0@, *name, i) }
loop 0 inv:
  vs0@ == self.0@,
  forall|i: int| 0 <= i < vi0 - (if vacc0.is_some() { 1int } else { 0int }) ==> !named_here(self.0@, *name, i),
  vacc0.is_some() ==> vi0 > 0 && named_here(self.0@, *name, vi0 - 1) && vacc0.unwrap() == vi0 - 1
@*/
/*@ fn spade-hir/src/param_util.rs :: ParameterListWrapper::arg_default
ensures:
  match r { Some(d) => exists|i: int| #[trigger] named_here(self.0@, *name, i) && d == self.0@[i].2, None => forall|i: int| !named_here(self.0@, *name, i) }
loop 0 inv:
  vs0@ == self.0@,
  forall|i: int| 0 <= i < vi0 - (if vacc0.is_some() { 1int } else { 0int }) ==> !named_here(self.0@, *name, i),
  vacc0.is_some() ==> vi0 > 0 && named_here(self.0@, *name, vi0 - 1) && vacc0.unwrap() == self.0@[vi0 - 1].2
@*/
pub open spec fn aid<T>(a: NamedArgument<T>) -> Identifier { match a { NamedArgument::Full(i, _) => i.inner, NamedArgument::Short(i, _) => i.inner } }
pub open spec fn aval<T>(a: NamedArgument<T>) -> Loc<T> { match a { NamedArgument::Full(_, v) => v, NamedArgument::Short(_, v) => v } }
pub open spec fn argof<T>(args: Seq<NamedArgument<T>>, id: Identifier, j: int) -> bool { 0 <= j < args.len() && aid(args[j]) == id }
pub open spec fn given<T>(args: Seq<NamedArgument<T>>, id: Identifier, n: int) -> bool { exists|j: int| j < n && #[trigger] argof(args, id, j) }
pub open spec fn known<'a, TypeLike, T>(p: PList<'a, TypeLike, T>, id: Identifier) -> bool { exists|i: int| #[trigger] named_here(p, id, i) }
pub open spec fn has_default<'a, TypeLike, T>(p: PList<'a, TypeLike, T>, id: Identifier) -> bool { exists|i: int| #[trigger] named_here(p, id, i) && p[i].2 is Some }

/// a positional list is complete: not too long, and what is left out has a default
pub open spec fn pos_valid<'a, TypeLike, T>(args: Seq<Loc<T>>, p: PList<'a, TypeLike, T>) -> bool {
    args.len() <= p.len() && forall|i: int| args.len() <= i < p.len() ==> (#[trigger] p[i]).2 is Some
}
/// argument i is bound to parameter i, the rest to their defaults
pub open spec fn pos_bound<'a, TypeLike, T>(args: Seq<Loc<T>>, p: PList<'a, TypeLike, T>, v: Seq<Argument<'a, T, TypeLike>>) -> bool {
    v.len() == p.len() && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i].target == p[i].0 && v[i].target_type == p[i].1
        && (if i < args.len() { v[i].value == args[i] && v[i].kind is Positional } else { p[i].2 == Some(v[i].value) && v[i].kind is Default })
}
/// a named list is complete: every name known, none twice, and what is left out has a default
pub open spec fn named_valid<'a, TypeLike, T>(args: Seq<NamedArgument<T>>, p: PList<'a, TypeLike, T>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < args.len() ==> aid(#[trigger] args[i]) != aid(#[trigger] args[j]))
    && (forall|j: int| 0 <= j < args.len() ==> known(p, aid(#[trigger] args[j])))
    && (forall|i: int| #![trigger pid(p, i)] 0 <= i < p.len() ==> given(args, pid(p, i), args.len() as int) || p[i].2 is Some)
}
/// every parameter gets the argument with its name, or its default when there is none
pub open spec fn named_bound<'a, TypeLike, T>(args: Seq<NamedArgument<T>>, p: PList<'a, TypeLike, T>, v: Seq<Argument<'a, T, TypeLike>>) -> bool {
    v.len() == p.len() && forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> one_bound(args, p, i, v[i])
}
pub open spec fn one_bound<'a, TypeLike, T>(args: Seq<NamedArgument<T>>, p: PList<'a, TypeLike, T>, i: int, a: Argument<'a, T, TypeLike>) -> bool {
    a.target.inner == pid(p, i) && a.target_type == p[i].1
    && (forall|j: int| #[trigger] argof(args, pid(p, i), j) ==> a.value == aval(args[j]) && (args[j] is Full ==> a.kind is Named) && (args[j] is Short ==> a.kind is ShortNamed))
    && (!given(args, pid(p, i), args.len() as int) ==> p[i].2 == Some(a.value) && a.kind is Default)
}
pub open spec fn err_ok<'a, TypeLike, T>(args: ArgumentList<T>, p: PList<'a, TypeLike, T>, m: bool, e: ArgumentError) -> bool {
    let k = if m { 1int } else { 0int };
    match (args, e) {
        (ArgumentList::Positional(a), ArgumentError::TooManyArguments { got, expected, extra, .. }) => a@.len() > p.len() && got == a@.len() - k && expected == p.len() - k && extra@.len() == a@.len() - p.len(),
        (ArgumentList::Positional(a), ArgumentError::TooFewArguments { expected, missing, .. }) => a@.len() < p.len() && !pos_valid(a@, p) && expected == p.len() - k
            && missing@.len() == p.len() - a@.len() && (forall|i: int| 0 <= i < missing@.len() ==> #[trigger] missing@[i] == pid(p, i + a@.len())),
        (ArgumentList::Named(a), ArgumentError::NoSuchArgument { name }) => !known(p, name.inner) && given(a@, name.inner, a@.len() as int),
        (ArgumentList::Named(a), ArgumentError::DuplicateNamedBindings { new, .. }) => dup(a@, new.inner),
        (ArgumentList::Named(a), ArgumentError::MissingArguments { missing, .. }) => missing@.len() > 0
            && forall|i: int| 0 <= i < missing@.len() ==> known(p, #[trigger] missing@[i]) && !has_default(p, missing@[i]) && !given(a@, missing@[i], a@.len() as int),
        _ => false,
    }
}
/// entry x binds argument j to the parameter of its name
pub open spec fn bound_as<'a, TypeLike, T>(args: Seq<NamedArgument<T>>, p: PList<'a, TypeLike, T>, j: int, x: (usize, Argument<'a, T, TypeLike>)) -> bool {
    named_here(p, aid(args[j]), x.0 as int) && x.1.target.inner == aid(args[j]) && x.1.target_type == p[x.0 as int].1 && x.1.value == aval(args[j])
    && (args[j] is Full ==> x.1.kind is Named) && (args[j] is Short ==> x.1.kind is ShortNamed)
}
/// entry x binds a left out parameter to its default
pub open spec fn default_as<'a, TypeLike, T>(p: PList<'a, TypeLike, T>, x: (usize, Argument<'a, T, TypeLike>)) -> bool {
    named_here(p, x.1.target.inner, x.0 as int) && x.1.target_type == p[x.0 as int].1 && p[x.0 as int].2 == Some(x.1.value) && x.1.kind is Default
}
pub open spec fn seen(v: Seq<&Loc<Identifier>>, id: Identifier, n: int) -> bool { exists|i: int| 0 <= i < n && i < v.len() && (#[trigger] v[i]).inner == id }
pub open spec fn targeted<'a, T, TypeLike>(s: Seq<(usize, Argument<'a, T, TypeLike>)>, id: Identifier) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).1.target.inner == id }
pub broadcast proof fn lemma_distinct<'a, TypeLike, T>(p: PList<'a, TypeLike, T>, id: Identifier, i: int, j: int)
    requires #[trigger] distinct(p), #[trigger] named_here(p, id, i), #[trigger] named_here(p, id, j),
    ensures i == j
{ if i < j { assert(pid(p, i) != pid(p, j)); } if j < i { assert(pid(p, j) != pid(p, i)); } }
pub proof fn lemma_given_step<T>(args: Seq<NamedArgument<T>>, n: int)
    requires 0 <= n < args.len(),
    ensures forall|id: Identifier| #[trigger] given(args, id, n + 1) <==> given(args, id, n) || aid(args[n]) == id,
        given(args, aid(args[n]), args.len() as int),
{
    assert(argof(args, aid(args[n]), n));
    assert forall|id: Identifier| #[trigger] given(args, id, n + 1) <==> given(args, id, n) || aid(args[n]) == id by {
        if given(args, id, n) { let j = choose|j: int| j < n && #[trigger] argof(args, id, j); assert(argof(args, id, j) && j < n + 1); }
        if given(args, id, n + 1) { let j = choose|j: int| j < n + 1 && #[trigger] argof(args, id, j); }
    }
}
pub open spec fn dup<T>(args: Seq<NamedArgument<T>>, id: Identifier) -> bool { exists|i: int, j: int| i < j && #[trigger] argof(args, id, i) && #[trigger] argof(args, id, j) }
pub proof fn lemma_dup<'a, TypeLike, T>(args: Seq<NamedArgument<T>>, p: PList<'a, TypeLike, T>, n: int)
    requires 0 <= n < args.len(), given(args, aid(args[n]), n),
    ensures dup(args, aid(args[n])), !named_valid(args, p)
{ let j = choose|j: int| j < n && #[trigger] argof(args, aid(args[n]), j); assert(argof(args, aid(args[n]), n)); assert(aid(args[j]) == aid(args[n])); }
pub open spec fn missing_id<'a, TypeLike, T>(args: Seq<NamedArgument<T>>, p: PList<'a, TypeLike, T>, id: Identifier) -> bool { known(p, id) && !has_default(p, id) && !given(args, id, args.len() as int) }
/// what the two binding passes have established about the collected entries
pub open spec fn collected<'a, TypeLike, T>(args: Seq<NamedArgument<T>>, p: PList<'a, TypeLike, T>, r: Seq<(usize, Argument<'a, T, TypeLike>)>) -> bool {
    r.len() >= args.len() && (forall|k: int| 0 <= k < args.len() ==> bound_as(args, p, k, #[trigger] r[k]))
    && (forall|k: int| args.len() <= k < r.len() ==> default_as(p, #[trigger] r[k]) && !given(args, r[k].1.target.inner, args.len() as int))
    && (forall|k: int, l: int| 0 <= k < l < r.len() ==> (#[trigger] r[k]).1.target.inner != (#[trigger] r[l]).1.target.inner)
    && (forall|id: Identifier| known(p, id) && !given(args, id, args.len() as int) && has_default(p, id) ==> #[trigger] targeted(r, id))
}
pub open spec fn entry_ok<'a, TypeLike, T>(args: Seq<NamedArgument<T>>, p: PList<'a, TypeLike, T>, x: (usize, Argument<'a, T, TypeLike>)) -> bool { x.0 < p.len() && one_bound(args, p, x.0 as int, x.1) }
pub proof fn lemma_sorted<'a, TypeLike, T>(args: Seq<NamedArgument<T>>, p: PList<'a, TypeLike, T>, r: Seq<(usize, Argument<'a, T, TypeLike>)>, s: Seq<(usize, Argument<'a, T, TypeLike>)>)
    requires distinct(p), collected(args, p, r), s.len() == r.len(),
        exists|q: Seq<int>| #[trigger] is_perm(q, r.len()) && forall|i: int| 0 <= i < q.len() ==> #[trigger] s[i] == r[q[i]],
        forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 <= (#[trigger] s[j]).0,
        forall|id: Identifier| !missing_id(args, p, id),
        forall|i: int, j: int| 0 <= i < j < args.len() ==> aid(#[trigger] args[i]) != aid(#[trigger] args[j]),
    ensures s.len() == p.len(), forall|i: int| 0 <= i < s.len() ==> one_bound(args, p, i, (#[trigger] s[i]).1),
{
    broadcast use lemma_distinct;
    let q = choose|q: Seq<int>| #[trigger] is_perm(q, r.len()) && forall|i: int| 0 <= i < q.len() ==> #[trigger] s[i] == r[q[i]];
    assert forall|k: int| 0 <= k < r.len() implies entry_ok(args, p, #[trigger] r[k]) && named_here(p, r[k].1.target.inner, r[k].0 as int) by {
        let id = r[k].1.target.inner;
        if k < args.len() {
            assert(bound_as(args, p, k, r[k]));
            assert(argof(args, id, k));
            assert forall|j: int| #[trigger] argof(args, id, j) implies j == k by { if j < k { assert(aid(args[j]) != aid(args[k])); } if k < j { assert(aid(args[k]) != aid(args[j])); } }
        } else { assert(default_as(p, r[k])); assert forall|j: int| !#[trigger] argof(args, id, j) by { if argof(args, id, j) { assert(given(args, id, args.len() as int)); } } }
    }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 < (#[trigger] s[j]).0 by {
        assert(q[i] != q[j]); assert(s[i] == r[q[i]] && s[j] == r[q[j]]);
        if q[i] < q[j] { assert(r[q[i]].1.target.inner != r[q[j]].1.target.inner); } else { assert(r[q[j]].1.target.inner != r[q[i]].1.target.inner); }
        if s[i].0 == s[j].0 { assert(named_here(p, s[i].1.target.inner, s[i].0 as int)); assert(named_here(p, s[j].1.target.inner, s[j].0 as int)); }
    }
    assert forall|x: int| 0 <= x < p.len() implies #[trigger] covered(s, x) by {
        let id = pid(p, x);
        assert(named_here(p, id, x)); assert(!missing_id(args, p, id));
        let k = if given(args, id, args.len() as int) { choose|j: int| j < args.len() && #[trigger] argof(args, id, j) } else { assert(targeted(r, id)); choose|k: int| 0 <= k < r.len() && (#[trigger] r[k]).1.target.inner == id };
        if given(args, id, args.len() as int) { assert(bound_as(args, p, k, r[k])); }
        assert(r[k].1.target.inner == id && entry_ok(args, p, r[k])); assert(named_here(p, id, r[k].0 as int));
        assert(q.contains(k)); let i = choose|i: int| 0 <= i < q.len() && q[i] == k; assert(s[i] == r[k]);
    }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 < p.len() && entry_ok(args, p, s[i]) by { assert(s[i] == r[q[i]]); }
    lemma_iota(s, p.len());
}
pub proof fn lemma_all_valid<'a, TypeLike, T>(args: Seq<NamedArgument<T>>, p: PList<'a, TypeLike, T>)
    requires distinct(p), forall|id: Identifier| !missing_id(args, p, id),
        forall|i: int, j: int| 0 <= i < j < args.len() ==> aid(#[trigger] args[i]) != aid(#[trigger] args[j]),
        forall|j: int| 0 <= j < args.len() ==> known(p, aid(#[trigger] args[j])),
    ensures named_valid(args, p)
{
    broadcast use lemma_distinct;
    assert forall|i: int| #![trigger pid(p, i)] 0 <= i < p.len() implies given(args, pid(p, i), args.len() as int) || p[i].2 is Some by { assert(named_here(p, pid(p, i), i)); assert(!missing_id(args, p, pid(p, i))); }
}
pub open spec fn iota_cover<'a, T, TypeLike>(s: Seq<(usize, Argument<'a, T, TypeLike>)>, n: nat) -> bool {
    (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0)
    && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < n)
    && (forall|x: int| 0 <= x < n ==> #[trigger] covered(s, x))
}
pub open spec fn covered<'a, T, TypeLike>(s: Seq<(usize, Argument<'a, T, TypeLike>)>, x: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == x }
/// strictly increasing numbers that cover 0..n are 0..n
pub proof fn lemma_iota<'a, T, TypeLike>(s: Seq<(usize, Argument<'a, T, TypeLike>)>, n: nat)
    requires iota_cover(s, n),
    ensures s.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).0 == i,
{
    lemma_iota_at(s, n, s.len() as int);
    if s.len() < n { assert(covered(s, s.len() as int)); }
    if s.len() > n { assert(s[n as int].0 == n); }
}
pub proof fn lemma_iota_at<'a, T, TypeLike>(s: Seq<(usize, Argument<'a, T, TypeLike>)>, n: nat, m: int)
    requires iota_cover(s, n), 0 <= m <= s.len(),
    ensures forall|i: int| 0 <= i < m ==> (#[trigger] s[i]).0 == i,
    decreases m
{
    if m > 0 {
        lemma_iota_at(s, n, m - 1);
        if m - 1 > 0 { assert(s[m - 2].0 < s[m - 1].0); }
        if s[m - 1].0 > m - 1 { assert(covered(s, m - 1)); let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == m - 1; if k > m - 1 { assert(s[m - 1].0 < s[k].0); } }
    }
}
// ---- the two kinds of parameter list
#[verifier::external_body] pub struct TypeSpec { x: u8 }
#[verifier::external_body] pub struct TypeExpression { x: u8 }
#[verifier::external_body] pub struct NameID { x: u8 }
#[verifier::external_body] pub struct TraitSpec { x: u8 }
#[verifier::external_body] pub struct MetaType { x: u8 }
#[verifier::external_body] pub struct Selfness { x: u8 }
pub struct FieldTranslator { pub s: u8 }
/*@ type spade-hir/src/lib.rs :: Parameter
type: String ==> FieldTranslator
@*/
/*@ type spade-hir/src/lib.rs :: ParameterList @*/
/*@ type spade-hir/src/lib.rs :: Generic
type: GenericID ==> NameID
@*/
/*@ type spade-hir/src/lib.rs :: TypeParam @*/
impl NameID { pub uninterp spec fn last_ident(&self) -> Option<Loc<Identifier>>; }
impl TypeParam {
    pub open spec fn pident(&self) -> Option<Loc<Identifier>> { match self.name { Generic::Named(n) => n.inner.last_ident(), Generic::Hidden(_) => None } }
    /// assumed: the last segment of the parameter's path
    #[verifier::external_body]
    pub fn ident(&self) -> (r: Option<&Loc<Identifier>>) ensures r is Some <==> self.pident() is Some, r is Some ==> *r.unwrap() == self.pident().unwrap() { unimplemented!() }
}
pub open spec fn hir_plist<'a, T>(p: ParameterList) -> PList<'a, TypeSpec, T> { Seq::new(p.0@.len(), |i: int| (&p.0@[i].name, &p.0@[i].ty.inner, None)) }
/*@ fn spade-hir/src/param_util.rs :: <ParameterListLike for ParameterList>::as_listlike as hir_listlike
impl: impl ParameterList
generics: <'a, T>
ensures:
  r.0@ == hir_plist::<T>(*self)
loop 0 inv: vs0@ == self.0@, vacc0@.len() == vi0, forall|i: int| 0 <= i < vi0 ==> #[trigger] vacc0@[i] == hir_plist::<T>(*self)[i]
@*/
impl<'a, T> ParameterListLike<'a, TypeSpec, T> for ParameterList {
    open spec fn plist(&self) -> PList<'a, TypeSpec, T> { hir_plist::<T>(*self) }
    fn as_listlike(&'a self) -> (r: ParameterListWrapper<'a, TypeSpec, T>) { self.hir_listlike() }
}

/*@ fn spade-hir/src/param_util.rs :: match_args_with_params
ret: res
rule: unbound.clone() ==> unbound.velems()
rule: unbound.into_iter() ==> unbound.velems().into_iter()
rule: result.sort_by_key(|(i, _)| *i) ==> sort_by_first(&mut result)
requires:
  distinct(params.plist()),
  is_method ==> params.plist().len() >= 1 && match arg_list.inner { ArgumentList::Positional(a) => a@.len() >= 1, _ => true }
ensures:
  match (arg_list.inner, res) {
     (ArgumentList::Positional(a), Ok(v)) => pos_valid(a@, params.plist()) && pos_bound(a@, params.plist(), v@),
     (ArgumentList::Named(a), Ok(v)) => named_valid(a@, params.plist()) && named_bound(a@, params.plist(), v@),
     (ArgumentList::Positional(a), Err(e)) => !pos_valid(a@, params.plist()) && err_ok(arg_list.inner, params.plist(), is_method, e),
     (ArgumentList::Named(a), Err(e)) => !named_valid(a@, params.plist()) && err_ok(arg_list.inner, params.plist(), is_method, e) }
entry: broadcast use lemma_distinct; let ghost p0 = params.plist();
loop 0 inv: vacc0 <= vi0
loop 1 acc: Vec<Argument<'a, T, TypeLike>>
loop 1 inv:
  params.0@ == p0, vs1@ == inner@, vz1@ == p0, vlim1 == (if vs1@.len() < vz1@.len() { vz1@.len() } else { vs1@.len() }),
  match verr1 { None => vacc1@.len() == vi1 && vi1 <= p0.len() && (forall|i: int| inner@.len() <= i < vi1 ==> (#[trigger] p0[i]).2 is Some) && forall|i: int| #![trigger vacc1@[i]] 0 <= i < vi1 ==> vacc1@[i].target == p0[i].0 && vacc1@[i].target_type == p0[i].1
        && (if i < inner@.len() { vacc1@[i].value == inner@[i] && vacc1@[i].kind is Positional } else { p0[i].2 == Some(vacc1@[i].value) && vacc1@[i].kind is Default }),
     Some(e) => !pos_valid(inner@, p0) && err_ok(arg_list.inner, p0, is_method, e) }
loop 2 inv:
  vs2@ == inner@, vi2 >= p0.len(), vacc2@.len() == vi2 - p0.len()
loop 3 inv:
  vs3@ == p0, vi3 >= inner@.len(), vacc3@.len() == vi3 - inner@.len(), forall|i: int| 0 <= i < vacc3@.len() ==> #[trigger] vacc3@[i] == pid(p0, i + inner@.len())
loop 4 inv:
  vs4@ == p0, vacc4@.len() == vi4, forall|i: int| 0 <= i < vi4 ==> #[trigger] vacc4@[i] == p0[i].0
loop 4 after: proof { assert forall|id: Identifier| known(p0, id) <==> exists|i: int| 0 <= i < vacc4@.len() && (#[trigger] vacc4@[i]).sid() == id by { if known(p0, id) { let i = choose|i: int| #[trigger] named_here(p0, id, i); assert(vacc4@[i].sid() == id); } else if exists|i: int| 0 <= i < vacc4@.len() && (#[trigger] vacc4@[i]).sid() == id { let i = choose|i: int| 0 <= i < vacc4@.len() && (#[trigger] vacc4@[i]).sid() == id; assert(named_here(p0, id, i)); } } }
loop 5 acc: Vec<(usize, Argument<'a, T, TypeLike>)>
loop 5 inv:
  vs5@ == inner@, params.0@ == p0,
  forall|id: Identifier| #[trigger] bound.view().dom().contains(id) <==> given(inner@, id, vi5 as int),
  forall|id: Identifier| #[trigger] unbound.view().dom().contains(id) <==> known(p0, id) && !given(inner@, id, vi5 as int),
  forall|i: int, j: int| 0 <= i < j < vi5 ==> aid(#[trigger] inner@[i]) != aid(#[trigger] inner@[j]),
  forall|j: int| 0 <= j < vi5 ==> known(p0, aid(#[trigger] inner@[j])),
  vacc5@.len() == vi5,
  forall|j: int| 0 <= j < vi5 ==> bound_as(inner@, p0, j, #[trigger] vacc5@[j])
loop 5 start: proof { let n = vi5 - 1; lemma_given_step(inner@, n); if given(inner@, aid(inner@[n]), n) { lemma_dup(inner@, p0, n); } else { assert forall|i: int| 0 <= i < n implies aid(#[trigger] inner@[i]) != aid(inner@[n]) by { if aid(inner@[i]) == aid(inner@[n]) { assert(argof(inner@, aid(inner@[n]), i)); } } } }
loop 6 before: let ghost r0 = result@; let ghost u0 = unbound.view();
   proof { assert forall|k: int, l: int| 0 <= k < l < r0.len() implies (#[trigger] r0[k]).1.target.inner != (#[trigger] r0[l]).1.target.inner by { assert(aid(inner@[k]) != aid(inner@[l])); } }
loop 6 inv:
  params.0@ == p0, r0.len() == inner@.len(), result@.len() >= r0.len(), forall|k: int| 0 <= k < r0.len() ==> #[trigger] result@[k] == r0[k],
  forall|k: int| r0.len() <= k < result@.len() ==> default_as(p0, #[trigger] result@[k]) && u0.dom().contains(result@[k].1.target.inner) && seen(vs6@, result@[k].1.target.inner, vi6 as int),
  forall|k: int, l: int| 0 <= k < l < result@.len() ==> (#[trigger] result@[k]).1.target.inner != (#[trigger] result@[l]).1.target.inner,
  forall|id: Identifier| #[trigger] unbound.view().dom().contains(id) <==> u0.dom().contains(id) && !(seen(vs6@, id, vi6 as int) && has_default(p0, id)),
  forall|id: Identifier| seen(vs6@, id, vi6 as int) && has_default(p0, id) ==> #[trigger] targeted(result@, id)
loop 6 start: let ghost rb = result@; let ghost nm = vs6@[vi6 - 1].inner; proof { assert(vs6@[vi6 - 1].sid() == nm); assert(u0.dom().contains(nm)); assert(known(p0, nm)); assert(!given(inner@, nm, inner@.len() as int)); }
loop 6 end: proof {
   let n = vi6 - 1;
   assert forall|id: Identifier| #[trigger] seen(vs6@, id, vi6 as int) <==> seen(vs6@, id, n) || nm == id by { if nm == id { assert(vs6@[n].inner == id); } if seen(vs6@, id, n) { let i = choose|i: int| 0 <= i < n && i < vs6@.len() && (#[trigger] vs6@[i]).inner == id; assert(vs6@[i].inner == id); } }
   assert forall|k: int| 0 <= k < rb.len() implies (#[trigger] rb[k]).1.target.inner != nm by {
      if k < r0.len() { assert(bound_as(inner@, p0, k, r0[k])); assert(argof(inner@, aid(inner@[k]), k)); }
      else if rb[k].1.target.inner == nm { let i = choose|i: int| 0 <= i < n && i < vs6@.len() && (#[trigger] vs6@[i]).inner == nm; assert(vs6@[i].sid() != vs6@[n].sid()); }
   }
   assert(forall|k: int| 0 <= k < rb.len() ==> #[trigger] result@[k] == rb[k]);
   assert forall|id: Identifier| #[trigger] targeted(rb, id) implies targeted(result@, id) by { let k = choose|k: int| 0 <= k < rb.len() && (#[trigger] rb[k]).1.target.inner == id; assert(result@[k].1.target.inner == id); }
   if has_default(p0, nm) { assert(result@.len() == rb.len() + 1); assert(result@[rb.len() as int].1.target.inner == nm); assert(targeted(result@, nm)); }
   assert forall|id: Identifier| seen(vs6@, id, vi6 as int) && has_default(p0, id) implies #[trigger] targeted(result@, id) by { if id != nm { assert(seen(vs6@, id, n)); assert(targeted(rb, id)); } }
 }
loop 6 after: proof {
   assert forall|id: Identifier| u0.dom().contains(id) implies #[trigger] seen(vs6@, id, vi6 as int) by { let i = choose|i: int| 0 <= i < vs6@.len() && (#[trigger] vs6@[i]).sid() == id; assert(vs6@[i].inner == id); }
   assert forall|id: Identifier| known(p0, id) && !given(inner@, id, inner@.len() as int) && has_default(p0, id) implies #[trigger] targeted(result@, id) by { assert(u0.dom().contains(id)); assert(seen(vs6@, id, vi6 as int)); }
   assert(collected(inner@, p0, result@));
 }
before-call sort_by_first: let ghost rr = result@;
after-call sort_by_first: proof {
   assert(collected(inner@, p0, rr));
   assert(forall|id: Identifier| #[trigger] unbound.view().dom().contains(id) <==> missing_id(inner@, p0, id));
   if forall|id: Identifier| !#[trigger] unbound.view().dom().contains(id) { assert forall|id: Identifier| !missing_id(inner@, p0, id) by { assert(!unbound.view().dom().contains(id)); } lemma_sorted(inner@, p0, rr, result@); lemma_all_valid(inner@, p0); }
 }
loop 7 before: let ghost srt = vs7@;
loop 7 inv: vs7@ == srt,
  vacc7@.len() == vi7, forall|i: int| 0 <= i < vi7 ==> #[trigger] vacc7@[i] == vs7@[i].1
loop 7 after: proof { if forall|id: Identifier| !#[trigger] unbound.view().dom().contains(id) { assert(named_bound(inner@, p0, vacc7@)); } }
loop 8 inv:
  vacc8@.len() == vi8, forall|i: int| 0 <= i < vi8 ==> #[trigger] vacc8@[i] == vs8@[i].inner
@*/
}
fn main(){}
