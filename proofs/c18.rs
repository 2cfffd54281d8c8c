//@include core.rs
//@include vmap.rs
/*@ rules
rule: $x.clone() ==> $x.vclone()
rule: $x.to_owned() ==> $x.vclone()
rule: $o.map(|_| $b) ==> match $o { Some(_) => Some($b), None => None }
rule: $x.get($k).map(|_| $b) ==> match $x.get($k) { Some(_) => Some($b), None => None }
rule: VecDeque::from($s) ==> VDeque::from_vec($s)
rule: HashMap::default() ==> VEmpty::vempty()
rule: $v.last_mut().unwrap().vars.insert($k, $x) ==> vlast_insert(&mut $v, $k, $x)
rule: $v[$i].vars.insert($k, $x) ==> vat_insert(&mut $v, $i, $k, $x)
rule: self.id_tracker.next() ==> self.id_tracker.vnext()
rule: $o.unwrap_or($d) ==> match $o { Some(vx_v) => vx_v, None => $d }
type: ScopeBarrier ==> Barrier
type: HashSet ==> VSet
type: Result ==> Result<@0, @1>
rule: forbidden.contains($x) ==> forbidden.has($x)
rule: local_forbidden.insert($x) ==> local_forbidden.put($x)
rule: LookupError::NotVisible { target_segment: $a, invisible_segment: $b, target_item: $c, invisible_item: $d, visibility_marker: $e, suggest_modifications: $f } ==> LookupError::VxOther(0)
rule: LookupError::AmbiguousPath { path: $a, segment: $b, aliased_item: $c, regular_item: $d } ==> LookupError::VxOther(1)
dropstmt: if full_name.to_named_strs() == $a { $b }
droplet: target_id
droplet: target_item
droplet: invisible_item
droplet: aliased_item
droplet: regular_item
@*/
verus! {
broadcast use {group_num};
#[verifier::external_body] pub struct Identifier { x: u64 }
#[verifier::external_body] pub struct Diagnostic { x: u64 }
#[verifier::external_body] pub fn vdiag() -> (r: Diagnostic) { unimplemented!() }
#[verifier::external_body] pub struct Barrier { x: u64 }
#[verifier::external_body] pub struct Diags { x: u64 }
#[verifier::external_body] pub struct TypeSymbol { x: u64 }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Span { x: u64 }
/*@ type spade-common/src/location_info.rs :: Loc @*/
impl<T> Loc<T> {
    #[verifier::external_body]
    pub fn loc(&self) -> (r: Loc<()>) { unimplemented!() }
}
pub trait At: Sized { fn at_loc<T>(self, l: &Loc<T>) -> (r: Loc<Self>) ensures r.inner == self; fn nowhere(self) -> (r: Loc<Self>) ensures r.inner == self; }
impl<X> At for X {
    #[verifier::external_body] fn at_loc<T>(self, l: &Loc<T>) -> (r: Loc<Self>) { unimplemented!() }
    #[verifier::external_body] fn nowhere(self) -> (r: Loc<Self>) { unimplemented!() }
}
// ---------------------------------------------------------------- paths
/// a path segment up to its source location (equality and hashing of segments ignore the location: trusted)
#[verifier::external_body] pub struct PathSegment { x: u64 }
pub type Key = Seq<PathSegment>;
pub uninterp spec fn named(i: Identifier) -> PathSegment;
impl PathSegment {
    #[verifier::external_body] pub fn loc(&self) -> (r: Loc<()>) { unimplemented!() }
    #[verifier::external_body] pub fn vnamed(i: Loc<Identifier>) -> (r: PathSegment) ensures r == named(i.inner) { unimplemented!() }
}
#[verifier::external_body]
pub fn vseg_eq(a: &PathSegment, b: &PathSegment) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/*@ type spade-common/src/name.rs :: Path @*/
/*@ type spade-common/src/name.rs :: PathPrefix @*/
pub enum EitherOrBoth<A, B> { Both(A, B), Left(A), Right(B) }
/*@ type spade-common/src/name.rs :: NameID @*/
impl View for Path { type V = Key; open spec fn view(&self) -> Key { self.0@ } }
/// `lib`, `self` and leading `super`s (contract; the bounded part compares the real function)
pub enum Pre { Lib, Slf, Super(nat), No }
pub uninterp spec fn is_lib(s: PathSegment) -> bool;
pub uninterp spec fn is_self(s: PathSegment) -> bool;
pub uninterp spec fn is_super(s: PathSegment) -> bool;
pub open spec fn supers(k: Key) -> nat decreases k.len() { if k.len() > 0 && is_super(k[0]) { 1 + supers(k.drop_first()) } else { 0 } }
pub open spec fn prefix(k: Key) -> Pre {
    if k.len() == 0 { Pre::No } else if is_lib(k[0]) { Pre::Lib } else if is_self(k[0]) { Pre::Slf } else if is_super(k[0]) { Pre::Super(supers(k)) } else { Pre::No }
}
#[verifier::external_body]
pub fn vslice_to(v: &Vec<PathSegment>, n: usize) -> (r: Vec<PathSegment>) requires n <= v@.len() ensures r@ == v@.take(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vslice_from(v: &Vec<PathSegment>, n: usize) -> (r: Vec<PathSegment>) requires n <= v@.len() ensures r@ == v@.skip(n as int) { unimplemented!() }
/// the name in a segment, as far as the keywords go
pub enum Word { Lib, Slf, Super, Other }
pub open spec fn word(s: PathSegment) -> Word { if is_lib(s) { Word::Lib } else if is_self(s) { Word::Slf } else if is_super(s) { Word::Super } else { Word::Other } }
/// a segment has one name
pub axiom fn axiom_one_name(s: PathSegment) ensures !(is_lib(s) && is_super(s)), !(is_self(s) && is_super(s)), !(is_lib(s) && is_self(s));
impl PathSegment { #[verifier::external_body] pub fn vis_super(&self) -> (r: bool) ensures r == is_super(*self) { unimplemented!() }
    #[verifier::external_body] pub fn vword(&self) -> (r: Word) ensures r == word(*self) { unimplemented!() } }
pub fn vfirst(v: &Vec<PathSegment>) -> (r: Option<&PathSegment>) ensures r == (if v@.len() > 0 { Some(&v@[0]) } else { None }) { if v.len() > 0 { Some(&v[0]) } else { None } }
/// `expect` and an underflowing index do not return
#[verifier::external_body] pub fn vor_panic<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
#[verifier::external_body] pub fn vsub_or_panic(a: usize, b: usize) -> (r: usize) ensures a >= b, r == a - b { unimplemented!() }
pub proof fn lemma_supers(k: Key, n: nat)
    requires n <= k.len(), forall|i: int| 0 <= i < n ==> is_super(#[trigger] k[i]), n < k.len() ==> !is_super(k[n as int])
    ensures supers(k) == n
    decreases n
{
    if n > 0 {
        assert(is_super(k[0]));
        assert forall|i: int| 0 <= i < n - 1 implies is_super(#[trigger] k.drop_first()[i]) by { assert(k.drop_first()[i] == k[i + 1]); }
        lemma_supers(k.drop_first(), (n - 1) as nat);
    }
}
/*@ fn spade-common/src/name.rs :: Path::extract_prefix
impl: impl Path
rule: $x.to_named_str() == Some("super") ==> $x.vis_super()
rule: $x.to_named_str() ==> $x.vword()
pat: Some("lib") ==> Word::Lib
pat: Some("self") ==> Word::Slf
pat: Some("super") ==> Word::Super
rule: Vec::from(&self.0[$n..]) ==> vslice_from(&self.0, $n)
rule: self.0.first() ==> vfirst(&self.0)
entry:
  proof { if self@.len() > 0 { axiom_one_name(self@[0]); } }
ensures:
  match prefix(self@) {
    Pre::Lib => r.0 is FromLib && r.1@ == self@.skip(1), Pre::Slf => r.0 is FromSelf && r.1@ == self@.skip(1),
    Pre::Super(n) => r.0 is FromSuper && r.0->FromSuper_0 == n && 0 < n <= self@.len() && r.1@ == self@.skip(n as int), Pre::No => r.0 is None && r.1@ == self@ }
loop 0 inv:
  vacc0 == vi0,
  vs0@ == self@,
  forall|i: int| 0 <= i < vi0 ==> is_super(#[trigger] vs0@[i])
loop 0 after:
  proof { lemma_supers(self@, vacc0 as nat); }
@*/
/*@ fn spade-common/src/name.rs :: Path::tail
impl: impl Path
rule: $o.expect($s) ==> vor_panic($o)
ensures: self@.len() > 0, r == self@.last()
@*/
/*@ fn spade-common/src/name.rs :: Path::prelude
impl: impl Path
rule: self.0[0..$n].to_owned() ==> vslice_to(&self.0, $n)
rule: $a - 1 ==> vsub_or_panic($a, 1)
ensures: self@.len() > 0, r@ == self@.drop_last()
@*/
/*@ fn spade-common/src/name.rs :: Path::push_segment
impl: impl Path
ensures: r@ == self@.push(segment)
@*/
/*@ fn spade-common/src/name.rs :: Path::join
impl: impl Path
ensures: r@ == self@ + other@
loop 0 inv:
  result@ == self@ + vs0@.take(vi0 as int)
loop 0 end:
  proof { assert(vs0@.take(vi0 as int) =~= vs0@.take(vi0 - 1).push(vs0@[vi0 - 1])); assert(self@ + vs0@.take(vi0 as int) =~= (self@ + vs0@.take(vi0 - 1)).push(vs0@[vi0 - 1])); }
loop 0 after:
  proof { assert(vs0@.take(vi0 as int) =~= other@); }
@*/
/*@ fn spade-common/src/name.rs :: Path::ident_with_loc
impl: impl Path
assoc: yes
ensures: r.inner@ == seq![named(ident.inner)]
@*/
/*@ fn spade-common/src/name.rs :: Path::ident
impl: impl Path
assoc: yes
rule: PathSegment::Named($i) ==> PathSegment::vnamed($i)
ensures: r@ == seq![named(ident.inner)]
@*/
// ---------------------------------------------------------------- maps
#[verifier::external_body] pub struct PMap { x: u64 }
impl View for PMap { type V = Map<Key, NameID>; uninterp spec fn view(&self) -> Map<Key, NameID>; }
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct NMap<V> { x: Vec<V> }
impl<V> View for NMap<V> { type V = Map<u64, V>; uninterp spec fn view(&self) -> Map<u64, V>; }
#[verifier::external_body] pub struct Ids { x: u64 }
impl View for Ids { type V = Set<u64>; uninterp spec fn view(&self) -> Set<u64>; }
pub trait VEmpty: Sized { spec fn vnil(self) -> bool; fn vempty() -> (r: Self) ensures r.vnil(); }
impl VEmpty for PMap { open spec fn vnil(self) -> bool { self@ == Map::<Key, NameID>::empty() } #[verifier::external_body] fn vempty() -> (r: Self) { unimplemented!() } }
impl<V> VEmpty for NMap<V> { open spec fn vnil(self) -> bool { self@ == Map::<u64, V>::empty() } #[verifier::external_body] fn vempty() -> (r: Self) { unimplemented!() } }
impl PMap {
    #[verifier::external_body] pub fn get(&self, k: &Path) -> (r: Option<&NameID>) ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &Path) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
}
impl<V> NMap<V> {
    #[verifier::external_body] pub fn get(&self, k: &NameID) -> (r: Option<&V>) ensures r == (if self@.dom().contains(k.0) { Some(&self@[k.0]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &NameID) -> (r: bool) ensures r == self@.dom().contains(k.0) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: NameID, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.0, v) { unimplemented!() }
}
impl Ids {
    #[verifier::external_body] pub fn vempty() -> (r: Ids) ensures r@ == Set::<u64>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn has(&self, k: &NameID) -> (r: bool) ensures r == self@.contains(k.0) { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, k: NameID) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.0) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VDeque<T> { x: Vec<T> }
impl<T> View for VDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VDeque<T> {
    #[verifier::external_body] pub fn from_vec(v: Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first() { unimplemented!() }
    #[verifier::external_body] pub fn front(&self) -> (r: Option<&T>) ensures r == (if self@.len() > 0 { Some(&self@[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
#[verifier::external_body] pub struct NameIdTracker { x: u64 }
impl NameIdTracker {
    pub uninterp spec fn next_id(&self) -> int;
    /// an atomic counter (contract: it does not wrap)
    #[verifier::external_body] pub fn vnext(&mut self) -> (r: u64) ensures r == old(self).next_id(), final(self).next_id() == old(self).next_id() + 1 { unimplemented!() }
}
/*@ type spade-hir/src/symbol_table.rs :: Thing
keep: Variable, Alias, Dummy
@*/
impl Thing {
    #[verifier::external_body] pub fn name_loc(&self) -> (r: Loc<()>) { unimplemented!() }
}
/*@ type spade-hir/src/symbol_table.rs :: LookupError
keep: NoSuchSymbol, NotAThing, NotAVariable, IsAType, TooManySuperSegments
@*/
/*@ type spade-hir/src/symbol_table.rs :: DeclarationState @*/
/*@ type spade-common/src/name.rs :: Visibility @*/
/*@ type spade-hir/src/symbol_table.rs :: Scope
type: HashMap ==> PMap
@*/
/*@ type spade-hir/src/symbol_table.rs :: SymbolTable
drop: lang_items, diags
type: HashMap ==> NMap<@1>
@*/

// ---------------------------------------------------------------- the scopes
pub type Vars = Map<Key, NameID>;
/// the open scopes, outermost first
pub open spec fn scopes(t: SymbolTable) -> Seq<Vars> { t.symbols@.map_values(|s: Scope| s.vars@) }
pub open spec fn with(s: Seq<Vars>, i: int, k: Key, id: NameID) -> Seq<Vars> { s.update(i, s[i].insert(k, id)) }
/// everything but the scopes and the declarations is as before
pub open spec fn same_rest(a: SymbolTable, b: SymbolTable) -> bool {
    a.things == b.things && a.types == b.types && a.visibilities == b.visibilities && a.deprecation_notes == b.deprecation_notes
        && a.id_tracker == b.id_tracker && a.namespace == b.namespace && a.base_namespace == b.base_namespace
}
/// identities are handed out once: everything in the table was numbered before the next one
pub open spec fn fresh(t: SymbolTable) -> bool {
    &&& forall|i: u64| #![trigger t.things@.dom().contains(i)] t.things@.dom().contains(i) ==> i < t.id_tracker.next_id()
    &&& forall|i: u64| #![trigger t.types@.dom().contains(i)] t.types@.dom().contains(i) ==> i < t.id_tracker.next_id()
}
#[verifier::external_body]
pub fn vat_insert(v: &mut Vec<Scope>, i: usize, k: Path, id: NameID)
    requires i < old(v)@.len()
    ensures final(v)@.len() == old(v)@.len(), final(v)@[i as int].vars@ == old(v)@[i as int].vars@.insert(k@, id), forall|j: int| 0 <= j < old(v)@.len() && j != i ==> final(v)@[j] == old(v)@[j] { unimplemented!() }
#[verifier::external_body]
pub fn vlast_insert(v: &mut Vec<Scope>, k: Path, id: NameID)
    ensures old(v)@.len() > 0, final(v)@.len() == old(v)@.len(), final(v)@.last().vars@ == old(v)@.last().vars@.insert(k@, id), forall|j: int| 0 <= j < old(v)@.len() - 1 ==> final(v)@[j] == old(v)@[j] { unimplemented!() }
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::new_scope
impl: impl SymbolTable
ensures: scopes(*final(self)) =~= scopes(*old(self)).push(Map::empty()), same_rest(*old(self), *final(self)), final(self).declarations@.len() == old(self).declarations@.len() + 1
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::new_scope_with_barrier
impl: impl SymbolTable
ensures: scopes(*final(self)) =~= scopes(*old(self)).push(Map::empty()), same_rest(*old(self), *final(self)), final(self).declarations@.len() == old(self).declarations@.len() + 1
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::close_scope
impl: impl SymbolTable
requires: old(self).symbols@.len() > 0, old(self).declarations@.len() > 0
ensures:
  final(self).symbols@ == old(self).symbols@.drop_last(),
  final(self).declarations@ == old(self).declarations@.drop_last(),
  same_rest(*old(self), *final(self))
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::current_scope
impl: impl SymbolTable
requires: self.symbols@.len() > 0
ensures: r == self.symbols@.len() - 1
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::push_namespace
impl: impl SymbolTable
ensures: final(self).namespace@ == old(self).namespace@.push(new_segment), final(self).symbols == old(self).symbols
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::pop_namespace
impl: impl SymbolTable
rule: $o.pop().expect($s) ==> $o.pop().unwrap()
requires: old(self).namespace@.len() > 0
ensures: final(self).namespace@ == old(self).namespace@.drop_last(), final(self).symbols == old(self).symbols
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::current_namespace
impl: impl SymbolTable
ensures: *r == self.namespace
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_thing_with_name_id
impl: impl SymbolTable
ensures:
  final(self).symbols == old(self).symbols,
  final(self).things@ == old(self).things@.insert(name_id.0, item),
  final(self).types == old(self).types, final(self).namespace == old(self).namespace, final(self).id_tracker == old(self).id_tracker, final(self).base_namespace == old(self).base_namespace, final(self).declarations == old(self).declarations,
  final(self).visibilities@ == (match visibility { Some(v) => old(self).visibilities@.insert(name_id.0, v), None => old(self).visibilities@ })
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_thing_with_id_at_offset
impl: impl SymbolTable
rule: panic!($a, $b) ==> vdiverge::<()>()
requires: offset < old(self).symbols@.len()
ensures:
  r.0 == id,
  r.1@ == old(self).namespace@ + name@,
  !old(self).things@.dom().contains(id),
  scopes(*final(self)) =~= with(scopes(*old(self)), old(self).symbols@.len() - 1 - offset, r.1@, r),
  final(self).things@ == old(self).things@.insert(id, item),
  final(self).types == old(self).types, final(self).namespace == old(self).namespace, final(self).id_tracker == old(self).id_tracker, final(self).base_namespace == old(self).base_namespace, final(self).declarations == old(self).declarations,
  final(self).visibilities@ == (match visibility { Some(v) => old(self).visibilities@.insert(id, v), None => old(self).visibilities@ })
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_thing_with_id
impl: impl SymbolTable
requires: old(self).symbols@.len() > 0
ensures:
  r.0 == id,
  r.1@ == old(self).namespace@ + name@,
  scopes(*final(self)) =~= with(scopes(*old(self)), old(self).symbols@.len() - 1, r.1@, r),
  final(self).things@ == old(self).things@.insert(id, item),
  final(self).types == old(self).types, final(self).namespace == old(self).namespace, final(self).id_tracker == old(self).id_tracker, final(self).base_namespace == old(self).base_namespace, final(self).declarations == old(self).declarations,
  final(self).visibilities@ == (match visibility { Some(v) => old(self).visibilities@.insert(id, v), None => old(self).visibilities@ })
@*/
/// a thing is added under its full name to scope `at`, with an identity nothing has had before
pub open spec fn added(a: SymbolTable, b: SymbolTable, at: int, name: Key, item: Thing, vis: Option<Loc<Visibility>>, r: NameID) -> bool {
    &&& r.1@ == a.namespace@ + name
    &&& scopes(b) =~= with(scopes(a), at, r.1@, r)
    &&& b.things@ == a.things@.insert(r.0, item)
    &&& b.types == a.types && b.namespace == a.namespace && b.base_namespace == a.base_namespace && b.declarations == a.declarations
    &&& b.visibilities@ == (match vis { Some(v) => a.visibilities@.insert(r.0, v), None => a.visibilities@ })
    &&& r.0 == a.id_tracker.next_id() && b.id_tracker.next_id() == r.0 + 1
    &&& fresh(a) ==> !a.things@.dom().contains(r.0) && !a.types@.dom().contains(r.0) && fresh(b)
}
pub open spec fn added_type(a: SymbolTable, b: SymbolTable, name: Key, t: Loc<TypeSymbol>, vis: Option<Loc<Visibility>>, r: NameID) -> bool {
    &&& r.1@ == a.namespace@ + name
    &&& scopes(b) =~= with(scopes(a), a.symbols@.len() - 1, r.1@, r)
    &&& b.types@ == a.types@.insert(r.0, t)
    &&& b.things == a.things && b.namespace == a.namespace && b.base_namespace == a.base_namespace && b.declarations == a.declarations
    &&& b.visibilities@ == (match vis { Some(v) => a.visibilities@.insert(r.0, v), None => a.visibilities@ })
    &&& r.0 == a.id_tracker.next_id() && b.id_tracker.next_id() == r.0 + 1
    &&& fresh(a) ==> !a.things@.dom().contains(r.0) && !a.types@.dom().contains(r.0) && fresh(b)
}
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_thing
impl: impl SymbolTable
requires: old(self).symbols@.len() > 0
ensures: added(*old(self), *final(self), old(self).symbols@.len() - 1, name@, item, visibility, r)
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_thing_at_offset
impl: impl SymbolTable
requires: offset < old(self).symbols@.len()
ensures: added(*old(self), *final(self), old(self).symbols@.len() - 1 - offset, name@, item, visibility, r)
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_local_variable_at_offset
impl: impl SymbolTable
requires: offset < old(self).symbols@.len()
ensures: added(*old(self), *final(self), old(self).symbols@.len() - 1 - offset, seq![named(name.inner)], Thing::Variable(name), None, r)
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_local_variable
impl: impl SymbolTable
requires: old(self).symbols@.len() > 0
ensures: added(*old(self), *final(self), old(self).symbols@.len() - 1, seq![named(name.inner)], Thing::Variable(name), None, r)
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_type_with_id
impl: impl SymbolTable
rule: panic!($a, $b) ==> vdiverge::<()>()
requires: old(self).symbols@.len() > 0
ensures:
  r.0 == id,
  r.1@ == old(self).namespace@ + path.inner@,
  scopes(*final(self)) =~= with(scopes(*old(self)), old(self).symbols@.len() - 1, r.1@, r),
  final(self).types@ == old(self).types@.insert(id, t),
  final(self).things == old(self).things, final(self).namespace == old(self).namespace, final(self).id_tracker == old(self).id_tracker, final(self).base_namespace == old(self).base_namespace, final(self).declarations == old(self).declarations,
  final(self).visibilities@ == (match visibility { Some(v) => old(self).visibilities@.insert(id, v), None => old(self).visibilities@ })
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_type
impl: impl SymbolTable
requires: old(self).symbols@.len() > 0
ensures: added_type(*old(self), *final(self), path.inner@, t, visibility, r)
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::ensure_is_unique
impl: impl SymbolTable
rule: self.current_namespace().join($x) ==> self.namespace.join($x)
rule: $a.first().unwrap().vars.get($k).and_then(|id| $b) ==> match $a[0].vars.get($k) { Some(id) => $b, None => None }
rule: self.things.get(id).map(|thing| $e).or_else(|| $x) ==> match self.things.get(id) { Some(thing) => Some($e), None => $x }
rule: self.types.get(id).map(|t| $e) ==> match self.types.get(id) { Some(t) => Some($e), None => None }
rule: Err($e) ==> Err(vdiag())
requires: self.symbols@.len() > 0
ensures:
  r is Ok == !({ let k = self.namespace@ + name.inner@; scopes(*self)[0].dom().contains(k) && (self.things@.dom().contains(scopes(*self)[0][k].0) || self.types@.dom().contains(scopes(*self)[0][k].0)) })
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_unique_thing
impl: impl SymbolTable
requires: old(self).symbols@.len() > 0
ensures: r is Ok ==> added(*old(self), *final(self), old(self).symbols@.len() - 1, name.inner@, item, visibility, r->Ok_0)
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_unique_type
impl: impl SymbolTable
requires: old(self).symbols@.len() > 0
ensures: r is Ok ==> added_type(*old(self), *final(self), path.inner@, t, visibility, r->Ok_0)
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::add_alias
impl: impl SymbolTable
requires: old(self).symbols@.len() > 0
ensures: r is Ok ==> added(*old(self), *final(self), old(self).symbols@.len() - 1, seq![named(name.inner)], Thing::Alias { loc, path: target, in_namespace: old(self).namespace }, Some(visibility), r->Ok_0)
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::re_add_type
impl: impl SymbolTable
macro: assert ==> ()
requires: old(self).symbols@.len() > 0
ensures: scopes(*final(self)) =~= with(scopes(*old(self)), old(self).symbols@.len() - 1, old(self).namespace@ + seq![named(name.inner)], name_id), same_rest(*old(self), *final(self))
@*/
// ---------------------------------------------------------------- lookup
/// the innermost open scope (counted from the innermost, from `from` outwards) that defines k
pub open spec fn innermost(t: SymbolTable, k: Key, from: nat) -> Option<nat> decreases t.symbols@.len() - from {
    if from >= t.symbols@.len() { None } else if scope_of(t, from).dom().contains(k) { Some(from) } else { innermost(t, k, from + 1) }
}
pub open spec fn scope_of(t: SymbolTable, off: nat) -> Vars { t.symbols@[t.symbols@.len() - 1 - off].vars@ }
pub proof fn lemma_innermost(t: SymbolTable, k: Key, from: nat, o: nat)
    requires from <= o < t.symbols@.len(), scope_of(t, o).dom().contains(k), forall|j: nat| from <= j < o ==> !(#[trigger] scope_of(t, j)).dom().contains(k)
    ensures innermost(t, k, from) == Some(o) decreases o - from
{ if from < o { assert(!scope_of(t, from).dom().contains(k)); lemma_innermost(t, k, from + 1, o); } }
pub proof fn lemma_no_innermost(t: SymbolTable, k: Key, from: nat)
    requires forall|j: nat| from <= j < t.symbols@.len() ==> !(#[trigger] scope_of(t, j)).dom().contains(k)
    ensures innermost(t, k, from) is None decreases t.symbols@.len() - from
{ if from < t.symbols@.len() { assert(!scope_of(t, from).dom().contains(k)); lemma_no_innermost(t, k, from + 1); } }
/// where the walk over the segments starts: scope, namespace, segments
#[verifier::opaque]
pub open spec fn start(t: SymbolTable, p: Key, ns: Key, from: nat) -> Option<(nat, Key, Key)> {
    let root = (t.symbols@.len() - 1) as nat;
    match prefix(p) {
        Pre::Lib => Some((root, t.base_namespace@, p.skip(1))),
        Pre::Super(n) => if ns.len() >= n { Some((root, ns.take(ns.len() - n), p.skip(n as int))) } else { None },
        Pre::Slf => if p.len() == 1 && innermost(t, ns.push(p[0]), from) is Some { Some((innermost(t, ns.push(p[0]), from)->0, ns, p)) } else { Some((root, ns, p.skip(1))) },
        Pre::No => if p.len() == 0 { Some((0, t.namespace@, p)) } else { match innermost(t, ns.push(p[0]), from) { Some(o) => Some((o, ns, p)), None => Some((root, Seq::empty(), p)) } },
    }
}
pub open spec fn is_alias(t: SymbolTable, id: NameID) -> bool { t.things@.dom().contains(id.0) && t.things@[id.0] is Alias }
/// the first n segments name things of scope off that are no aliases (a type ends the path whatever else has its name)
#[verifier::opaque]
pub open spec fn plain(t: SymbolTable, off: nat, q: Key, segs: Key, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> scope_of(t, off).dom().contains(#[trigger] (q + segs.take(i + 1))) && (!is_alias(t, scope_of(t, off)[q + segs.take(i + 1)])
        || (i == segs.len() - 1 && t.types@.dom().contains(scope_of(t, off)[q + segs.take(i + 1)].0)))
}
/// what the path names (when it is found): present, and no alias
#[verifier::opaque]
pub open spec fn found(t: SymbolTable, o: nat, p: Key) -> bool {
    o < t.symbols@.len() && scope_of(t, o).dom().contains(p) && (!is_alias(t, scope_of(t, o)[p]) || t.types@.dom().contains(scope_of(t, o)[p].0))
}
#[verifier::opaque]
pub open spec fn sees(v: Visibility, w: Key, base: Key, ns: Key) -> bool {
    let at = match v { Visibility::Public => Seq::empty(), Visibility::Implicit | Visibility::AtSelf => w.drop_last(), Visibility::AtLib => base,
        Visibility::AtSuper => w.drop_last().drop_last(), Visibility::AtSuperSuper => w.drop_last().drop_last().drop_last() };
    at.len() <= ns.len() && ns.take(at.len() as int) == at
}
/// every named step of the path is visible from ns
#[verifier::opaque]
pub open spec fn seen(t: SymbolTable, off: nat, q: Key, segs: Key, ns: Key, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> visible_step(t, scope_of(t, off)[#[trigger] (q + segs.take(i + 1))], q + segs.take(i + 1), ns)
}
#[verifier::opaque]
pub open spec fn visible_step(t: SymbolTable, id: NameID, w: Key, ns: Key) -> bool { t.visibilities@.dom().contains(id.0) ==> sees(t.visibilities@[id.0].inner, w, t.base_namespace@, ns) }
/// step k of the path is an alias to follow
#[verifier::opaque]
pub open spec fn alias_at(t: SymbolTable, off: nat, q: Key, segs: Key, k: int) -> bool {
    0 <= k < segs.len() && plain(t, off, q, segs, k) && scope_of(t, off).dom().contains(q + segs.take(k + 1)) && !plain(t, off, q, segs, k + 1)
}
#[verifier::opaque]
pub open spec fn missing_at(t: SymbolTable, off: nat, q: Key, segs: Key, k: int) -> bool { 0 <= k < segs.len() && plain(t, off, q, segs, k) && !scope_of(t, off).dom().contains(q + segs.take(k + 1)) }
/// an alias is followed at step k or every step is a plain one: no step before the end of the path is missing
pub proof fn lemma_none_missing(t: SymbolTable, off: nat, q: Key, segs: Key, k: int)
    requires alias_at(t, off, q, segs, k) || (k == segs.len() && plain(t, off, q, segs, k))
    ensures forall|i: int| !#[trigger] missing_at(t, off, q, segs, i), k < segs.len() ==> !plain(t, off, q, segs, segs.len() as int)
{
    reveal(plain); reveal(alias_at); reveal(missing_at);
    assert forall|i: int| !#[trigger] missing_at(t, off, q, segs, i) by {
        if missing_at(t, off, q, segs, i) && i < k { assert(scope_of(t, off).dom().contains(q + segs.take(i + 1))); }
        if missing_at(t, off, q, segs, i) && i > k { assert(scope_of(t, off).dom().contains(q + segs.take(k + 1))); assert(plain(t, off, q, segs, k + 1)); }
    }
    if k < segs.len() && plain(t, off, q, segs, segs.len() as int) { assert(plain(t, off, q, segs, k + 1)); }
}
pub open spec fn ends_here(t: SymbolTable, off: nat, w: Key, last: bool) -> bool { !is_alias(t, scope_of(t, off)[w]) || (last && t.types@.dom().contains(scope_of(t, off)[w].0)) }
pub proof fn lemma_step(t: SymbolTable, off: nat, q: Key, segs: Key, ns: Key, n: int, meta: bool)
    requires 0 < n <= segs.len(), plain(t, off, q, segs, n - 1), meta ==> seen(t, off, q, segs, ns, n - 1)
    ensures ({
        let w = q + segs.take(n);
        let there = scope_of(t, off).dom().contains(w);
        &&& !there ==> !plain(t, off, q, segs, segs.len() as int)
        &&& there && ends_here(t, off, w, n == segs.len()) ==> plain(t, off, q, segs, n)
        &&& there && !ends_here(t, off, w, n == segs.len()) ==> alias_at(t, off, q, segs, n - 1) && !plain(t, off, q, segs, segs.len() as int)
        &&& meta && visible_step(t, scope_of(t, off)[w], w, ns) ==> seen(t, off, q, segs, ns, n)
        &&& !t.visibilities@.dom().contains(scope_of(t, off)[w].0) ==> visible_step(t, scope_of(t, off)[w], w, ns)
        &&& !visible_step(t, scope_of(t, off)[w], w, ns) ==> !seen(t, off, q, segs, ns, segs.len() as int)
    })
{
    reveal(plain); reveal(alias_at); reveal(seen);
    let w = q + segs.take(n);
    reveal(visible_step);
    assert(w == q + segs.take((n - 1) + 1));
    if scope_of(t, off).dom().contains(w) && !ends_here(t, off, w, n == segs.len()) { assert(!plain(t, off, q, segs, n)); }
}
pub proof fn lemma_above_root(t: SymbolTable, p: Key, ns: Key, from: nat)
    ensures prefix(p) matches Pre::Super(n) ==> (ns.len() < n ==> start(t, p, ns, from) is None) { reveal(start); }
pub proof fn lemma_found(t: SymbolTable, o: nat, p: Key)
    requires o < t.symbols@.len(), scope_of(t, o).dom().contains(p), ends_here(t, o, p, true) ensures found(t, o, p) { reveal(found); }
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::canonicalize_in_namespace
impl: impl SymbolTable
attr: #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
rule: path.extract_prefix() ==> path.inner.extract_prefix()
rule: path.0 ==> path.inner.0
rule: Vec::from(&$v[0..$n]) ==> vslice_to(&$v, $n)
rule: path.tail() ==> path.inner.tail()
rule: $a == $b ==> vseg_eq($a, $b)
type: HashSet ==> Ids
entry:
  proof { lemma_above_root(*self, path.inner@, namespace@, offset as nat); }
requires: self.symbols@.len() > 0
ensures:
  start(*self, path.inner@, namespace@, offset as nat) is None ==> r is Err,
  r is Ok ==> r->Ok_0.0 < self.symbols@.len(),
  start(*self, path.inner@, namespace@, offset as nat) matches Some((off, q, segs)) ==> {
    &&& segs.len() > 0 && r is Ok ==> found(*self, r->Ok_0.0 as nat, r->Ok_0.1@)
    &&& plain(*self, off, q, segs, segs.len() as int) && r is Ok ==> r->Ok_0.0 == off && r->Ok_0.1@ == q + segs && (check_metadata ==> seen(*self, off, q, segs, namespace@, segs.len() as int))
    &&& plain(*self, off, q, segs, segs.len() as int) && forbidden@ == Set::<u64>::empty() && (check_metadata ==> seen(*self, off, q, segs, namespace@, segs.len() as int)) ==> r is Ok
    &&& forall|k: int| #[trigger] missing_at(*self, off, q, segs, k) ==> r is Err
  }
loop 0 inv:
  vi0 >= (if offset < vs0@.len() { offset as int } else { vs0@.len() as int }),
  vs0@ == self.symbols@,
  match vacc0 { None => forall|j: nat| offset <= j < vi0 ==> !(#[trigger] scope_of(*self, j)).dom().contains(absolute_head@),
    Some((o, _)) => offset <= o < vs0@.len() && scope_of(*self, o as nat).dom().contains(absolute_head@) && forall|j: nat| offset <= j < o ==> !(#[trigger] scope_of(*self, j)).dom().contains(absolute_head@) }
loop 0 after:
  proof { match vacc0 { Some((o, _)) => lemma_innermost(*self, absolute_head@, offset as nat, o as nat), None => lemma_no_innermost(*self, absolute_head@, offset as nat) } }
loop 1 acc: Option<(usize, Path)>
loop 1 inv:
  vi1 >= (if offset < vs1@.len() { offset as int } else { vs1@.len() as int }),
  vs1@ == self.symbols@,
  match vacc1 { None => forall|j: nat| offset <= j < vi1 ==> !(#[trigger] scope_of(*self, j)).dom().contains(absolute_head@),
    Some((o, q)) => q@ == namespace@ && offset <= o < vs1@.len() && scope_of(*self, o as nat).dom().contains(absolute_head@) && forall|j: nat| offset <= j < o ==> !(#[trigger] scope_of(*self, j)).dom().contains(absolute_head@) }
loop 1 after:
  proof { match vacc1 { Some((o, _)) => lemma_innermost(*self, absolute_head@, offset as nat, o as nat), None => lemma_no_innermost(*self, absolute_head@, offset as nat) } }
after-let working_path:
  let ghost off = scope_offset as nat;
  let ghost q = working_path@;
  let ghost segs = segments@;
  let ghost mut n: int = 0;
  let ghost mut clean = true;
  let ghost mut k: int = 0;
  proof {
    assert(start(*self, path.inner@, namespace@, offset as nat) == Some((off, q, segs))) by {
      reveal(start);
      let st = start(*self, path.inner@, namespace@, offset as nat);
      assert(st is Some);
      let (s0, s1, s2) = st->0;
      assert(s0 == off);
      assert(s1 =~= q);
      assert(s2 =~= segs);
    }
    assert(q + segs.take(0) =~= q);
    assert(segs.skip(0) =~= segs);
    assert(plain(*self, off, q, segs, 0)) by { reveal(plain); }
    assert(seen(*self, off, q, segs, namespace@, 0)) by { reveal(seen); }
  }
loop 2 inv:
  scope_offset < self.symbols@.len(),
  0 <= n,
  n == 0 ==> clean && segments@ == segs,
  clean ==> n <= segs.len() && scope_offset == off && working_path@ == q + segs.take(n) && segments@ == segs.skip(n) && plain(*self, off, q, segs, n) && (check_metadata ==> seen(*self, off, q, segs, namespace@, n)),
  !clean ==> alias_at(*self, off, q, segs, k) && !plain(*self, off, q, segs, segs.len() as int),
  n > 0 && segments@.len() == 0 ==> found(*self, scope_offset as nat, working_path@)
loop 2 ensures:
  segments@.len() == 0
loop 2 after:
  proof { if clean { assert(n == segs.len()); assert(segs.take(n) =~= segs); lemma_none_missing(*self, off, q, segs, n); } else { lemma_none_missing(*self, off, q, segs, k); } }
loop 3 before:
  proof {
    if clean { assert(segs.skip(n).drop_first() =~= segs.skip(n + 1)); assert(q + segs.take(n + 1) =~= (q + segs.take(n)).push(segs[n])); }
    n = n + 1;
  }
loop 3 inv:
  scope_offset < self.symbols@.len(),
  0 < n,
  clean ==> n <= segs.len() && scope_offset == off && working_path@ == q + segs.take(n) && segments@ == segs.skip(n) && plain(*self, off, q, segs, n - 1) && (check_metadata ==> seen(*self, off, q, segs, namespace@, n - 1)),
  !clean ==> alias_at(*self, off, q, segs, k) && !plain(*self, off, q, segs, segs.len() as int)
loop 3 start:
  proof {
    if clean { lemma_step(*self, off, q, segs, namespace@, n, check_metadata); }
    if scope_of(*self, scope_offset as nat).dom().contains(working_path@) && ends_here(*self, scope_offset as nat, working_path@, segments@.len() == 0) { if segments@.len() == 0 { lemma_found(*self, scope_offset as nat, working_path@); } }
  }
loop 3 ensures:
  clean ==> plain(*self, off, q, segs, n) && (check_metadata ==> seen(*self, off, q, segs, namespace@, n)),
  segments@.len() == 0 ==> found(*self, scope_offset as nat, working_path@)
loop 4 inv:
  vs4@ == vis_path@,
  vz4@ == namespace@,
  vlim4 == if vs4@.len() < vz4@.len() { vz4@.len() } else { vs4@.len() },
  vacc4 ==> forall|j: int| 0 <= j < vi4 && j < vs4@.len() ==> j < vz4@.len() && #[trigger] vs4@[j] == vz4@[j],
  !vacc4 ==> exists|j: int| 0 <= j < vs4@.len() && (j >= vz4@.len() || #[trigger] vs4@[j] != vz4@[j])
loop 4 after:
  proof {
    assert(vacc4 == (vis_path@.len() <= namespace@.len() && namespace@.take(vis_path@.len() as int) =~= vis_path@)) by {
      if vacc4 && vis_path@.len() > 0 { let z = vis_path@.len() - 1; assert(vs4@[z] == vz4@[z]); }
      if !vacc4 { let j = choose|j: int| 0 <= j < vs4@.len() && (j >= vz4@.len() || #[trigger] vs4@[j] != vz4@[j]); if vis_path@.len() <= namespace@.len() { assert(namespace@.take(vis_path@.len() as int)[j] == vz4@[j]); } }
    }
    assert(vacc4 == visible_step(*self, *id, working_path@, namespace@)) by { reveal(visible_step); reveal(sees); }
  }
before-call canonicalize_in_namespace:
  proof { if clean { clean = false; k = n - 1; } }
@*/
/// what an alias-free path that is found names
pub open spec fn target(t: SymbolTable, off: nat, q: Key, segs: Key) -> NameID { scope_of(t, off)[q + segs] }
pub open spec fn looked_up(t: SymbolTable, p: Key, ns: Key, meta: bool, r: Result<NameID, LookupError>) -> bool {
    &&& start(t, p, ns, 0) is None ==> r is Err
    &&& start(t, p, ns, 0) matches Some((off, q, segs)) ==> {
        &&& segs.len() > 0 && r is Ok ==> (!is_alias(t, r->Ok_0) || t.types@.dom().contains(r->Ok_0.0))
        &&& plain(t, off, q, segs, segs.len() as int) && r is Ok ==> r->Ok_0 == target(t, off, q, segs) && (meta ==> seen(t, off, q, segs, ns, segs.len() as int))
        &&& forall|k: int| #[trigger] missing_at(t, off, q, segs, k) ==> r is Err
    }
}
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::lookup_id_in_namespace
impl: impl SymbolTable
rule: &Default::default() ==> &Ids::vempty()
rule: $o.expect($s) ==> vor_panic($o)
dropstmt: if let Some(note) = deprecation_note { $b }
dropstmt: if let Some(thing) = self.things.get(&id) { $b }
requires: self.symbols@.len() > 0
ensures: looked_up(*self, name.inner@, namespace@, check_metadata, r)
after-let id:
  proof { reveal(found); }
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::lookup_id
impl: impl SymbolTable
requires: self.symbols@.len() > 0
ensures: looked_up(*self, name.inner@, self.namespace@, check_metadata, r)
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::lookup_thing_impl
impl: impl SymbolTable
requires: self.symbols@.len() > 0
ensures: r is Ok ==> looked_up(*self, path.inner@, namespace@, check_metadata, Ok(r->Ok_0.0)) && self.things@.dom().contains(r->Ok_0.0.0) && *r->Ok_0.1 == self.things@[r->Ok_0.0.0]
@*/
/*@ fn spade-hir/src/symbol_table.rs :: SymbolTable::lookup_variable
impl: impl SymbolTable
requires: self.symbols@.len() > 0
ensures: r is Ok ==> looked_up(*self, name.inner@, self.namespace@, false, r) && self.things@.dom().contains(r->Ok_0.0) && self.things@[r->Ok_0.0] is Variable
@*/
}
fn main() {}
