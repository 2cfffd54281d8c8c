//@include core.rs
//@include vmap.rs
/*@ rules
rule: $x.clone() ==> $x.vclone()
rule: $m.range(..=$x) ==> vrange_upto($m, $x).into_iter()
rule: $m.range(..$x) ==> vrange_below($m, $x).into_iter()
rule: $m.range($x..) ==> vrange_from($m, $x).into_iter()
rule: $m.entry($k).or_insert(Default::default()) ==> $m.ventry($k)
rule: $m.entry($k).or_default() ==> $m.ventry($k)
rule: HashMap::new() ==> VMap::new()
rule: ().at($f, $s) ==> at((), $f, $s)
rule: $x.unwrap_or_default() ==> vor_default($x)
type: HashMap ==> VMap<@0, @1>
type: BTreeMap ==> BMap<@0, @1>
macro: assert($c) ==> vassert($c)
@*/
verus! {
broadcast use {group_num};
pub fn vassert(b: bool) requires b { }
// ---------------------------------------------------------------- assumed contract of the crate spade-codespan
#[derive(PartialEq, Eq, PartialOrd, Clone, Copy, Structural)]
pub struct ByteIndex(pub u32);
#[derive(Clone, Copy)]
pub struct ByteOffset(pub i64);
impl ByteIndex { pub open spec fn ord(self) -> int { self.0 as int } }
impl ByteOffset {
    #[verifier::external_body]
    pub fn from_str_len(s: &str) -> (r: ByteOffset) ensures r.0 == slen(s) { unimplemented!() }
}
/// the number of bytes of a string
pub uninterp spec fn slen(s: &str) -> int;
pub assume_specification[ <ByteIndex as core::cmp::PartialEq>::eq ](a: &ByteIndex, b: &ByteIndex) -> (r: bool) ensures r == (a.0 == b.0);
pub assume_specification[ <ByteIndex as core::cmp::PartialOrd>::partial_cmp ](a: &ByteIndex, b: &ByteIndex) -> (r: Option<core::cmp::Ordering>)
    ensures r == Some(if a.0 < b.0 { core::cmp::Ordering::Less } else if a.0 == b.0 { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater });
#[derive(Clone, Copy)]
pub struct Span { pub start: ByteIndex, pub end: ByteIndex }
pub open spec fn span(a: ByteIndex, b: ByteIndex) -> Span { Span { start: a, end: b } }
pub open spec fn wf(s: Span) -> bool { s.start.0 <= s.end.0 }
/// a contains every position b contains
pub open spec fn within(a: Span, b: Span) -> bool { b.start.0 <= a.start.0 && a.end.0 <= b.end.0 }
pub open spec fn merged(a: Span, b: Span) -> Span { Span { start: if a.start.0 <= b.start.0 { a.start } else { b.start }, end: if a.end.0 >= b.end.0 { a.end } else { b.end } } }
pub trait VIdx: Sized { spec fn ix(self) -> ByteIndex; fn vix(self) -> (r: ByteIndex) ensures r == self.ix(); }
impl VIdx for ByteIndex { open spec fn ix(self) -> ByteIndex { self } fn vix(self) -> (r: ByteIndex) { self } }
impl VIdx for u32 { open spec fn ix(self) -> ByteIndex { ByteIndex(self) } fn vix(self) -> (r: ByteIndex) { ByteIndex(self) } }
impl Span {
    #[verifier::external_body]
    pub fn new<A: VIdx, B: VIdx>(a: A, b: B) -> (r: Span) requires a.ix().0 <= b.ix().0 ensures r == span(a.ix(), b.ix()) { unimplemented!() }
    #[verifier::external_body]
    pub fn merge(self, o: Span) -> (r: Span) ensures r == merged(self, o) { unimplemented!() }
    #[verifier::external_body]
    pub fn start(self) -> (r: ByteIndex) ensures r == self.start { unimplemented!() }
    #[verifier::external_body]
    pub fn end(self) -> (r: ByteIndex) ensures r == self.end { unimplemented!() }
}
#[verifier::external_body]
pub fn vspan_eq(a: Span, b: Span) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body]
pub fn vadd(a: ByteIndex, o: ByteOffset) -> (r: ByteIndex) requires 0 <= a.0 + o.0 <= u32::MAX ensures r.0 == a.0 + o.0 { unimplemented!() }
#[verifier::external_body]
pub fn vsub(a: ByteIndex, o: ByteOffset) -> (r: ByteIndex) requires 0 <= a.0 - o.0 <= u32::MAX ensures r.0 == a.0 - o.0 { unimplemented!() }
#[verifier::external_body]
pub fn span_range(s: Span) -> (r: std::ops::Range<usize>) ensures r.start == s.start.0, r.end == s.end.0 { unimplemented!() }
/// smallest enclosing span: contains both, and is within every span that contains both
pub proof fn lemma_merge_smallest(a: Span, b: Span)
    ensures within(a, merged(a, b)), within(b, merged(a, b)), merged(a, b) == merged(b, a),
        forall|s: Span| within(a, s) && within(b, s) ==> #[trigger] within(merged(a, b), s),
        wf(a) && wf(b) ==> wf(merged(a, b)) { }
pub proof fn lemma_merge_assoc(a: Span, b: Span, c: Span) ensures merged(merged(a, b), c) == merged(a, merged(b, c)) { }

// ---------------------------------------------------------------- location_info.rs
/*@ type spade-common/src/location_info.rs :: Loc @*/
pub trait HasCodespan { spec fn cs(&self) -> Span; fn codespan(&self) -> (r: Span) ensures r == self.cs(); }
impl<T> HasCodespan for Loc<T> { open spec fn cs(&self) -> Span { self.span } fn codespan(&self) -> (r: Span) { loc_codespan(self) } }
impl HasCodespan for Span { open spec fn cs(&self) -> Span { *self } fn codespan(&self) -> (r: Span) { span_codespan(self) } }
/*@ fn spade-common/src/location_info.rs :: <HasCodespan for Loc>::codespan as loc_codespan
sig: <T>(this: &Loc<T>) -> (r: Span)
rule: self ==> this
ensures: r == this.span
@*/
/*@ fn spade-common/src/location_info.rs :: <HasCodespan for Span>::codespan as span_codespan
sig: (this: &Span) -> (r: Span)
rule: self ==> this
ensures: r == *this
@*/
/*@ fn spade-common/src/location_info.rs :: <HasCodespan for Range>::codespan as range_codespan
sig: (this: &std::ops::Range<usize>) -> (r: Span)
rule: self ==> this
rule: $x.vclone() ==> vrclone($x)
requires: this.start <= this.end <= u32::MAX
ensures: r.start.0 == this.start, r.end.0 == this.end
@*/
#[verifier::external_body]
pub fn vrclone(r: &std::ops::Range<usize>) -> (q: std::ops::Range<usize>) ensures q == *r { unimplemented!() }
/*@ fn spade-common/src/location_info.rs :: lspan
sig: (s: std::ops::Range<usize>) -> (r: Span)
requires: s.start <= s.end <= u32::MAX
ensures: r.start.0 == s.start, r.end.0 == s.end
@*/
/*@ fn spade-common/src/location_info.rs :: WithLocation::at
sig: <T, S: HasCodespan>(this: T, file_id: usize, span: &S) -> (r: Loc<T>)
rule: self ==> this
ensures: r == (Loc { inner: this, span: span.cs(), file_id })
@*/
/*@ fn spade-common/src/location_info.rs :: WithLocation::at_loc
sig: <X, T>(this: X, loc: &Loc<T>) -> (r: Loc<X>)
rule: self ==> this
ensures: r == (Loc { inner: this, span: loc.span, file_id: loc.file_id })
@*/
/*@ fn spade-common/src/location_info.rs :: WithLocation::near_loc
sig: <X, T>(this: X, loc: &Loc<T>) -> (r: Loc<X>)
rule: self ==> this
ensures: r == (Loc { inner: this, span: loc.span, file_id: loc.file_id })
@*/
/*@ fn spade-common/src/location_info.rs :: WithLocation::between
sig: <X, A: HasCodespan, B: HasCodespan>(this: X, file_id: usize, start: &A, end: &B) -> (r: Loc<X>)
rule: self ==> this
ensures: r == (Loc { inner: this, span: merged(start.cs(), end.cs()), file_id })
@*/
/*@ fn spade-common/src/location_info.rs :: WithLocation::between_locs
sig: <X, T, Y>(this: X, start: &Loc<T>, end: &Loc<Y>) -> (r: Loc<X>)
rule: self ==> this
rule: $x.file_id() ==> label_file($x)
requires: start.file_id == end.file_id
ensures: r == (Loc { inner: this, span: merged(start.span, end.span), file_id: start.file_id })
@*/
/*@ fn spade-common/src/location_info.rs :: WithLocation::nowhere as wl_nowhere
sig: <X>(this: X) -> (r: Loc<X>)
rule: self.at($a, $b) ==> at(this, $a, $b)
ensures: r.inner == this, r.file_id == 0, r.span.start.0 == 0, r.span.end.0 == 0
@*/
/*@ fn spade-common/src/location_info.rs :: <AsLabel for Loc>::file_id as label_file
sig: <T>(this: &Loc<T>) -> (r: usize)
rule: self ==> this
ensures: r == this.file_id
@*/
/*@ fn spade-common/src/location_info.rs :: <AsLabel for Loc>::span as label_span
sig: <T>(this: &Loc<T>) -> (r: std::ops::Range<usize>)
rule: self.span.into() ==> span_range(this.span)
rule: self ==> this
ensures: r.start == this.span.start.0, r.end == this.span.end.0
@*/
/*@ fn spade-common/src/location_info.rs :: <From<&Loc<T>> for FullSpan>::from as full_span
sig: <T>(loc: &Loc<T>) -> (r: (Span, usize))
ensures: r == (loc.span, loc.file_id)
@*/
/*@ fn spade-common/src/location_info.rs :: <AsLabel for FullSpan>::span as full_label_span
sig: (this: &(Span, usize)) -> (r: std::ops::Range<usize>)
rule: self.0.into() ==> span_range(this.0)
rule: self ==> this
ensures: r.start == this.0.start.0, r.end == this.0.end.0
@*/
/*@ fn spade-common/src/location_info.rs :: <AsLabel for FullSpan>::file_id as full_label_file
sig: (this: &(Span, usize)) -> (r: usize)
rule: self ==> this
ensures: r == this.1
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::new
assoc: yes
ensures: r == (Loc { inner, span, file_id })
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::nowhere
assoc: yes
rule: Span::new(0, 0) ==> Span::new(0u32, 0u32)
ensures: r.inner == inner, r.file_id == 0, r.span.start.0 == 0, r.span.end.0 == 0
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::strip
ensures: r == self.inner
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::strip_ref
ensures: *r == self.inner
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::separate
ensures: r == (self, self.span)
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::separate_loc
ensures: r.0 == self, r.1.span == self.span, r.1.file_id == self.file_id
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::split
ensures: r == (self.inner, self.span)
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::split_ref
ensures: *r.0 == self.inner, r.1 == self.span
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::split_loc
ensures: r.0 == self.inner, r.1.span == self.span, r.1.file_id == self.file_id
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::split_loc_ref
ensures: *r.0 == self.inner, r.1.span == self.span, r.1.file_id == self.file_id
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::is_same_loc
rule: self.span == other.span ==> vspan_eq(self.span, other.span)
ensures: r == (self.span == other.span && self.file_id == other.file_id)
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::map
sig: <T, Y, F: FnMut(T) -> Y>(this: Loc<T>, mut op: F) -> (r: Loc<Y>)
rule: self ==> this
requires: op.requires((this.inner,))
ensures: r.span == this.span, r.file_id == this.file_id
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::map_ref
sig: <T, Y, F: FnMut(&T) -> Y>(this: &Loc<T>, mut op: F) -> (r: Loc<Y>)
rule: self ==> this
requires: op.requires((&this.inner,))
ensures: r.span == this.span, r.file_id == this.file_id
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::try_map
sig: <T, Y, E, F: FnMut(T) -> Result<Y, E>>(this: Loc<T>, mut op: F) -> (r: Result<Loc<Y>, E>)
rule: self ==> this
requires: op.requires((this.inner,))
ensures: r is Ok ==> r->Ok_0.span == this.span && r->Ok_0.file_id == this.file_id
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::try_map_ref
sig: <T, Y, E, F: FnMut(&T) -> Result<Y, E>>(this: &Loc<T>, mut op: F) -> (r: Result<Loc<Y>, E>)
rule: self ==> this
requires: op.requires((&this.inner,))
ensures: r is Ok ==> r->Ok_0.span == this.span && r->Ok_0.file_id == this.file_id
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::loc
ensures: r.span == self.span, r.file_id == self.file_id
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::contains_start
ensures: r == (other.file_id == self.file_id && self.span.start.0 <= other.span.start.0 && other.span.start.0 < self.span.end.0)
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::ends_before
ensures: r == (other.file_id == self.file_id && self.span.end.0 < other.span.start.0)
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::start_span
ensures: r.file_id == self.file_id, r.span == span(self.span.start, self.span.start)
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::end_span
ensures: r.file_id == self.file_id, r.span == span(self.span.end, self.span.end)
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::shrink_left
rule: $a + ByteOffset::from_str_len($b) ==> vadd($a, ByteOffset::from_str_len($b))
requires: wf(self.span), self.span.start.0 < self.span.end.0 ==> 0 <= slen(s) <= self.span.end.0 - self.span.start.0
ensures: r.file_id == self.file_id, r.span.end == self.span.end, r.span.start.0 == (if self.span.start.0 == self.span.end.0 { self.span.start.0 as int } else { self.span.start.0 + slen(s) })
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::shrink_right
rule: $a - ByteOffset::from_str_len($b) ==> vsub($a, ByteOffset::from_str_len($b))
requires: wf(self.span), self.span.start.0 < self.span.end.0 ==> 0 <= slen(s) <= self.span.end.0 - self.span.start.0
ensures: r.file_id == self.file_id, r.span.start == self.span.start, r.span.end.0 == (if self.span.start.0 == self.span.end.0 { self.span.end.0 as int } else { self.span.end.0 - slen(s) })
@*/
/*@ fn spade-common/src/location_info.rs :: Loc::transpose
sig: <T>(this: Loc<Option<T>>) -> (r: Option<Loc<T>>)
rule: self ==> this
rule: $x.at_loc($y) ==> at_loc($x, $y)
ensures: r == (match this.inner { Some(t) => Some(Loc { inner: t, span: this.span, file_id: this.file_id }), None => None })
@*/

// ---------------------------------------------------------------- loc_map.rs
pub trait VDef: Sized { spec fn is_def(&self) -> bool; }
impl<T> VDef for Vec<T> { open spec fn is_def(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<K, V> VDef for BMap<K, V> { open spec fn is_def(&self) -> bool { self@ == Map::<K, V>::empty() } }
#[verifier::external_body]
pub fn vor_default<T>(o: Option<Vec<T>>) -> (r: Vec<T>) ensures match o { Some(x) => r == x, None => r@ == Seq::<T>::empty() } { unimplemented!() }
/// an ordered map (assumed contract of BTreeMap)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BMap<K, V> { x: Vec<(K, V)> }
impl<K, V> View for BMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V: VDef> BMap<K, V> {
    #[verifier::external_body]
    pub fn ventry(&mut self, k: K) -> (r: &mut V)
        ensures old(self)@.dom().contains(k) ==> *r == old(self)@[k], !old(self)@.dom().contains(k) ==> r.is_def(), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
}
pub trait VEntry<K, V> { fn ventry(&mut self, k: K) -> (r: &mut V); }
impl<K, V: VDef> VMap<K, V> {
    #[verifier::external_body]
    pub fn ventry(&mut self, k: K) -> (r: &mut V)
        ensures old(self)@.dom().contains(k) ==> *r == old(self)@[k], !old(self)@.dom().contains(k) ==> r.is_def(), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
}
/// r lists exactly the entries of m with lo <= key <= hi, keys ascending
pub open spec fn in_range<V>(r: Seq<(&ByteIndex, &V)>, m: Map<ByteIndex, V>, lo: int, hi: int) -> bool {
    (forall|i: int| 0 <= i < r.len() ==> m.dom().contains(*(#[trigger] r[i]).0) && *r[i].1 == m[*r[i].0] && lo <= r[i].0.0 && r[i].0.0 <= hi)
    && (forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.0 < (#[trigger] r[j]).0.0)
    && (forall|k: ByteIndex| m.dom().contains(k) && lo <= k.0 <= hi ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]).0 == k)
}
#[verifier::external_body]
pub fn vrange_upto<V>(m: &BMap<ByteIndex, V>, k: ByteIndex) -> (r: Vec<(&ByteIndex, &V)>) ensures in_range(r@, m@, 0, k.0 as int) { unimplemented!() }
#[verifier::external_body]
pub fn vrange_below<V>(m: &BMap<ByteIndex, V>, k: ByteIndex) -> (r: Vec<(&ByteIndex, &V)>) ensures in_range(r@, m@, 0, k.0 - 1) { unimplemented!() }
#[verifier::external_body]
pub fn vrange_from<V>(m: &BMap<ByteIndex, V>, k: ByteIndex) -> (r: Vec<(&ByteIndex, &V)>) ensures in_range(r@, m@, k.0 as int, u32::MAX as int) { unimplemented!() }

/*@ type spade-common/src/loc_map.rs :: LocMap
attr: #[verifier::reject_recursive_types(T)]
@*/
/// the things recorded with exactly that span
pub open spec fn ends_at<T>(m: Map<ByteIndex, Vec<T>>, e: ByteIndex) -> Seq<T> { if m.dom().contains(e) { m[e]@ } else { Seq::empty() } }
pub open spec fn starts_at<T>(m: Map<ByteIndex, BMap<ByteIndex, Vec<T>>>, s: ByteIndex, e: ByteIndex) -> Seq<T> { if m.dom().contains(s) { ends_at(m[s]@, e) } else { Seq::empty() } }
pub open spec fn recorded<T>(m: LocMap<T>, f: usize, s: ByteIndex, e: ByteIndex) -> Seq<T> { if m.inner@.dom().contains(f) { starts_at(m.inner@[f]@, s, e) } else { Seq::empty() } }
/// where an element of the result comes from: (start, end, number among the things recorded there)
pub struct Key { pub s: ByteIndex, pub e: ByteIndex, pub j: int }
pub open spec fn kless(a: Key, b: Key) -> bool { a.s.0 < b.s.0 || (a.s == b.s && (a.e.0 < b.e.0 || (a.e == b.e && a.j < b.j))) }
pub open spec fn elem<T>(m: Map<ByteIndex, BMap<ByteIndex, Vec<T>>>, f: usize, k: Key, r: Loc<&T>) -> bool {
    r.file_id == f && r.span == span(k.s, k.e) && 0 <= k.j < starts_at(m, k.s, k.e).len() && *r.inner == starts_at(m, k.s, k.e)[k.j]
}
pub open spec fn ascending(ks: Seq<Key>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> kless(#[trigger] ks[i], #[trigger] ks[j]) }
pub open spec fn has(ks: Seq<Key>, s: ByteIndex, e: ByteIndex, j: int) -> bool { exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == (Key { s, e, j }) }
pub open spec fn part<T>(m: Map<ByteIndex, BMap<ByteIndex, Vec<T>>>, f: usize, l: Span, ks: Seq<Key>, v: Seq<Loc<&T>>) -> bool {
    ks.len() == v.len() && ascending(ks)
    && (forall|i: int| 0 <= i < v.len() ==> elem(m, f, #[trigger] ks[i], v[i]) && ks[i].s.0 <= l.start.0 && ks[i].e.0 >= l.end.0)
}
/// exactly the recorded things whose span contains the position, each once, with its span
pub open spec fn lookup<T>(m: LocMap<T>, l: Loc<()>, ks: Seq<Key>, v: Seq<Loc<&T>>) -> bool {
    ks.len() == v.len()
    && (forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j])
    && (forall|i: int| 0 <= i < v.len() ==> within(l.span, (#[trigger] v[i]).span) && v[i].file_id == l.file_id && v[i].span == span(ks[i].s, ks[i].e)
        && 0 <= ks[i].j < recorded(m, l.file_id, ks[i].s, ks[i].e).len() && *v[i].inner == recorded(m, l.file_id, ks[i].s, ks[i].e)[ks[i].j])
    && (forall|s: ByteIndex, e: ByteIndex, j: int| s.0 <= l.span.start.0 && e.0 >= l.span.end.0 && 0 <= j < (#[trigger] recorded(m, l.file_id, s, e)).len() ==> #[trigger] has(ks, s, e, j))
}
/*@ fn spade-common/src/loc_map.rs :: LocMap::new
assoc: yes
ensures: forall|f: usize, s: ByteIndex, e: ByteIndex| (#[trigger] recorded(r, f, s, e)).len() == 0
@*/
/*@ fn spade-common/src/loc_map.rs :: LocMap::insert
ensures:
  forall|f: usize, s: ByteIndex, e: ByteIndex| #[trigger] recorded(*final(self), f, s, e) =~= (if f == thing.file_id && s == thing.span.start && e == thing.span.end { recorded(*old(self), f, s, e).push(thing.inner) } else { recorded(*old(self), f, s, e) })
@*/
pub open spec fn done<T>(ks: Seq<Key>, m: Map<ByteIndex, BMap<ByteIndex, Vec<T>>>, l: Span, s: ByteIndex) -> bool {
    forall|e: ByteIndex, j: int| e.0 >= l.end.0 && 0 <= j < starts_at(m, s, e).len() ==> #[trigger] has(ks, s, e, j)
}
pub open spec fn hasall(ks: Seq<Key>, s: ByteIndex, e: ByteIndex, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] has(ks, s, e, j) }
pub proof fn lemma_push(ks: Seq<Key>, k: Key)
    ensures forall|s: ByteIndex, e: ByteIndex, j: int| has(ks, s, e, j) ==> #[trigger] has(ks.push(k), s, e, j), has(ks.push(k), k.s, k.e, k.j)
{
    assert(ks.push(k)[ks.len() as int] == k);
    assert forall|s: ByteIndex, e: ByteIndex, j: int| has(ks, s, e, j) implies #[trigger] has(ks.push(k), s, e, j) by {
        let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == (Key { s, e, j });
        assert(ks.push(k)[i] == Key { s, e, j });
    }
}
pub proof fn lemma_rev(ks: Seq<Key>)
    ensures forall|s: ByteIndex, e: ByteIndex, j: int| has(ks, s, e, j) ==> #[trigger] has(ks.reverse(), s, e, j)
{
    assert forall|s: ByteIndex, e: ByteIndex, j: int| has(ks, s, e, j) implies #[trigger] has(ks.reverse(), s, e, j) by {
        let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == (Key { s, e, j });
        assert(ks.reverse()[ks.len() - 1 - i] == Key { s, e, j });
    }
}
pub open spec fn fin<T>(m: LocMap<T>, l: Loc<()>, ks: Seq<Key>, v: Seq<Loc<&T>>) -> bool {
    m.inner@.dom().contains(l.file_id) && part(m.inner@[l.file_id]@, l.file_id, l.span, ks, v)
    && forall|s: ByteIndex| s.0 <= l.span.start.0 ==> #[trigger] done(ks, m.inner@[l.file_id]@, l.span, s)
}
pub proof fn lemma_fin<T>(m: LocMap<T>, l: Loc<()>, v: Seq<Loc<&T>>)
    requires exists|ks: Seq<Key>| #[trigger] fin(m, l, ks, v)
    ensures exists|ks: Seq<Key>| #[trigger] lookup(m, l, ks, v.reverse())
{
    let ks = choose|ks: Seq<Key>| #[trigger] fin(m, l, ks, v);
    lemma_rev(ks);
    let q = ks.reverse();
    assert forall|s: ByteIndex, e: ByteIndex, j: int| s.0 <= l.span.start.0 && e.0 >= l.span.end.0 && 0 <= j < (#[trigger] recorded(m, l.file_id, s, e)).len() implies #[trigger] has(q, s, e, j) by {
        assert(done(ks, m.inner@[l.file_id]@, l.span, s));
        assert(has(ks, s, e, j));
    }
    assert forall|i: int| 0 <= i < v.len() implies within(l.span, (#[trigger] v.reverse()[i]).span) && v.reverse()[i].file_id == l.file_id && v.reverse()[i].span == span(q[i].s, q[i].e)
        && 0 <= q[i].j < recorded(m, l.file_id, q[i].s, q[i].e).len() && *v.reverse()[i].inner == recorded(m, l.file_id, q[i].s, q[i].e)[q[i].j] by {
        assert(elem(m.inner@[l.file_id]@, l.file_id, ks[ks.len() - 1 - i], v[ks.len() - 1 - i]));
    }
    assert(lookup(m, l, q, v.reverse()));
}
/// reversing what was collected from the entries of the file
pub fn vrev_fin<'a, T>(m: &LocMap<T>, l: &Loc<()>, v: Vec<Loc<&'a T>>) -> (r: Vec<Loc<&'a T>>)
    requires exists|ks: Seq<Key>| #[trigger] fin(*m, *l, ks, v@)
    ensures exists|ks: Seq<Key>| #[trigger] lookup(*m, *l, ks, r@)
{ proof { lemma_fin(*m, *l, v@); } vrev(v) }
/*@ fn spade-common/src/loc_map.rs :: LocMap::around
rule: $o.map(|$p| $b).unwrap_or_default() ==> match $o { Some($p) => $b, None => Vec::new() }
rule: vrev($v) ==> vrev_fin(self, loc, $v)
requires: wf(loc.span)
ensures: exists|ks: Seq<Key>| #[trigger] lookup(*self, *loc, ks, r@)
entry:
  let ghost mut ks = Seq::<Key>::empty();
  let ghost m = self.inner@[loc.file_id]@;
  let ghost l = loc.span;
  let ghost f = loc.file_id;
  proof { if !self.inner@.dom().contains(f) { assert(lookup(*self, *loc, ks, Seq::<Loc<&T>>::empty())); } }
loop 0 inv:
  in_range(vs0@, m, 0, l.start.0 as int),
  part(m, f, l, ks, vacc0@),
  forall|i: int| 0 <= i < ks.len() ==> vi0 > 0 && (#[trigger] ks[i]).s.0 <= vs0@[vi0 - 1].0.0,
  forall|k: int| 0 <= k < vi0 ==> done(ks, m, l, *(#[trigger] vs0@[k]).0)
loop 1 inv:
  in_range(vs1@, ends@, l.end.0 as int, u32::MAX as int),
  part(m, f, l, ks, vacc0@),
  forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).s.0 < start.0 || (ks[i].s == *start && vi1 > 0 && ks[i].e.0 <= vs1@[vi1 - 1].0.0),
  forall|k: int| 0 <= k < vi0 - 1 ==> done(ks, m, l, *(#[trigger] vs0@[k]).0),
  forall|k: int| 0 <= k < vi1 ==> hasall(ks, *start, *(#[trigger] vs1@[k]).0, vs1@[k].1@.len() as int)
loop 2 inv:
  vs2@ == things@,
  part(m, f, l, ks, vacc0@),
  forall|i: int| 0 <= i < ks.len() ==> (#[trigger] ks[i]).s.0 < start.0 || (ks[i].s == *start && (ks[i].e.0 < end.0 || (ks[i].e == *end && ks[i].j < vi2))),
  forall|k: int| 0 <= k < vi0 - 1 ==> done(ks, m, l, *(#[trigger] vs0@[k]).0),
  forall|k: int| 0 <= k < vi1 - 1 ==> hasall(ks, *start, *(#[trigger] vs1@[k]).0, vs1@[k].1@.len() as int),
  hasall(ks, *start, *end, vi2 as int)
loop 2 start:
  let ghost ks0 = ks;
loop 2 end:
  proof {
    let k = Key { s: *start, e: *end, j: vi2 - 1 };
    lemma_push(ks0, k);
    ks = ks0.push(k);
    assert(elem(m, f, k, vacc0@[ks0.len() as int]));
    assert forall|k: int| 0 <= k < vi0 - 1 implies done(ks, m, l, *(#[trigger] vs0@[k]).0) by { assert(done(ks0, m, l, *vs0@[k].0)); }
  }
loop 1 after:
  proof {
    assert(done(ks, m, l, *start)) by {
      assert forall|e: ByteIndex, j: int| e.0 >= l.end.0 && 0 <= j < starts_at(m, *start, e).len() implies #[trigger] has(ks, *start, e, j) by {
        assert(ends@.dom().contains(e));
        let i = choose|i: int| 0 <= i < vs1@.len() && *(#[trigger] vs1@[i]).0 == e;
        assert(hasall(ks, *start, *vs1@[i].0, vs1@[i].1@.len() as int));
      }
    }
  }
loop 0 after:
  proof {
    assert forall|s: ByteIndex| s.0 <= l.start.0 implies #[trigger] done(ks, m, l, s) by {
      if m.dom().contains(s) { let i = choose|i: int| 0 <= i < vs0@.len() && *(#[trigger] vs0@[i]).0 == s; assert(done(ks, m, l, *vs0@[i].0)); }
    }
    assert(fin(*self, *loc, ks, vacc0@));
  }
@*/
}
fn main() {}
