//@include core.rs
/*@ rules
rule: $x.clone() ==> $x.vclone()
rule: type_exprs_overlap($a, $b) ==> exprs_overlap($a.ve(), $b.ve())
rule: type_specs_overlap($a, $b) ==> specs_overlap($a.vs(), $b.vs())
macro: unreachable ==> vdiverge::<bool>()
type: String ==> VStr
type: HashMap ==> VM<@0, @1>
rule: $m.entry($k).or_default() ==> $m.entry_or($k)
rule: trait_impls.iter() ==> trait_impls.vitems().iter()
rule: $o.map(|a| $b).unwrap_or_default() ==> match $o { Some(a) => $b, None => Vec::new() }
rule: Err($e) ==> Err(vdiag())
droplet: path
@*/
verus! {
broadcast use {group_num};
#[verifier::external_body] pub struct Diagnostic { x: u64 }
#[verifier::external_body] pub fn vdiag() -> (r: Diagnostic) { unimplemented!() }
#[verifier::external_body] pub struct ConstGeneric { x: u64 }
#[verifier::external_body] pub struct Generic { x: u64 }
#[verifier::external_body] pub struct ImplBlock { x: u64 }
/// a string, up to an injective coding
#[derive(PartialEq, Eq, Structural)]
pub struct VStr(pub u64);
/// values are compared up to source locations (Loc's PartialEq, Eq and Hash ignore the location: trusted), names by their number (NameID's too)
#[derive(PartialEq, Eq, Structural)]
pub struct Loc<T> { pub inner: T }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct NameID(pub u64);
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct ImplID(pub u64);
#[verifier::external_body] pub struct Path { x: u64 }
/*@ type spade-hir/src/lib.rs :: TypeExpression @*/
/*@ type spade-hir/src/lib.rs :: TypeSpec @*/
pub trait VE { spec fn se(&self) -> TypeExpression; fn ve(&self) -> (r: &TypeExpression) ensures *r == self.se(); }
impl VE for TypeExpression { open spec fn se(&self) -> TypeExpression { *self } fn ve(&self) -> (r: &TypeExpression) { self } }
impl VE for Loc<TypeExpression> { open spec fn se(&self) -> TypeExpression { self.inner } fn ve(&self) -> (r: &TypeExpression) { &self.inner } }
pub trait VS { spec fn ss(&self) -> TypeSpec; fn vs(&self) -> (r: &TypeSpec) ensures *r == self.ss(); }
impl VS for TypeSpec { open spec fn ss(&self) -> TypeSpec { *self } fn vs(&self) -> (r: &TypeSpec) { self } }
impl VS for Loc<TypeSpec> { open spec fn ss(&self) -> TypeSpec { self.inner } fn vs(&self) -> (r: &TypeSpec) { &self.inner } }
// ---------------------------------------------------------------- concrete types and what an implementation header matches
pub enum CT { Decl(u64, Seq<CE>), Tup(Seq<CT>), Arr(Box<CT>, CE), Inv(Box<CT>), Cpy(Box<CT>) }
pub enum CE { Bo(bool), In(int), St(VStr), Ty(Box<CT>) }
/// the concrete type c is an instance of s (every occurrence of a parameter may be anything)
pub open spec fn is_s(s: TypeSpec, c: CT) -> bool decreases s {
    match s {
        TypeSpec::Generic(_) => true,
        TypeSpec::Declared(n, p) => c matches CT::Decl(m, a) && m == n.inner.0 && a.len() == p@.len() && forall|i: int| 0 <= i < p@.len() ==> is_e((#[trigger] p@[i]).inner, a[i]),
        TypeSpec::Tuple(p) => c matches CT::Tup(a) && a.len() == p@.len() && forall|i: int| 0 <= i < p@.len() ==> is_s((#[trigger] p@[i]).inner, a[i]),
        TypeSpec::Array { inner, size } => c matches CT::Arr(a, n) && is_s((*inner).inner, *a) && is_e((*size).inner, n),
        TypeSpec::Inverted(x) => c matches CT::Inv(a) && is_s((*x).inner, *a),
        TypeSpec::CopyView(x) => c matches CT::Cpy(a) && is_s((*x).inner, *a),
        TypeSpec::TraitSelf(_) | TypeSpec::Wildcard(_) => false,
    }
}
pub open spec fn is_e(e: TypeExpression, c: CE) -> bool decreases e {
    match e {
        TypeExpression::Bool(b) => c == CE::Bo(b),
        TypeExpression::Integer(v) => c == CE::In(v@),
        TypeExpression::String(s) => c == CE::St(s),
        TypeExpression::TypeSpec(s) => s is Generic || (c matches CE::Ty(t) && is_s(s, *t)),
        TypeExpression::ConstGeneric(_) => false,
    }
}
pub enum Kind { Type, Value }
pub uninterp spec fn arity(n: u64) -> nat;
pub uninterp spec fn kind(n: u64, i: int) -> Kind;
/// what earlier stages guarantee: a declared type has as many arguments as parameters, and each is of the parameter's kind
pub open spec fn wf_s(s: TypeSpec) -> bool decreases s {
    match s {
        TypeSpec::Generic(_) => true,
        TypeSpec::Declared(n, p) => p@.len() == arity(n.inner.0) && forall|i: int| 0 <= i < p@.len() ==> wf_e((#[trigger] p@[i]).inner, kind(n.inner.0, i)),
        TypeSpec::Tuple(p) => forall|i: int| 0 <= i < p@.len() ==> wf_s((#[trigger] p@[i]).inner),
        TypeSpec::Array { inner, size } => wf_s((*inner).inner) && wf_e((*size).inner, Kind::Value),
        TypeSpec::Inverted(x) => wf_s((*x).inner),
        TypeSpec::CopyView(x) => wf_s((*x).inner),
        TypeSpec::TraitSelf(_) | TypeSpec::Wildcard(_) => false,
    }
}
pub open spec fn wf_e(e: TypeExpression, k: Kind) -> bool decreases e {
    match e { TypeExpression::TypeSpec(s) => s is Generic || (k is Type && wf_s(s)), TypeExpression::ConstGeneric(_) => false, _ => k is Value }
}
/// some instance of s
pub open spec fn some_s(s: TypeSpec) -> CT decreases s {
    match s {
        TypeSpec::Declared(n, p) => CT::Decl(n.inner.0, Seq::new(p@.len(), |i: int| if 0 <= i < p@.len() { some_e(p@[i].inner) } else { CE::Bo(true) })),
        TypeSpec::Tuple(p) => CT::Tup(Seq::new(p@.len(), |i: int| if 0 <= i < p@.len() { some_s(p@[i].inner) } else { CT::Tup(seq![]) })),
        TypeSpec::Array { inner, size } => CT::Arr(Box::new(some_s((*inner).inner)), some_e((*size).inner)),
        TypeSpec::Inverted(x) => CT::Inv(Box::new(some_s((*x).inner))),
        TypeSpec::CopyView(x) => CT::Cpy(Box::new(some_s((*x).inner))),
        _ => CT::Tup(seq![]),
    }
}
pub open spec fn some_e(e: TypeExpression) -> CE decreases e {
    match e { TypeExpression::Bool(b) => CE::Bo(b), TypeExpression::Integer(v) => CE::In(v@), TypeExpression::String(s) => CE::St(s), TypeExpression::TypeSpec(s) => CE::Ty(Box::new(some_s(s))), _ => CE::Bo(true) }
}
/// an instance of both, when there is one
pub open spec fn both_s(l: TypeSpec, r: TypeSpec) -> CT decreases l {
    match (l, r) {
        (TypeSpec::Generic(_), _) => some_s(r),
        (_, TypeSpec::Generic(_)) => some_s(l),
        (TypeSpec::Declared(n, p), TypeSpec::Declared(_, q)) => CT::Decl(n.inner.0, Seq::new(p@.len(), |i: int| if 0 <= i < p@.len() { both_e(p@[i].inner, q@[i].inner) } else { CE::Bo(true) })),
        (TypeSpec::Tuple(p), TypeSpec::Tuple(q)) => CT::Tup(Seq::new(p@.len(), |i: int| if 0 <= i < p@.len() { both_s(p@[i].inner, q@[i].inner) } else { CT::Tup(seq![]) })),
        (TypeSpec::Array { inner: a, size: m }, TypeSpec::Array { inner: b, size: n }) => CT::Arr(Box::new(both_s((*a).inner, (*b).inner)), both_e((*m).inner, (*n).inner)),
        (TypeSpec::Inverted(a), TypeSpec::Inverted(b)) => CT::Inv(Box::new(both_s((*a).inner, (*b).inner))),
        (TypeSpec::CopyView(a), TypeSpec::CopyView(b)) => CT::Cpy(Box::new(both_s((*a).inner, (*b).inner))),
        _ => CT::Tup(seq![]),
    }
}
pub open spec fn both_e(l: TypeExpression, r: TypeExpression) -> CE decreases l {
    match (l, r) {
        (TypeExpression::TypeSpec(a), TypeExpression::TypeSpec(b)) => CE::Ty(Box::new(both_s(a, b))),
        (TypeExpression::TypeSpec(_), _) => some_e(r),
        _ => some_e(l),
    }
}
pub proof fn lemma_some_s(s: TypeSpec) requires wf_s(s) ensures is_s(s, some_s(s)) decreases s {
    match s {
        TypeSpec::Declared(n, p) => { assert forall|i: int| 0 <= i < p@.len() implies is_e((#[trigger] p@[i]).inner, some_e(p@[i].inner)) by { lemma_some_e(p@[i].inner, kind(n.inner.0, i)); } }
        TypeSpec::Tuple(p) => { assert forall|i: int| 0 <= i < p@.len() implies is_s((#[trigger] p@[i]).inner, some_s(p@[i].inner)) by { lemma_some_s(p@[i].inner); } }
        TypeSpec::Array { inner, size } => { lemma_some_s((*inner).inner); lemma_some_e((*size).inner, Kind::Value); }
        TypeSpec::Inverted(x) => lemma_some_s((*x).inner),
        TypeSpec::CopyView(x) => lemma_some_s((*x).inner),
        _ => {}
    }
}
pub proof fn lemma_some_e(e: TypeExpression, k: Kind) requires wf_e(e, k) ensures is_e(e, some_e(e)) decreases e {
    match e { TypeExpression::TypeSpec(s) => if !(s is Generic) { lemma_some_s(s) }, _ => {} }
}
pub open spec fn share_s(l: TypeSpec, r: TypeSpec) -> bool { exists|c: CT| #[trigger] is_s(l, c) && is_s(r, c) }
pub open spec fn share_e(l: TypeExpression, r: TypeExpression) -> bool { exists|c: CE| #[trigger] is_e(l, c) && is_e(r, c) }
/// a verdict about two headers: right about every concrete type, and when it says yes there is one
pub open spec fn right_s(l: TypeSpec, r: TypeSpec, v: bool) -> bool {
    &&& !v ==> forall|c: CT| !(#[trigger] is_s(l, c) && is_s(r, c))
    &&& v && wf_s(l) && wf_s(r) ==> is_s(l, both_s(l, r)) && is_s(r, both_s(l, r))
}
pub open spec fn right_e(l: TypeExpression, r: TypeExpression, v: bool) -> bool {
    &&& !v ==> forall|c: CE| !(#[trigger] is_e(l, c) && is_e(r, c))
    &&& forall|k: Kind| v && #[trigger] wf_e(l, k) && wf_e(r, k) ==> is_e(l, both_e(l, r)) && is_e(r, both_e(l, r))
}
/// the verdict, case by case (right by lemma_right_s)
pub open spec fn ov_s(l: TypeSpec, r: TypeSpec) -> bool decreases l {
    match (l, r) {
        (TypeSpec::Generic(_), _) => true,
        (_, TypeSpec::Generic(_)) => true,
        (TypeSpec::Declared(n, p), TypeSpec::Declared(m, q)) => n.inner.0 == m.inner.0 && forall|i: int| 0 <= i < p@.len() && i < q@.len() ==> ov_e((#[trigger] p@[i]).inner, q@[i].inner),
        (TypeSpec::Tuple(p), TypeSpec::Tuple(q)) => p@.len() == q@.len() && forall|i: int| 0 <= i < p@.len() ==> ov_s((#[trigger] p@[i]).inner, q@[i].inner),
        (TypeSpec::Array { inner: a, size: m }, TypeSpec::Array { inner: b, size: n }) => ov_s((*a).inner, (*b).inner) && ov_e((*m).inner, (*n).inner),
        (TypeSpec::Inverted(a), TypeSpec::Inverted(b)) => ov_s((*a).inner, (*b).inner),
        (TypeSpec::CopyView(a), TypeSpec::CopyView(b)) => ov_s((*a).inner, (*b).inner),
        _ => false,
    }
}
pub open spec fn ov_e(l: TypeExpression, r: TypeExpression) -> bool decreases l {
    match (l, r) {
        (TypeExpression::TypeSpec(a), TypeExpression::TypeSpec(b)) => ov_s(a, b),
        (TypeExpression::TypeSpec(_), _) => true,
        (_, TypeExpression::TypeSpec(_)) => true,
        (TypeExpression::Bool(a), TypeExpression::Bool(b)) => a == b,
        (TypeExpression::Integer(a), TypeExpression::Integer(b)) => a@ == b@,
        (TypeExpression::String(a), TypeExpression::String(b)) => a == b,
        _ => false,
    }
}
pub proof fn lemma_no_s(l: TypeSpec, r: TypeSpec, c: CT) requires is_s(l, c), is_s(r, c) ensures ov_s(l, r) decreases l {
    match (l, r) {
        (TypeSpec::Generic(_), _) => {}
        (_, TypeSpec::Generic(_)) => {}
        (TypeSpec::Declared(n, p), TypeSpec::Declared(m, q)) => { let a = c->Decl_1; assert forall|i: int| 0 <= i < p@.len() && i < q@.len() implies ov_e((#[trigger] p@[i]).inner, q@[i].inner) by { assert(is_e(q@[i].inner, a[i])); lemma_no_e(p@[i].inner, q@[i].inner, a[i]); } }
        (TypeSpec::Tuple(p), TypeSpec::Tuple(q)) => { let a = c->Tup_0; assert forall|i: int| 0 <= i < p@.len() implies ov_s((#[trigger] p@[i]).inner, q@[i].inner) by { assert(is_s(q@[i].inner, a[i])); lemma_no_s(p@[i].inner, q@[i].inner, a[i]); } }
        (TypeSpec::Array { inner: a, size: m }, TypeSpec::Array { inner: b, size: n }) => { lemma_no_s((*a).inner, (*b).inner, *c->Arr_0); lemma_no_e((*m).inner, (*n).inner, c->Arr_1); }
        (TypeSpec::Inverted(a), TypeSpec::Inverted(b)) => lemma_no_s((*a).inner, (*b).inner, *c->Inv_0),
        (TypeSpec::CopyView(a), TypeSpec::CopyView(b)) => lemma_no_s((*a).inner, (*b).inner, *c->Cpy_0),
        _ => {}
    }
}
pub proof fn lemma_no_e(l: TypeExpression, r: TypeExpression, c: CE) requires is_e(l, c), is_e(r, c) ensures ov_e(l, r) decreases l {
    match (l, r) {
        (TypeExpression::TypeSpec(a), TypeExpression::TypeSpec(b)) => if !(a is Generic) && !(b is Generic) { lemma_no_s(a, b, *c->Ty_0); },
        _ => {}
    }
}
pub proof fn lemma_yes_s(l: TypeSpec, r: TypeSpec) requires ov_s(l, r), wf_s(l), wf_s(r) ensures is_s(l, both_s(l, r)), is_s(r, both_s(l, r)) decreases l {
    match (l, r) {
        (TypeSpec::Generic(_), _) => lemma_some_s(r),
        (_, TypeSpec::Generic(_)) => lemma_some_s(l),
        (TypeSpec::Declared(n, p), TypeSpec::Declared(m, q)) => {
            let c = both_s(l, r)->Decl_1;
            assert forall|i: int| 0 <= i < p@.len() implies is_e((#[trigger] p@[i]).inner, c[i]) && is_e(q@[i].inner, c[i]) by { assert(wf_e(q@[i].inner, kind(m.inner.0, i))); lemma_yes_e(p@[i].inner, q@[i].inner, kind(n.inner.0, i)); }
            assert forall|i: int| 0 <= i < q@.len() implies is_e((#[trigger] q@[i]).inner, c[i]) by { assert(is_e(p@[i].inner, c[i])); }
        }
        (TypeSpec::Tuple(p), TypeSpec::Tuple(q)) => {
            let c = both_s(l, r)->Tup_0;
            assert forall|i: int| 0 <= i < p@.len() implies is_s((#[trigger] p@[i]).inner, c[i]) && is_s(q@[i].inner, c[i]) by { assert(wf_s(q@[i].inner)); lemma_yes_s(p@[i].inner, q@[i].inner); }
            assert forall|i: int| 0 <= i < q@.len() implies is_s((#[trigger] q@[i]).inner, c[i]) by { assert(is_s(p@[i].inner, c[i])); }
        }
        (TypeSpec::Array { inner: a, size: m }, TypeSpec::Array { inner: b, size: n }) => { lemma_yes_s((*a).inner, (*b).inner); lemma_yes_e((*m).inner, (*n).inner, Kind::Value); }
        (TypeSpec::Inverted(a), TypeSpec::Inverted(b)) => lemma_yes_s((*a).inner, (*b).inner),
        (TypeSpec::CopyView(a), TypeSpec::CopyView(b)) => lemma_yes_s((*a).inner, (*b).inner),
        _ => {}
    }
}
pub proof fn lemma_yes_e(l: TypeExpression, r: TypeExpression, k: Kind) requires ov_e(l, r), wf_e(l, k), wf_e(r, k) ensures is_e(l, both_e(l, r)), is_e(r, both_e(l, r)) decreases l {
    match (l, r) {
        (TypeExpression::TypeSpec(a), TypeExpression::TypeSpec(b)) => {
            if !(a is Generic) && !(b is Generic) { lemma_yes_s(a, b); }
            else if !(b is Generic) { lemma_some_s(b); } else if !(a is Generic) { lemma_some_s(a); }
        }
        _ => { lemma_some_if(l, k); lemma_some_if(r, k); }
    }
}
pub proof fn lemma_some_if(e: TypeExpression, k: Kind) requires wf_e(e, k) ensures is_e(e, some_e(e)) { lemma_some_e(e, k); }
pub proof fn lemma_right_s(l: TypeSpec, r: TypeSpec) ensures right_s(l, r, ov_s(l, r)) {
    assert forall|c: CT| is_s(l, c) && is_s(r, c) implies ov_s(l, r) by { lemma_no_s(l, r, c); }
    if ov_s(l, r) && wf_s(l) && wf_s(r) { lemma_yes_s(l, r); }
}
pub proof fn lemma_right_e(l: TypeExpression, r: TypeExpression) ensures right_e(l, r, ov_e(l, r)) {
    assert forall|c: CE| is_e(l, c) && is_e(r, c) implies ov_e(l, r) by { lemma_no_e(l, r, c); }
    assert forall|k: Kind| ov_e(l, r) && #[trigger] wf_e(l, k) && wf_e(r, k) implies is_e(l, both_e(l, r)) && is_e(r, both_e(l, r)) by { lemma_yes_e(l, r, k); }
}
/*@ fn spade-hir/src/impl_tab.rs :: type_specs_overlap as specs_overlap
ret: vr
ensures: right_s(*l, *r, vr), vr == ov_s(*l, *r)
decreases: l
entry:
  proof { lemma_right_s(*l, *r); }
loop 0 inv:
  vacc0 ==> forall|j: int| 0 <= j < vi0 ==> ov_e((#[trigger] lparams@[j]).inner, rparams@[j].inner),
  !vacc0 ==> vi0 > 0 && !ov_e(lparams@[vi0 - 1].inner, rparams@[vi0 - 1].inner)
loop 1 inv:
  vacc1 ==> forall|j: int| 0 <= j < vi1 ==> ov_s((#[trigger] linner@[j]).inner, rinner@[j].inner),
  !vacc1 ==> vi1 > 0 && !ov_s(linner@[vi1 - 1].inner, rinner@[vi1 - 1].inner)
@*/
/*@ fn spade-hir/src/impl_tab.rs :: type_exprs_overlap as exprs_overlap
ret: vr
ensures: right_e(*l, *r, vr), vr == ov_e(*l, *r)
decreases: l
entry:
  proof { lemma_right_e(*l, *r); }
@*/
// ---------------------------------------------------------------- instantiation
/// the header with concrete arguments for its parameters
pub open spec fn sub_s(f: spec_fn(Generic) -> CE, s: TypeSpec) -> CT decreases s {
    match s {
        TypeSpec::Generic(g) => *(f(g)->Ty_0),
        TypeSpec::Declared(n, p) => CT::Decl(n.inner.0, Seq::new(p@.len(), |i: int| if 0 <= i < p@.len() { sub_e(f, p@[i].inner) } else { CE::Bo(true) })),
        TypeSpec::Tuple(p) => CT::Tup(Seq::new(p@.len(), |i: int| if 0 <= i < p@.len() { sub_s(f, p@[i].inner) } else { CT::Tup(seq![]) })),
        TypeSpec::Array { inner, size } => CT::Arr(Box::new(sub_s(f, (*inner).inner)), sub_e(f, (*size).inner)),
        TypeSpec::Inverted(x) => CT::Inv(Box::new(sub_s(f, (*x).inner))),
        TypeSpec::CopyView(x) => CT::Cpy(Box::new(sub_s(f, (*x).inner))),
        _ => CT::Tup(seq![]),
    }
}
pub open spec fn sub_e(f: spec_fn(Generic) -> CE, e: TypeExpression) -> CE decreases e {
    match e { TypeExpression::Bool(b) => CE::Bo(b), TypeExpression::Integer(v) => CE::In(v@), TypeExpression::String(s) => CE::St(s),
        TypeExpression::TypeSpec(s) => match s { TypeSpec::Generic(g) => f(g), _ => CE::Ty(Box::new(sub_s(f, s))) }, _ => CE::Bo(true) }
}
pub proof fn lemma_sub_s(f: spec_fn(Generic) -> CE, s: TypeSpec) requires wf_s(s) ensures is_s(s, sub_s(f, s)) decreases s {
    match s {
        TypeSpec::Declared(n, p) => { assert forall|i: int| 0 <= i < p@.len() implies is_e((#[trigger] p@[i]).inner, sub_e(f, p@[i].inner)) by { lemma_sub_e(f, p@[i].inner, kind(n.inner.0, i)); } }
        TypeSpec::Tuple(p) => { assert forall|i: int| 0 <= i < p@.len() implies is_s((#[trigger] p@[i]).inner, sub_s(f, p@[i].inner)) by { lemma_sub_s(f, p@[i].inner); } }
        TypeSpec::Array { inner, size } => { lemma_sub_s(f, (*inner).inner); lemma_sub_e(f, (*size).inner, Kind::Value); }
        TypeSpec::Inverted(x) => lemma_sub_s(f, (*x).inner),
        TypeSpec::CopyView(x) => lemma_sub_s(f, (*x).inner),
        _ => {}
    }
}
pub proof fn lemma_sub_e(f: spec_fn(Generic) -> CE, e: TypeExpression, k: Kind) requires wf_e(e, k) ensures is_e(e, sub_e(f, e)) decreases e {
    match e { TypeExpression::TypeSpec(s) => if !(s is Generic) { lemma_sub_s(f, s) }, _ => {} }
}
/// headers that do not overlap stay different whatever their parameters become
pub proof fn lemma_never(l: TypeSpec, r: TypeSpec, f: spec_fn(Generic) -> CE, g: spec_fn(Generic) -> CE)
    requires wf_s(l), wf_s(r), !ov_s(l, r) ensures sub_s(f, l) != sub_s(g, r)
{ lemma_sub_s(f, l); lemma_sub_s(g, r); if sub_s(f, l) == sub_s(g, r) { lemma_no_s(l, r, sub_s(f, l)); } }
pub open spec fn targs(t: TraitSpec) -> Args { match t.type_params { Some(p) => p.inner@.map_values(|e: Loc<TypeExpression>| e.inner), None => Seq::empty() } }
// ---------------------------------------------------------------- the table
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct VM<K, V> { x: Vec<(K, V)> }
impl<K: View, V> View for VM<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
pub trait VNil { spec fn nil(&self) -> bool; }
impl<K: View, V> VNil for VM<K, V> { open spec fn nil(&self) -> bool { self@ == Map::<K::V, V>::empty() } }
impl<T> VNil for Vec<T> { open spec fn nil(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<K: View, V: VNil> VM<K, V> {
    #[verifier::external_body]
    pub fn entry_or<'a>(&'a mut self, k: K) -> (r: &'a mut V)
        ensures old(self)@.dom().contains(k@) ==> *r == old(self)@[k@], !old(self)@.dom().contains(k@) ==> r.nil(), final(self)@ == old(self)@.insert(k@, *final(r)) { unimplemented!() }
    /// the entries, in some order
    #[verifier::external_body]
    pub fn vitems<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((*(#[trigger] r@[i]).0)@) && self@[(*r@[i].0)@] == *r@[i].1,
            forall|k: K::V| self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (*(#[trigger] r@[i]).0)@ == k { unimplemented!() }
}
pub enum TN { Named(u64), Anonymous(u64) }
/*@ type spade-hir/src/lib.rs :: TraitName @*/
/*@ type spade-hir/src/lib.rs :: TraitSpec @*/
/*@ type spade-hir/src/lib.rs :: ImplTarget @*/
/// a trait's name is its number (TraitName's PartialEq and Hash go through StrippedTraitName: trusted)
impl View for TraitName { type V = TN; open spec fn view(&self) -> TN { match self { TraitName::Named(_, n) => TN::Named(n.inner.0), TraitName::Anonymous(i) => TN::Anonymous(i.0) } } }
impl View for ImplTarget { type V = ImplTarget; open spec fn view(&self) -> ImplTarget { *self } }
pub type TargetArgs = Vec<TypeExpression>;
pub type TraitArgs = Vec<TypeExpression>;
pub type ConcreteImpls = VM<TargetArgs, Vec<(TraitArgs, Loc<ImplBlock>)>>;
pub type ImplementedTraits = VM<TraitName, ConcreteImpls>;
/*@ type spade-hir/src/impl_tab.rs :: ImplTab @*/
pub type Args = Seq<TypeExpression>;
/// an implementation with these arguments is in the table
pub open spec fn has(t: ImplTab, g: ImplTarget, n: TN, a: Args, b: Args) -> bool {
    t.inner@.dom().contains(g) && t.inner@[g]@.dom().contains(n) && t.inner@[g]@[n]@.dom().contains(a) && listed(t.inner@[g]@[n]@[a], b)
}
pub open spec fn listed(v: Vec<(TraitArgs, Loc<ImplBlock>)>, b: Args) -> bool { exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0@ == b }
/// concrete arguments select an implementation with arguments a
pub open spec fn hits(a: Args, c: Seq<CE>) -> bool { a.len() == c.len() && forall|i: int| 0 <= i < a.len() ==> is_e(#[trigger] a[i], c[i]) }
/// some concrete target and trait arguments select both
pub open spec fn collide(a: Args, b: Args, x: Args, y: Args) -> bool { exists|c: Seq<CE>, d: Seq<CE>| #[trigger] hits(a, c) && #[trigger] hits(b, d) && hits(x, c) && hits(y, d) }
pub open spec fn ov_all(a: Args, x: Args) -> bool { forall|i: int| 0 <= i < a.len() && i < x.len() ==> ov_e(#[trigger] a[i], x[i]) }
pub open spec fn wf_all(a: Args, k: spec_fn(int) -> Kind) -> bool { forall|i: int| 0 <= i < a.len() ==> wf_e(#[trigger] a[i], k(i)) }
pub proof fn lemma_collide(a: Args, b: Args, x: Args, y: Args)
    requires !(a.len() == x.len() && ov_all(a, x)) || !ov_all(b, y) ensures !collide(a, b, x, y)
{
    assert forall|c: Seq<CE>, d: Seq<CE>| !(#[trigger] hits(a, c) && #[trigger] hits(b, d) && hits(x, c) && hits(y, d)) by {
        if hits(a, c) && hits(b, d) && hits(x, c) && hits(y, d) {
            assert forall|i: int| 0 <= i < a.len() && i < x.len() implies ov_e(#[trigger] a[i], x[i]) by { assert(is_e(x[i], c[i])); lemma_no_e(a[i], x[i], c[i]); }
            assert forall|i: int| 0 <= i < b.len() && i < y.len() implies ov_e(#[trigger] b[i], y[i]) by { assert(is_e(y[i], d[i])); lemma_no_e(b[i], y[i], d[i]); }
        }
    }
}
pub proof fn lemma_meet(a: Args, x: Args, k: spec_fn(int) -> Kind) -> (c: Seq<CE>)
    requires a.len() == x.len(), ov_all(a, x), wf_all(a, k), wf_all(x, k) ensures hits(a, c), hits(x, c)
{
    let c = Seq::new(a.len(), |i: int| both_e(a[i], x[i]));
    assert forall|i: int| 0 <= i < a.len() implies is_e(#[trigger] a[i], c[i]) by { assert(wf_e(x[i], k(i))); lemma_yes_e(a[i], x[i], k(i)); }
    assert forall|i: int| 0 <= i < x.len() implies is_e(#[trigger] x[i], c[i]) by { assert(wf_e(a[i], k(i))); lemma_yes_e(a[i], x[i], k(i)); }
    c
}
pub type CM = Map<Args, Vec<(TraitArgs, Loc<ImplBlock>)>>;
/// the pairwise verdict insert is to take: x, y are the arguments of an implementation in the table, a, b those of the new one
pub open spec fn meets(x: Args, y: Args, a: Args, b: Args) -> bool { x.len() == a.len() && ov_all(x, a) && ov_all(y, b) }
pub open spec fn held(m: CM, x: Args, y: Args) -> bool { m.dom().contains(x) && listed(m[x], y) }
pub open spec fn clash(m: CM, a: Args, b: Args) -> bool { exists|x: Args, y: Args| #[trigger] held(m, x, y) && meets(x, y, a, b) }
pub open spec fn row(v: Vec<(TraitArgs, Loc<ImplBlock>)>, x: Args, a: Args, b: Args, n: int) -> bool { forall|i: int| 0 <= i < n && i < v@.len() ==> !meets(x, (#[trigger] v@[i]).0@, a, b) }
/// what the table holds under a target and a trait
pub open spec fn under(t: ImplTab, g: ImplTarget, n: TN) -> CM { if t.inner@.dom().contains(g) && t.inner@[g]@.dom().contains(n) { t.inner@[g]@[n]@ } else { Map::empty() } }
/// position i under the target arguments x
pub open spec fn at(m: CM, x: Args, i: int) -> bool { m.dom().contains(x) && 0 <= i < m[x]@.len() }
/// no concrete arguments select two different implementations
pub open spec fn unambiguous(m: CM) -> bool {
    forall|x: Args, i: int, y: Args, j: int| #[trigger] at(m, x, i) && #[trigger] at(m, y, j) && !(x == y && i == j) ==> !collide(x, m[x]@[i].0@, y, m[y]@[j].0@)
}
pub proof fn lemma_step(m: CM, f: CM, a: Args, b: Args, o: Vec<(TraitArgs, Loc<ImplBlock>)>, v: Vec<(TraitArgs, Loc<ImplBlock>)>, e: (TraitArgs, Loc<ImplBlock>))
    requires !clash(m, a, b), m.dom().contains(a) ==> o == m[a], !m.dom().contains(a) ==> o@.len() == 0, v@ == o@.push(e), e.0@ == b, f == m.insert(a, v)
    ensures forall|x: Args, y: Args| #[trigger] held(m, x, y) ==> !collide(x, y, a, b),
        forall|x: Args, y: Args| #[trigger] held(f, x, y) <==> held(m, x, y) || (x == a && y == b),
        unambiguous(m) ==> unambiguous(f)
{
    assert forall|x: Args, y: Args| #[trigger] held(m, x, y) implies !collide(x, y, a, b) by { assert(!meets(x, y, a, b)); lemma_collide(x, y, a, b); }
    assert forall|x: Args, y: Args| #[trigger] held(f, x, y) <==> held(m, x, y) || (x == a && y == b) by {
        if held(f, x, y) && x == a { let i = choose|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0@ == y; if i < o@.len() { assert(o@[i].0@ == y); } }
        if held(m, x, y) && x == a { let i = choose|i: int| 0 <= i < o@.len() && (#[trigger] o@[i]).0@ == y; assert(v@[i].0@ == y); }
        if x == a && y == b { assert(v@[o@.len() as int].0@ == y); }
    }
    if unambiguous(m) {
        assert forall|x: Args, i: int, y: Args, j: int| #[trigger] at(f, x, i) && #[trigger] at(f, y, j) && !(x == y && i == j) implies !collide(x, f[x]@[i].0@, y, f[y]@[j].0@) by {
            let nx = x == a && i == o@.len(); let ny = y == a && j == o@.len();
            if !nx { assert(at(m, x, i)); assert(f[x]@[i] == m[x]@[i]); assert(listed(m[x], m[x]@[i].0@)); assert(held(m, x, m[x]@[i].0@)); }
            if !ny { assert(at(m, y, j)); assert(f[y]@[j] == m[y]@[j]); assert(listed(m[y], m[y]@[j].0@)); assert(held(m, y, m[y]@[j].0@)); }
            if nx && !ny { lemma_swap(y, f[y]@[j].0@, x, f[x]@[i].0@); }
        }
    }
}
pub proof fn lemma_swap(a: Args, b: Args, x: Args, y: Args) requires !collide(a, b, x, y) ensures !collide(x, y, a, b)
{ assert forall|c: Seq<CE>, d: Seq<CE>| !(#[trigger] hits(x, c) && #[trigger] hits(y, d) && hits(a, c) && hits(b, d)) by { if hits(x, c) && hits(y, d) && hits(a, c) && hits(b, d) { assert(hits(a, c) && hits(b, d)); } } }
/// a rejection is justified: with well-formed headers some concrete arguments select both
pub proof fn lemma_reject(m: CM, a: Args, b: Args, k: spec_fn(int) -> Kind, l: spec_fn(int) -> Kind)
    requires clash(m, a, b), wf_all(a, k), wf_all(b, l), forall|x: Args, y: Args| #[trigger] held(m, x, y) ==> wf_all(x, k) && wf_all(y, l) && y.len() == b.len()
    ensures exists|x: Args, y: Args| #[trigger] held(m, x, y) && collide(x, y, a, b)
{
    let (x, y) = choose|x: Args, y: Args| #[trigger] held(m, x, y) && meets(x, y, a, b);
    let c = lemma_meet(x, a, k); let d = lemma_meet(y, b, l);
    assert(hits(x, c) && hits(y, d) && hits(a, c) && hits(b, d));
}
/*@ fn spade-hir/src/impl_tab.rs :: ImplTab::insert
impl: impl ImplTab
ret: vr
ensures:
  vr is Ok <==> !clash(under(*old(self), target, trait_spec.name@), target_args@, targs(trait_spec)),
  vr is Ok ==> forall|x: Args, y: Args| #[trigger] held(under(*old(self), target, trait_spec.name@), x, y) ==> !collide(x, y, target_args@, targs(trait_spec)),
  vr is Ok ==> forall|x: Args, y: Args| #[trigger] held(under(*final(self), target, trait_spec.name@), x, y) <==> held(under(*old(self), target, trait_spec.name@), x, y) || (x == target_args@ && y == targs(trait_spec)),
  vr is Err ==> under(*final(self), target, trait_spec.name@) == under(*old(self), target, trait_spec.name@),
  unambiguous(under(*old(self), target, trait_spec.name@)) ==> unambiguous(under(*final(self), target, trait_spec.name@)),
  forall|g: ImplTarget, n: TN| !(g == target && n == trait_spec.name@) ==> #[trigger] under(*final(self), g, n) == under(*old(self), g, n)
loop 0 inv:
  forall|j: int| 0 <= j < vi0 ==> (#[trigger] vacc0@[j]) == vs0@[j].inner,
  vacc0@.len() == vi0
after-let trait_impls:
  let ghost m0 = trait_impls@;
  proof { assert(m0 == under(*old(self), target, trait_spec.name@)); }
after-let trait_args:
  let ghost a = target_args@;
  let ghost b = trait_args@;
  proof { assert(b =~= targs(trait_spec)); }
loop 1 inv:
  trait_impls@ == m0,
  vacc1 is None ==> forall|j: int| 0 <= j < vi1 ==> row(*(#[trigger] vs1@[j]).1, (*vs1@[j].0)@, a, b, (*vs1@[j].1)@.len() as int),
  vacc1 is Some ==> clash(m0, a, b)
loop 2 inv:
  vacc2 ==> forall|j: int| 0 <= j < vi2 ==> ov_e(#[trigger] vs2@[j], a[j]),
  !vacc2 ==> vi2 > 0 && !ov_e(vs2@[vi2 - 1], a[vi2 - 1])
loop 3 inv:
  vacc1 is None ==> row(*vs1@[vi1 - 1].1, (*vs1@[vi1 - 1].0)@, a, b, vi3 as int),
  vacc1 is Some ==> clash(m0, a, b)
loop 3 end:
  proof { if vacc1 is Some {
    let x = (*vs1@[vi1 - 1].0)@; let y = (*vs1@[vi1 - 1].1)@[vi3 - 1].0@;
    assert(listed(m0[x], y)); assert(held(m0, x, y)); assert(meets(x, y, a, b));
  } }
loop 4 inv:
  vacc4 ==> forall|j: int| 0 <= j < vi4 ==> ov_e(#[trigger] vs4@[j], b[j]),
  !vacc4 ==> vi4 > 0 && !ov_e(vs4@[vi4 - 1], b[vi4 - 1])
after-call entry_or#2:
  let ghost o = *impls;
after-call push#1:
  proof { lemma_step(m0, m0.insert(a, *impls), a, b, o, *impls, impls@.last()); }
@*/
}
fn main() {}
