//@include core.rs
/*@ rules
rule: $x.clone() ==> $x.vclone()
rule: $x.to_bigint() ==> vbig($x)
rule: $a << $b ==> vshl($a, $b)
rule: $x.to_u128().expect($m) ==> vwidth($x)
rule: BigInt::ZERO ==> BigInt::zero()
macro: panic ==> vpanic()
macro: unreachable ==> vpanic()
@*/
use crate::Constructor::*;
pub mod spade_types { pub use crate::PrimitiveType; }
verus! {
broadcast use {group_num};
// ---------------------------------------------------------------- assumed contracts
#[verifier::external_body] pub struct NameID { x: u64 }
#[verifier::external_body] pub struct Identifier { x: u64 }
#[verifier::external_body] pub struct VS { x: String }
#[verifier::external_body] pub struct VTrans { x: u64 }
/// small constants as numbers
#[verifier::external_body] pub fn vbig(x: u32) -> (r: BigInt) ensures r@ == x { unimplemented!() }
#[verifier::external_body] pub fn vshl(a: BigInt, b: u128) -> (r: BigInt) ensures r@ == a@ * pow2(b as nat) { unimplemented!() }
/// `to_u128().expect(..)`
#[verifier::external_body] pub fn vwidth(x: &BigInt) -> (r: u128) requires 0 <= x@ <= u128::MAX, ensures r == x@ { unimplemented!() }
/// `sort` of a vector of numbers
#[verifier::external_body]
pub fn vsort(v: &mut Vec<BigInt>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), forall|x: BigInt| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x),
        forall|i: int, j: int| 0 <= i <= j < final(v).len() ==> final(v)[i]@ <= final(v)[j]@ { unimplemented!() }
/// `dedup`: removes consecutive repetitions
#[verifier::external_body]
pub fn vdedup(v: &mut Vec<BigInt>)
    ensures forall|x: BigInt| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x),
        (forall|i: int, j: int| 0 <= i <= j < old(v).len() ==> old(v)[i]@ <= old(v)[j]@) ==> (forall|i: int, j: int| 0 <= i < j < final(v).len() ==> final(v)[i]@ < final(v)[j]@) { unimplemented!() }
/// `v.drain(a..).rev().collect()`
#[verifier::external_body]
pub fn vdrain_rev<T>(v: &mut Vec<T>, a: usize) -> (r: Vec<T>) requires a <= old(v).len(),
    ensures final(v)@ == old(v)@.subrange(0, a as int), r@ == old(v)@.subrange(a as int, old(v).len() as int).reverse() { unimplemented!() }
/// `v.extend(w)`
#[verifier::external_body]
pub fn vextend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
/// `v.extend_from_slice(&w[a..])`
#[verifier::external_body]
pub fn vextend_from<T>(v: &mut Vec<T>, w: &Vec<T>, a: usize) requires a <= w.len(), ensures final(v)@ == old(v)@ + w@.subrange(a as int, w.len() as int) { unimplemented!() }

/*@ type spade-types/src/lib.rs :: PrimitiveType @*/
/*@ type spade-types/src/lib.rs :: ConcreteType
type: String ==> VS
type: HashMap ==> VTrans
@*/
/*@ type spade-hir-lowering/src/pattern.rs :: Constructor @*/
/*@ type spade-hir-lowering/src/pattern.rs :: DeconstructedPattern @*/
/*@ type spade-hir-lowering/src/usefulness.rs :: PatStack @*/
/*@ type spade-hir-lowering/src/usefulness.rs :: Matrix @*/
/*@ type spade-hir-lowering/src/usefulness.rs :: Witness @*/
/*@ type spade-hir-lowering/src/usefulness.rs :: Usefulness @*/

// ---------------------------------------------------------------- values of a type
pub enum Key { One, B(bool), V(int), I(int) }
/// a value: which alternative it is, and the values of its fields
pub struct Val { pub key: Key, pub fs: Seq<Val> }
/// the types of the fields of the alternative k of a type
pub open spec fn flds(ty: ConcreteType, k: Key) -> Seq<ConcreteType> decreases ty {
    match k {
        Key::One => match ty {
            ConcreteType::Tuple(v) => v@,
            ConcreteType::Struct { name, members, .. } => Seq::new(members.len() as nat, |i: int| members[i].1),
            ConcreteType::Array { inner, size } => Seq::new(size@ as nat, |i: int| *inner),
            ConcreteType::CopyView(i) => flds(*i, Key::One),
            _ => Seq::<ConcreteType>::empty(),
        },
        Key::V(j) => match ty {
            ConcreteType::Enum { options } => Seq::new(options[j].1.len() as nat, |i: int| options[j].1[i].1),
            _ => Seq::<ConcreteType>::empty(),
        },
        _ => Seq::<ConcreteType>::empty(),
    }
}
pub open spec fn isint(ty: ConcreteType) -> bool { ty matches ConcreteType::Single { base, params } && (base is Int || base is Uint) }
pub open spec fn isbool(ty: ConcreteType) -> bool { ty matches ConcreteType::Single { base, params } && base is Bool }
pub open spec fn wid(ty: ConcreteType) -> nat { match ty { ConcreteType::Single { base, params } => match params[0] { ConcreteType::Integer(n) => n@ as nat, _ => 0 }, _ => 0 } }
/// the smallest and the largest number of an integer type
pub open spec fn lo(ty: ConcreteType) -> int { match ty { ConcreteType::Single { base, params } => if base is Int && wid(ty) > 0 { -(pow2((wid(ty) - 1) as nat) as int) } else { 0 }, _ => 0 } }
pub open spec fn hi(ty: ConcreteType) -> int { match ty { ConcreteType::Single { base, params } => if wid(ty) == 0 { 0 } else if base is Int { pow2((wid(ty) - 1) as nat) - 1 } else { pow2(wid(ty)) - 1 }, _ => 0 } }
/// the alternatives of a type
pub open spec fn keyok(ty: ConcreteType, k: Key) -> bool {
    match ty {
        ConcreteType::Enum { options } => k matches Key::V(i) && 0 <= i < options.len(),
        ConcreteType::Single { base, params } => if isint(ty) { k matches Key::I(x) && lo(ty) <= x <= hi(ty) } else if isbool(ty) { k is B } else { k is One },
        ConcreteType::Integer(_) => false,
        ConcreteType::Bool(_) => false,
        ConcreteType::String(_) => false,
        _ => k is One,
    }
}
/// v is a value of type ty
pub open spec fn hasty(ty: ConcreteType, v: Val) -> bool decreases v {
    keyok(ty, v.key) && v.fs.len() == flds(ty, v.key).len() && forall|i: int| 0 <= i < v.fs.len() ==> hasty(flds(ty, v.key)[i], #[trigger] v.fs[i])
}
/// types that can be matched on: number types carry a width, array sizes are representable, no type-level values
pub open spec fn tyok(ty: ConcreteType) -> bool decreases ty {
    match ty {
        ConcreteType::Tuple(v) => forall|i: int| 0 <= i < v.len() ==> tyok(#[trigger] v[i]),
        ConcreteType::Struct { name, members, .. } => forall|i: int| 0 <= i < members.len() ==> tyok((#[trigger] members[i]).1),
        ConcreteType::Array { inner, size } => 0 <= size@ <= u128::MAX && tyok(*inner),
        ConcreteType::Enum { options } => forall|j: int, i: int| 0 <= j < options.len() && 0 <= i < options[j].1.len() ==> tyok((#[trigger] options[j].1[i]).1),
        ConcreteType::Single { base, params } => isint(ty) ==> (params.len() >= 1 && (params[0] matches ConcreteType::Integer(n) && 0 <= n@ <= u128::MAX)),
        ConcreteType::Integer(_) => false,
        ConcreteType::Bool(_) => false,
        ConcreteType::String(_) => false,
        ConcreteType::CopyView(i) => tyok(*i) && !(*i is Enum),
        _ => true,
    }
}
proof fn lemma_fld_ok(ty: ConcreteType, k: Key)
    requires tyok(ty), keyok(ty, k) || k is One, ensures forall|i: int| 0 <= i < flds(ty, k).len() ==> tyok(#[trigger] flds(ty, k)[i])
    decreases ty
{
    let f = flds(ty, k);
    match ty {
        ConcreteType::CopyView(i) => { lemma_fld_ok(*i, Key::One); if !(k is One) { assert(f.len() == 0); } else { assert(f == flds(*i, Key::One)); } },
        ConcreteType::Enum { options } => { assert forall|i: int| 0 <= i < f.len() implies tyok(#[trigger] f[i]) by { if let Key::V(j) = k { assert(f[i] == options[j].1[i].1); assert(tyok((options[j].1[i]).1)); } else { assert(f.len() == 0); } } },
        ConcreteType::Struct { name, members, .. } => { assert forall|i: int| 0 <= i < f.len() implies tyok(#[trigger] f[i]) by { assert(f[i] == members[i].1); } },
        ConcreteType::Array { inner, size } => { assert forall|i: int| 0 <= i < f.len() implies tyok(#[trigger] f[i]) by { assert(f[i] == *inner); } },
        ConcreteType::Tuple(v) => { assert forall|i: int| 0 <= i < f.len() implies tyok(#[trigger] f[i]) by { assert(f[i] == v[i]); } },
        _ => { assert(f.len() == 0); }
    }
}
// ---------------------------------------------------------------- patterns
/// constructor c covers the alternative k
pub open spec fn cov(c: Constructor, k: Key) -> bool {
    match c {
        Constructor::Wildcard => true,
        Constructor::Single => k is One,
        Constructor::Bool(b) => k == Key::B(b),
        Constructor::Variant(i) => k == Key::V(i as int),
        Constructor::IntRange { min, max } => k matches Key::I(x) && min@ <= x <= max@,
        Constructor::Missing { all_missing } => exists|i: int| 0 <= i < all_missing.len() && cov1(#[trigger] all_missing[i], k),
    }
}
pub open spec fn cov1(c: Constructor, k: Key) -> bool { match c { Constructor::Bool(b) => k == Key::B(b), _ => false } }
/// the constructor can be written for the type
pub open spec fn fits(c: Constructor, ty: ConcreteType) -> bool {
    match c {
        Constructor::Single => keyok(ty, Key::One),
        Constructor::Bool(_) => isbool(ty),
        Constructor::Variant(i) => keyok(ty, Key::V(i as int)),
        Constructor::IntRange { min, max } => isint(ty) && min@ <= max@,
        _ => false,
    }
}
/// ... and covers some alternative, and nothing outside the type
pub open spec fn sfit(c: Constructor, ty: ConcreteType) -> bool {
    match c {
        Constructor::IntRange { min, max } => isint(ty) && lo(ty) <= min@ <= max@ <= hi(ty),
        Constructor::Missing { all_missing } => isbool(ty) && all_missing.len() > 0 && forall|i: int| 0 <= i < all_missing.len() ==> (#[trigger] all_missing[i]) is Bool,
        _ => fits(c, ty),
    }
}
pub open spec fn ckey(c: Constructor) -> Key {
    match c { Constructor::Single => Key::One, Constructor::Bool(b) => Key::B(b), Constructor::Variant(i) => Key::V(i as int), Constructor::IntRange { min, max } => Key::I(min@), Constructor::Missing { all_missing } => match all_missing[0] { Constructor::Bool(b) => Key::B(b), _ => Key::I(0) }, _ => Key::I(0) }
}
/// constructors of the same type
pub open spec fn compat(s: Constructor, c: Constructor) -> bool {
    c is Wildcard || s is Missing || (s is Single && c is Single) || (s is Variant && c is Variant) || (s is IntRange && c is IntRange) || (s is Bool && c is Bool)
}
/// a written constructor is wholly inside another one of the same type
pub open spec fn icb(s: Constructor, c: Constructor) -> bool {
    match (s, c) {
        (_, Constructor::Wildcard) => true,
        (Constructor::Missing { all_missing }, _) => false,
        (Constructor::Single, Constructor::Single) => true,
        (Constructor::Variant(a), Constructor::Variant(b)) => a == b,
        (Constructor::IntRange { min, max }, Constructor::IntRange { min: omin, max: omax }) => min@ >= omin@ && max@ <= omax@,
        (Constructor::Bool(a), Constructor::Bool(b)) => a == b,
        _ => false,
    }
}
pub open spec fn wfp(p: DeconstructedPattern, ty: ConcreteType, strict: bool) -> bool decreases p {
    p.ty == ty && (if p.ctor is Wildcard { p.fields.len() == 0 } else {
        fits(p.ctor, ty) && (strict ==> sfit(p.ctor, ty)) && p.fields.len() == flds(ty, ckey(p.ctor)).len()
        && forall|i: int| 0 <= i < p.fields.len() ==> wfp(#[trigger] p.fields[i], flds(ty, ckey(p.ctor))[i], strict) })
}
/// pattern p matches value v
pub open spec fn pm(p: DeconstructedPattern, v: Val) -> bool decreases p {
    p.ctor is Wildcard || (cov(p.ctor, v.key) && p.fields.len() == v.fs.len() && forall|i: int| 0 <= i < p.fields.len() ==> pm(#[trigger] p.fields[i], v.fs[i]))
}
// stacks
pub open spec fn wfs(ps: Seq<DeconstructedPattern>, ts: Seq<ConcreteType>, strict: bool) -> bool {
    ps.len() == ts.len() && forall|i: int| 0 <= i < ps.len() ==> wfp(#[trigger] ps[i], ts[i], strict)
}
pub open spec fn tysok(ts: Seq<ConcreteType>) -> bool { forall|i: int| 0 <= i < ts.len() ==> tyok(#[trigger] ts[i]) }
pub open spec fn hast(ts: Seq<ConcreteType>, vs: Seq<Val>) -> bool {
    ts.len() == vs.len() && forall|i: int| 0 <= i < vs.len() ==> hasty(ts[i], #[trigger] vs[i])
}
pub open spec fn stk(ps: Seq<DeconstructedPattern>, vs: Seq<Val>) -> bool {
    ps.len() == vs.len() && forall|i: int| 0 <= i < ps.len() ==> pm(#[trigger] ps[i], vs[i])
}
pub open spec fn tys(ps: Seq<DeconstructedPattern>) -> Seq<ConcreteType> { Seq::new(ps.len(), |i: int| ps[i].ty) }
pub open spec fn anym(rows: Seq<PatStack>, n: int, vs: Seq<Val>) -> bool { exists|i: int| 0 <= i < n && stk((#[trigger] rows[i]).pats@, vs) }
pub open spec fn pop_rel(res: Seq<DeconstructedPattern>, row: Seq<DeconstructedPattern>, s: Constructor) -> bool {
    let f = flds(row[0].ty, ckey(s));
    &&& res.len() == f.len() + row.len() - 1
    &&& forall|j: int| f.len() <= j < res.len() ==> #[trigger] res[j] == row[j - f.len() + 1]
    &&& if row[0].ctor is Wildcard { forall|j: int| 0 <= j < f.len() ==> (#[trigger] res[j]).ctor is Wildcard && res[j].ty == f[j] && res[j].fields.len() == 0 }
        else { row[0].fields.len() == f.len() && forall|j: int| 0 <= j < f.len() ==> #[trigger] res[j] == row[0].fields[j] }
}
pub open spec fn rel(res: Seq<PatStack>, rows: Seq<PatStack>, s: Constructor, n: int) -> bool decreases n {
    if n <= 0 { res.len() == 0 }
    else if icb(s, rows[n - 1].pats@[0].ctor) { res.len() > 0 && pop_rel(res.last().pats@, rows[n - 1].pats@, s) && rel(res.drop_last(), rows, s, n - 1) }
    else { rel(res, rows, s, n - 1) }
}
/// the types after the head has been replaced by the fields of the alternative s
pub open spec fn pty(ts: Seq<ConcreteType>, s: Constructor) -> Seq<ConcreteType> { flds(ts[0], ckey(s)) + ts.subrange(1, ts.len() as int) }
pub open spec fn popv(vs: Seq<Val>) -> Seq<Val> { vs[0].fs + vs.subrange(1, vs.len() as int) }
/// witness w (last element first) describes the values vs
pub open spec fn wit(w: Seq<DeconstructedPattern>, vs: Seq<Val>) -> bool { stk(w.reverse(), vs) }
pub open spec fn good(w: Seq<DeconstructedPattern>, ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>, vs: Seq<Val>) -> bool {
    hast(tys(ps), vs) && stk(ps, vs) && !anym(rows, rows.len() as int, vs) && stk(w.reverse(), vs)
}
/// every alternative covered by s is covered by c, or none is
pub open spec fn hom(s: Constructor, c: Constructor, ty: ConcreteType) -> bool { forall|k: Key| keyok(ty, k) && #[trigger] cov(s, k) ==> cov(c, k) == icb(s, c) }

proof fn lemma_key(c: Constructor, ty: ConcreteType)
    requires sfit(c, ty), ensures keyok(ty, ckey(c)), cov(c, ckey(c)),
        forall|k: Key| keyok(ty, k) && #[trigger] cov(c, k) ==> flds(ty, k) == flds(ty, ckey(c)),
{
    match c { Constructor::Missing { all_missing } => { assert(cov1(all_missing[0], ckey(c))); }, _ => {} }
    assert forall|k: Key| keyok(ty, k) && #[trigger] cov(c, k) implies flds(ty, k) == flds(ty, ckey(c)) by {}
}
proof fn lemma_icb(s: Constructor, c: Constructor, ty: ConcreteType)
    requires sfit(s, ty), icb(s, c), c is Wildcard || fits(c, ty), ensures !(c is Wildcard) ==> flds(ty, ckey(c)) == flds(ty, ckey(s)), forall|k: Key| #[trigger] cov(s, k) ==> cov(c, k)
{}
/// popping keeps a row well formed
proof fn lemma_pop_wf(res: Seq<DeconstructedPattern>, row: Seq<DeconstructedPattern>, s: Constructor, ts: Seq<ConcreteType>, strict: bool)
    requires ts.len() > 0, wfs(row, ts, strict), pop_rel(res, row, s), sfit(s, ts[0]), icb(s, row[0].ctor)
    ensures wfs(res, pty(ts, s), strict)
{
    lemma_icb(s, row[0].ctor, ts[0]);
    let f = flds(ts[0], ckey(s));
    assert(wfp(row[0], ts[0], strict));
    assert forall|i: int| 0 <= i < res.len() implies wfp(#[trigger] res[i], pty(ts, s)[i], strict) by {
        if i >= f.len() { assert(res[i] == row[i - f.len() + 1]); assert(pty(ts, s)[i] == ts[i - f.len() + 1]); }
        else { assert(pty(ts, s)[i] == f[i]); if row[0].ctor is Wildcard {} else { assert(res[i] == row[0].fields[i]); } }
    }
}
/// values of the popped stack
proof fn lemma_pop_ty(ts: Seq<ConcreteType>, vs: Seq<Val>, s: Constructor)
    requires ts.len() > 0, hast(ts, vs), sfit(s, ts[0]), cov(s, vs[0].key), ensures hast(pty(ts, s), popv(vs))
{
    lemma_key(s, ts[0]);
    assert(hasty(ts[0], vs[0]));
    assert forall|i: int| 0 <= i < popv(vs).len() implies hasty(pty(ts, s)[i], #[trigger] popv(vs)[i]) by {
        if i < vs[0].fs.len() { assert(popv(vs)[i] == vs[0].fs[i]); } else { assert(popv(vs)[i] == vs[i - vs[0].fs.len() + 1]); }
    }
}
/// the head values whose fields are the popped stack
proof fn lemma_push(ts: Seq<ConcreteType>, us: Seq<Val>, s: Constructor, k: Key) -> (vs: Seq<Val>)
    requires ts.len() > 0, hast(pty(ts, s), us), sfit(s, ts[0]), cov(s, k), keyok(ts[0], k)
    ensures hast(ts, vs), popv(vs) == us, vs[0].key == k, vs[0].fs.len() == flds(ts[0], ckey(s)).len()
{
    lemma_key(s, ts[0]);
    let n = flds(ts[0], ckey(s)).len() as int;
    let v = Val { key: k, fs: us.subrange(0, n) };
    let vs = seq![v] + us.subrange(n, us.len() as int);
    assert(popv(vs) =~= us);
    assert forall|i: int| 0 <= i < v.fs.len() implies hasty(flds(ts[0], k)[i], #[trigger] v.fs[i]) by { assert(v.fs[i] == us[i]); assert(hasty(pty(ts, s)[i], us[i])); }
    assert(hasty(ts[0], v));
    assert forall|i: int| 0 <= i < vs.len() implies hasty(ts[i], #[trigger] vs[i]) by { if i > 0 { assert(vs[i] == us[n + i - 1]); assert(hasty(pty(ts, s)[n + i - 1], us[n + i - 1])); } }
    vs
}
/// matching a row is matching its head's alternative and the popped row
proof fn lemma_pop_match(res: Seq<DeconstructedPattern>, row: Seq<DeconstructedPattern>, s: Constructor, ts: Seq<ConcreteType>, vs: Seq<Val>, strict: bool)
    requires ts.len() > 0, wfs(row, ts, strict), pop_rel(res, row, s), sfit(s, ts[0]), icb(s, row[0].ctor), hast(ts, vs), cov(s, vs[0].key)
    ensures stk(row, vs) == stk(res, popv(vs))
{
    lemma_key(s, ts[0]); lemma_icb(s, row[0].ctor, ts[0]);
    let f = flds(ts[0], ckey(s)); let us = popv(vs);
    assert(wfp(row[0], ts[0], strict)); assert(hasty(ts[0], vs[0]));
    assert(vs[0].fs.len() == f.len());
    if stk(row, vs) {
        assert(pm(row[0], vs[0]));
        assert forall|i: int| 0 <= i < res.len() implies pm(#[trigger] res[i], us[i]) by {
            if i >= f.len() { assert(res[i] == row[i - f.len() + 1]); assert(us[i] == vs[i - f.len() + 1]); }
            else if row[0].ctor is Wildcard {} else { assert(res[i] == row[0].fields[i]); assert(us[i] == vs[0].fs[i]); }
        }
    }
    if stk(res, us) {
        assert forall|i: int| 0 <= i < row.len() implies pm(#[trigger] row[i], vs[i]) by {
            if i > 0 { assert(res[f.len() + i - 1] == row[i]); assert(us[f.len() + i - 1] == vs[i]); }
            else if !(row[0].ctor is Wildcard) {
                assert forall|j: int| 0 <= j < row[0].fields.len() implies pm(#[trigger] row[0].fields[j], vs[0].fs[j]) by { assert(res[j] == row[0].fields[j]); assert(us[j] == vs[0].fs[j]); }
            }
        }
    }
}
/// some row matches before iff some row matches after specialisation
proof fn lemma_rel(res: Seq<PatStack>, rows: Seq<PatStack>, s: Constructor, n: int, ts: Seq<ConcreteType>)
    requires ts.len() > 0, 0 <= n <= rows.len(), rel(res, rows, s, n), sfit(s, ts[0]), forall|i: int| 0 <= i < rows.len() ==> wfs((#[trigger] rows[i]).pats@, ts, false) && hom(s, rows[i].pats@[0].ctor, ts[0])
    ensures forall|i: int| 0 <= i < res.len() ==> wfs((#[trigger] res[i]).pats@, pty(ts, s), false),
        forall|vs: Seq<Val>| hast(ts, vs) && cov(s, vs[0].key) ==> (#[trigger] anym(rows, n, vs) == anym(res, res.len() as int, popv(vs))),
    decreases n
{
    if n > 0 {
        let row = rows[n - 1].pats@;
        assert(wfs(row, ts, false));
        assert(wfp(row[0], ts[0], false));
        if icb(s, row[0].ctor) {
            lemma_rel(res.drop_last(), rows, s, n - 1, ts);
            lemma_pop_wf(res.last().pats@, row, s, ts, false);
            assert forall|i: int| 0 <= i < res.len() implies wfs((#[trigger] res[i]).pats@, pty(ts, s), false) by { if i < res.len() - 1 { assert(res[i] == res.drop_last()[i]); } }
        } else { lemma_rel(res, rows, s, n - 1, ts); }
        assert forall|vs: Seq<Val>| hast(ts, vs) && cov(s, vs[0].key) implies (#[trigger] anym(rows, n, vs) == anym(res, res.len() as int, popv(vs))) by {
            assert(hasty(ts[0], vs[0]));
            let m = res.len() as int;
            if icb(s, row[0].ctor) {
                let d = res.drop_last();
                lemma_pop_match(res.last().pats@, row, s, ts, vs, false);
                assert(anym(rows, n - 1, vs) == anym(d, m - 1, popv(vs)));
                if anym(rows, n, vs) { let i = choose|i: int| 0 <= i < n && stk((#[trigger] rows[i]).pats@, vs);
                    if i < n - 1 { assert(anym(rows, n - 1, vs)); let j = choose|j: int| 0 <= j < m - 1 && stk((#[trigger] d[j]).pats@, popv(vs)); assert(stk(res[j].pats@, popv(vs))); } else { assert(stk(res[m - 1].pats@, popv(vs))); } }
                if anym(res, m, popv(vs)) { let j = choose|j: int| 0 <= j < m && stk((#[trigger] res[j]).pats@, popv(vs));
                    if j < m - 1 { assert(stk(d[j].pats@, popv(vs))); assert(anym(d, m - 1, popv(vs))); let i = choose|i: int| 0 <= i < n - 1 && stk((#[trigger] rows[i]).pats@, vs); assert(stk(rows[i].pats@, vs)); } else { assert(stk(rows[n - 1].pats@, vs)); } }
            } else {
                assert(anym(rows, n - 1, vs) == anym(res, m, popv(vs)));
                assert(!cov(row[0].ctor, vs[0].key));
                assert(!pm(row[0], vs[0]));
                assert(!stk(rows[n - 1].pats@, vs));
                if anym(rows, n, vs) { let i = choose|i: int| 0 <= i < n && stk((#[trigger] rows[i]).pats@, vs); assert(i < n - 1); assert(anym(rows, n - 1, vs)); }
                if anym(rows, n - 1, vs) { let i = choose|i: int| 0 <= i < n - 1 && stk((#[trigger] rows[i]).pats@, vs); assert(stk(rows[i].pats@, vs)); }
            }
        }
    }
}

// ---------------------------------------------------------------- the code: constructors
pub open spec fn ainner(ty: ConcreteType) -> ConcreteType { match ty { ConcreteType::Array { inner, size } => *inner, t => t } }
pub open spec fn anyicb(c: Constructor, os: Seq<Constructor>, n: int) -> bool { exists|m: int| 0 <= m < n && icb(c, #[trigger] os[m]) }
pub open spec fn setof(os: Seq<Constructor>, n: int, rs: Seq<Constructor>) -> bool { (forall|j: int| 0 <= j < rs.len() ==> (#[trigger] rs[j]) is Bool) && (forall|o: int| 0 <= o < n ==> (#[trigger] os[o]) is Bool ==> rs.contains(os[o])) }
proof fn lemma_setof(os: Seq<Constructor>, n: int, rs: Seq<Constructor>, c: Constructor)
    requires setof(os, n, rs), c is Bool, ensures setof(os, n, rs.push(c)), rs.push(c).contains(c)
{
    let b = rs.push(c); assert(b[rs.len() as int] == c);
    assert forall|o: int| 0 <= o < n && (#[trigger] os[o]) is Bool implies b.contains(os[o]) by { let i = choose|i: int| 0 <= i < rs.len() && rs[i] == os[o]; assert(b[i] == os[o]); }
}
/*@ fn spade-hir-lowering/src/pattern.rs :: Constructor::as_range
requires: *self is IntRange
ensures: *self == (Constructor::IntRange { min: r.0, max: r.1 })
@*/
/*@ fn spade-hir-lowering/src/pattern.rs :: Constructor::is_covered_by
requires: compat(*self, *other)
ensures: r == icb(*self, *other)
@*/
/*@ fn spade-hir-lowering/src/pattern.rs :: Constructor::fields
requires: tyok(*ty), sfit(*self, *ty) || (*self is Single && *ty is Enum == false)
ensures: r@ =~= flds(*ty, ckey(*self))
decreases: *ty
loop 0 inv: vacc0.len() == vi0, forall|i: int| 0 <= i < vi0 ==> #[trigger] vacc0[i] == vs0[i].1
loop 1 inv: vacc1.len() == vi1, forall|i: int| 0 <= i < vi1 ==> #[trigger] vacc1[i] == ainner(*$1)
loop 2 inv: vacc2.len() == vi2, forall|i: int| 0 <= i < vi2 ==> #[trigger] vacc2[i] == vs2[i].1
@*/
/*@ fn spade-hir-lowering/src/pattern.rs :: Constructor::arity
requires: tyok(*ty), sfit(*self, *ty)
ensures: r == flds(*ty, ckey(*self)).len()
@*/
pub open spec fn inr(c: Constructor, x: int) -> bool { c matches Constructor::IntRange { min, max } && min@ <= x <= max@ }
pub open spec fn insome(rs: Seq<Constructor>, x: int) -> bool { exists|j: int| 0 <= j < rs.len() && #[trigger] inr(rs[j], x) }
/// no edge strictly inside the range
pub open spec fn noedge(c: Constructor, es: Seq<BigInt>) -> bool { c matches Constructor::IntRange { min, max } && forall|i: int| 0 <= i < es.len() ==> !(min@ < (#[trigger] es[i])@ <= max@) }
proof fn lemma_insome(a: Seq<Constructor>, c: Constructor, l: int, h: int, m: int)
    requires forall|x: int| m <= x < l ==> #[trigger] insome(a, x), c matches Constructor::IntRange { min, max } && min@ == l && max@ == h
    ensures forall|x: int| m <= x <= h ==> #[trigger] insome(a.push(c), x)
{
    let b = a.push(c);
    assert forall|x: int| m <= x <= h implies #[trigger] insome(b, x) by {
        if x < l { assert(insome(a, x)); let j = choose|j: int| 0 <= j < a.len() && #[trigger] inr(a[j], x); assert(inr(b[j], x)); } else { assert(inr(b[a.len() as int], x)); }
    }
}
proof fn lemma_range_hom(c: Constructor, o: Constructor, es: Seq<BigInt>, x: int)
    requires noedge(c, es), edged(es, o), inr(c, x), ensures inr(o, x) == icb(c, o)
{
    if let Constructor::IntRange { min, max } = o {
        let i = choose|i: int| 0 <= i < es.len() && es[i] == bi(min@); assert(es[i]@ == min@);
        let j = choose|j: int| 0 <= j < es.len() && es[j] == bi(max@ + 1); assert(es[j]@ == max@ + 1);
    }
}
/// both ends of a range are among the edges
pub open spec fn edged(es: Seq<BigInt>, o: Constructor) -> bool { o matches Constructor::IntRange { min, max } && es.contains(bi(min@)) && es.contains(bi(max@ + 1)) }
proof fn lemma_edged(a: Seq<BigInt>, b: Seq<BigInt>, o: Constructor) requires edged(a, o), forall|x: BigInt| a.contains(x) ==> #[trigger] b.contains(x) ensures edged(b, o) {}
/*@ fn spade-hir-lowering/src/pattern.rs :: split_int_range as vsplit_int_range
sig: (min: BigInt, max: BigInt, other_ctors: Vec<Constructor>) -> (r: Vec<Constructor>)
rule: other_ctors.flat_map($f) ==> other_ctors.into_iter().flat_map($f)
rule: edges.sort() ==> vsort(&mut edges)
rule: edges.dedup() ==> vdedup(&mut edges)
requires: min@ <= max@, forall|i: int| 0 <= i < other_ctors.len() ==> #[trigger] other_ctors[i] is IntRange
ensures: forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j] matches Constructor::IntRange { min: a, max: b } && min@ <= a@ <= b@ <= max@), forall|x: int| min@ <= x <= max@ ==> #[trigger] insome(r@, x), forall|j: int, o: int, x: int| 0 <= j < r.len() && 0 <= o < other_ctors.len() && #[trigger] inr(r[j], x) ==> #[trigger] inr(other_ctors[o], x) == icb(r[j], other_ctors[o])
loop 0 inv: forall|o: int| 0 <= o < vi0 ==> edged(vacc0@, #[trigger] other_ctors[o])
loop 0 start: let ghost g0 = vacc0@;
loop 0 end: proof { let oc = other_ctors[vi0 - 1]; assert(vacc0@ =~= g0.push(vacc0[g0.len() as int]).push(vacc0[g0.len() as int + 1])); assert forall|x: BigInt| g0.contains(x) implies #[trigger] vacc0@.contains(x) by { let i = choose|i: int| 0 <= i < g0.len() && g0[i] == x; assert(vacc0[i] == x); } assert forall|o: int| 0 <= o < vi0 implies edged(vacc0@, #[trigger] other_ctors[o]) by { if o < vi0 - 1 { assert(edged(g0, other_ctors[o])); lemma_edged(g0, vacc0@, other_ctors[o]); } else { assert(vacc0@.contains(vacc0[g0.len() as int])); assert(vacc0@.contains(vacc0[g0.len() as int + 1])); } } }
loop 1 inv: vs1.len() == 2, vacc0@ =~= g0 + vs1@.subrange(0, vi1 as int)
loop 2 inv: min@ <= current_low@ <= max@, forall|j: int| 0 <= j < $a0.len() ==> (#[trigger] $a0[j] matches Constructor::IntRange { min: a, max: b } && min@ <= a@ <= b@ < current_low@ && b@ <= max@) && noedge($a0[j], ge), forall|x: int| min@ <= x < current_low@ ==> #[trigger] insome($a0@, x), forall|i: int| 0 <= i < vi2 ==> (#[trigger] ge[i])@ <= current_low@ || ge[i]@ > max@, forall|i: int| vi2 <= i < ge.len() ==> (#[trigger] ge[i])@ > current_low@ || current_low@ == min@, ge == vs2@, forall|i: int, j: int| 0 <= i < j < ge.len() ==> ge[i]@ < ge[j]@
loop 2 before: let ghost ge = edges@; proof { assert forall|o: int| 0 <= o < other_ctors.len() implies edged(ge, #[trigger] other_ctors[o]) by { lemma_edged(ge0, ge, other_ctors[o]); } }
loop 2 start: let ghost gr = result@; let ghost gl = current_low@; 
loop 2 end: proof { if result@.len() > gr.len() { let c = result@.last(); assert(result@ =~= gr.push(c)); lemma_insome(gr, c, gl, vs2[vi2 - 1]@ - 1, min@); } }
before-call vsort: let ghost ge0 = edges@;
loop 2 after: proof { let c = Constructor::IntRange { min: current_low, max: max }; lemma_insome(result@, c, current_low@, max@, min@); let r = result@.push(c); assert forall|j: int| 0 <= j < r.len() implies noedge(#[trigger] r[j], ge) by { if j < result.len() { assert(r[j] == result[j]); } } assert forall|j: int, o: int, x: int| 0 <= j < r.len() && 0 <= o < other_ctors.len() && #[trigger] inr(r[j], x) implies #[trigger] inr(other_ctors[o], x) == icb(r[j], other_ctors[o]) by { lemma_range_hom(r[j], other_ctors[o], ge, x); } }
@*/

pub open spec fn covsome(rs: Seq<Constructor>, k: Key) -> bool { exists|j: int| 0 <= j < rs.len() && #[trigger] cov(rs[j], k) }
/// what the constructor lists of the analysis may contain
pub open spec fn heads(os: Seq<Constructor>, ty: ConcreteType) -> bool { forall|i: int| 0 <= i < os.len() ==> (#[trigger] os[i]) is Wildcard || fits(os[i], ty) }
pub open spec fn boolish(c: Constructor) -> bool { c is Bool || (c matches Constructor::Missing { all_missing } && all_missing.len() > 0 && forall|i: int| 0 <= i < all_missing.len() ==> (#[trigger] all_missing[i]) is Bool) }
/*@ fn spade-hir-lowering/src/pattern.rs :: group_missing_constructors
sig: (all_ctors: Vec<Constructor>, other_ctors: Vec<Constructor>) -> (r: Vec<Constructor>)
rule: other_ctors.filter($f) ==> other_ctors.into_iter().filter($f)
requires: all_ctors@ =~= seq![Constructor::Bool(false), Constructor::Bool(true)], forall|i: int| 0 <= i < other_ctors.len() ==> (#[trigger] other_ctors[i]) is Wildcard || other_ctors[i] is Bool
ensures: forall|j: int| 0 <= j < r.len() ==> boolish(#[trigger] r[j]), forall|b: bool| #[trigger] covsome(r@, Key::B(b)), forall|j: int, o: int, b: bool| 0 <= j < r.len() && 0 <= o < other_ctors.len() && #[trigger] cov(r[j], Key::B(b)) ==> #[trigger] cov(other_ctors[o], Key::B(b)) == icb(r[j], other_ctors[o])
loop 0 inv: vs0@ == go, setof(vs0@, vi0 as int, vacc0@)
loop 0 start: let ghost g0 = vacc0@;
loop 0 end: proof { let c = vs0[vi0 - 1]; if c is Bool { lemma_setof(vs0@, vi0 - 1, g0, c); } }
entry: let ghost go = other_ctors@;
loop 1 inv: vs1@ == all_ctors@, forall|j: int| 0 <= j < vacc1.len() ==> (#[trigger] vacc1[j]) is Bool && !anyicb(vacc1[j], non_wildcard_other@, non_wildcard_other.len() as int), forall|i: int| 0 <= i < vi1 ==> anyicb(#[trigger] vs1[i], non_wildcard_other@, non_wildcard_other.len() as int) || vacc1@.contains(vs1[i])
loop 1 start: let ghost g1 = vacc1@;
loop 1 end: proof { assert forall|i: int| 0 <= i < vi1 implies anyicb(#[trigger] vs1[i], non_wildcard_other@, non_wildcard_other.len() as int) || vacc1@.contains(vs1[i]) by { if g1.contains(vs1[i]) { let x = choose|x: int| 0 <= x < g1.len() && g1[x] == vs1[i]; assert(vacc1@[x] == vs1[i]); } if i == vi1 - 1 && vacc1.len() > g1.len() { assert(vacc1@.last() == vs1[i]); } } }
loop 1 after: proof { let gm = Constructor::Missing { all_missing: vacc1 }; let nw = non_wildcard_other@; let r = nw.push(gm); assert(r.last() == gm); assert(vs1[0] == Constructor::Bool(false) && vs1[1] == Constructor::Bool(true)); assert(cov(vs1[0], Key::B(false))); assert(cov(vs1[1], Key::B(true))); assert(covsome(vs1@, Key::B(true))); assert(covsome(vs1@, Key::B(false))); assert forall|b: bool| vacc1.len() > 0 implies #[trigger] covsome(r, Key::B(b)) by { let i = if b { 1int } else { 0int }; assert(vs1[i] == Constructor::Bool(b)); assert(cov(vs1[i], Key::B(b))); if anyicb(vs1[i], nw, nw.len() as int) { let m = choose|m: int| 0 <= m < nw.len() && icb(vs1[i], #[trigger] nw[m]); assert(r[m] == nw[m]); assert(cov(r[m], Key::B(b))); } else { let x = choose|x: int| 0 <= x < vacc1.len() && vacc1[x] == vs1[i]; assert(cov1(gm->all_missing[x], Key::B(b))); assert(cov(gm, Key::B(b))); assert(r[nw.len() as int] == gm); assert(cov(r[nw.len() as int], Key::B(b))); } } assert forall|o: int, b: bool| 0 <= o < go.len() && cov(gm, Key::B(b)) && !(go[o] is Wildcard) implies !#[trigger] cov(go[o], Key::B(b)) by { assert(gm->all_missing == vacc1); let x = choose|x: int| 0 <= x < vacc1.len() && cov1(#[trigger] vacc1[x], Key::B(b)); assert(vacc1[x] == Constructor::Bool(b)); if cov(go[o], Key::B(b)) { assert(nw.contains(go[o])); let m = choose|m: int| 0 <= m < nw.len() && nw[m] == go[o]; assert(icb(vacc1[x], nw[m])); } } }
loop 2 inv: vacc2 == anyicb(vs1[vi1 - 1], vs2@, vi2 as int), vs2@ == non_wildcard_other@
@*/
/// the piece s of the constructor o contains x
pub open spec fn piece(s: Constructor, o: Constructor, x: int) -> bool { inr(s, x) && icb(s, o) }
pub open spec fn pieces(acc: Seq<Constructor>, o: Constructor, x: int) -> bool { exists|j: int| 0 <= j < acc.len() && piece(#[trigger] acc[j], o, x) }
/// every number of the type that o covers lies in a range of acc that o covers
pub open spec fn dec(acc: Seq<Constructor>, o: Constructor, ty: ConcreteType) -> bool { forall|x: int| keyok(ty, Key::I(x)) && cov(o, Key::I(x)) ==> #[trigger] pieces(acc, o, x) }
pub open spec fn ranges(acc: Seq<Constructor>) -> bool { forall|j: int| 0 <= j < acc.len() ==> (#[trigger] acc[j]) is IntRange }
proof fn lemma_dec(a: Seq<Constructor>, b: Seq<Constructor>, c: Seq<Constructor>, o: Constructor, ty: ConcreteType)
    requires dec(a, o, ty) || dec(b, o, ty), c == a + b, ensures dec(c, o, ty)
{
    assert forall|x: int| keyok(ty, Key::I(x)) && cov(o, Key::I(x)) implies #[trigger] pieces(c, o, x) by {
        if dec(a, o, ty) { assert(pieces(a, o, x)); let j = choose|j: int| 0 <= j < a.len() && piece(#[trigger] a[j], o, x); assert(piece(c[j], o, x)); }
        else { assert(pieces(b, o, x)); let j = choose|j: int| 0 <= j < b.len() && piece(#[trigger] b[j], o, x); assert(piece(c[a.len() + j], o, x)); }
    }
}
/// one step of the loop that cuts all other constructors into ranges
proof fn lemma_decs(g: Seq<Constructor>, b: Seq<Constructor>, c: Seq<Constructor>, os: Seq<Constructor>, n: int, ty: ConcreteType)
    requires isint(ty), c == g + b, ranges(g), 0 < n <= os.len(), heads(os, ty), forall|o: int| 0 <= o < n - 1 ==> dec(g, #[trigger] os[o], ty),
        forall|k: Key| keyok(ty, k) && cov(os[n - 1], k) ==> #[trigger] covsome(b, k), forall|j: int| 0 <= j < b.len() ==> icb(#[trigger] b[j], os[n - 1]) && (os[n - 1] is Wildcard ==> sfit(b[j], ty))
    ensures ranges(c), forall|o: int| 0 <= o < n ==> dec(c, #[trigger] os[o], ty)
{
    assert forall|j: int| 0 <= j < c.len() implies (#[trigger] c[j]) is IntRange by { if j < g.len() { assert(c[j] == g[j]); } else { assert(c[j] == b[j - g.len()]); assert(os[n - 1] is Wildcard || fits(os[n - 1], ty)); assert(icb(b[j - g.len()], os[n - 1])); } }
    assert(ranges(b)) by { assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]) is IntRange by { assert(c[g.len() + j] == b[j]); } }
    assert(dec(b, os[n - 1], ty)) by {
        assert forall|x: int| keyok(ty, Key::I(x)) && cov(os[n - 1], Key::I(x)) implies #[trigger] pieces(b, os[n - 1], x) by {
            assert(covsome(b, Key::I(x))); let j = choose|j: int| 0 <= j < b.len() && #[trigger] cov(b[j], Key::I(x)); assert(piece(b[j], os[n - 1], x));
        }
    }
    assert forall|o: int| 0 <= o < n implies dec(c, #[trigger] os[o], ty) by { lemma_dec(g, b, c, os[o], ty); }
}
broadcast proof fn lemma_covsome0(r: Seq<Constructor>, k: Key) requires r.len() > 0 && cov(r[0], k) ensures #[trigger] covsome(r, k) {}
broadcast proof fn lemma_covsome1(r: Seq<Constructor>, k: Key) requires k matches Key::I(x) && insome(r, x) ensures #[trigger] covsome(r, k) { if let Key::I(x) = k { let j = choose|j: int| 0 <= j < r.len() && #[trigger] inr(r[j], x); assert(cov(r[j], k)); } }
broadcast proof fn lemma_pow(n: nat) ensures #[trigger] pow2(n) > 0 { lemma_pow2_pos(n) }
/// split_int_range, with what it means for the constructors the ranges were cut from
pub fn vsir(min: BigInt, max: BigInt, acc: Vec<Constructor>, os: Ghost<Seq<Constructor>>, ty: Ghost<ConcreteType>) -> (r: Vec<Constructor>)
    requires isint(ty@), min@ <= max@, ranges(acc@), forall|o: int| 0 <= o < os@.len() ==> dec(acc@, #[trigger] os@[o], ty@), heads(os@, ty@)
    ensures forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j] matches Constructor::IntRange { min: a, max: b } && min@ <= a@ <= b@ <= max@), forall|x: int| min@ <= x <= max@ ==> #[trigger] insome(r@, x), forall|j: int, o: int| 0 <= j < r.len() && 0 <= o < os@.len() ==> hom(#[trigger] r[j], #[trigger] os@[o], ty@)
{
    let ghost a = acc@;
    let r = vsplit_int_range(min, max, acc);
    proof {
        assert forall|j: int, o: int| 0 <= j < r.len() && 0 <= o < os@.len() implies hom(#[trigger] r[j], #[trigger] os@[o], ty@) by {
            let c = os@[o];
            assert forall|k: Key| keyok(ty@, k) && #[trigger] cov(r[j], k) implies cov(c, k) == icb(r[j], c) by {
                if let Key::I(x) = k {
                    assert(inr(r[j], x));
                    if cov(c, k) { assert(dec(a, c, ty@)); assert(pieces(a, c, x)); let m = choose|m: int| 0 <= m < a.len() && piece(#[trigger] a[m], c, x); assert(inr(a[m], x) == icb(r[j], a[m])); }
                }
            }
        }
    }
    r
}
proof fn lemma_insome_cov(r: Seq<Constructor>, l: int, h: int)
    requires forall|x: int| l <= x <= h ==> #[trigger] insome(r, x), ensures forall|x: int| l <= x <= h ==> #[trigger] covsome(r, Key::I(x))
{
    assert forall|x: int| l <= x <= h implies #[trigger] covsome(r, Key::I(x)) by { assert(insome(r, x)); let j = choose|j: int| 0 <= j < r.len() && #[trigger] inr(r[j], x); assert(cov(r[j], Key::I(x))); }
}
/*@ fn spade-hir-lowering/src/pattern.rs :: split_wildcard as vsplit_wildcard
sig: (ty: &ConcreteType, other_ctors: Vec<Constructor>) -> (r: Vec<Constructor>)
rule: split_int_range($a, $b, other_ctors.flat_map($f)) ==> vsir($a, $b, other_ctors.into_iter().flat_map($f).collect::<Vec<_>>(), Ghost(go), Ghost(*ty))
rule: $c.split(ty, vec![].into_iter()) ==> vsplit(&$c, ty, vec![])
requires: tyok(*ty), heads(other_ctors@, *ty)
ensures: forall|k: Key| keyok(*ty, k) ==> #[trigger] covsome(r@, k), forall|j: int| 0 <= j < r.len() ==> sfit(#[trigger] r[j], *ty), forall|j: int, o: int| 0 <= j < r.len() && 0 <= o < other_ctors.len() ==> hom(#[trigger] r[j], #[trigger] other_ctors[o], *ty)
decreases: other_ctors.len(), 0int
entry: let ghost go = other_ctors@; broadcast use {lemma_covsome0, lemma_covsome1, lemma_pow};
loop 0 inv: vacc0.len() == vi0, vs0.len() == options.len(), forall|i: int| 0 <= i < vi0 ==> #[trigger] vacc0[i] == Constructor::Variant(i as usize)
loop 0 end: proof { assert(vacc0@.last() == Constructor::Variant((vi0 - 1) as usize)); }
loop 0 after: proof { assert forall|k: Key| keyok(*ty, k) implies #[trigger] covsome(vacc0@, k) by { if let Key::V(i) = k { assert(cov(vacc0[i], k)); } } }
loop 1 inv: vs1@ == go, ranges(vacc1@), forall|o: int| 0 <= o < vi1 ==> dec(vacc1@, #[trigger] go[o], *ty)
loop 1 start: let ghost gs = vacc1@;
loop 2 inv: vacc1@ =~= gs + vs2@.subrange(0, vi2 as int)
loop 2 after: proof { assert(vacc1@ =~= gs + vs2@); lemma_decs(gs, vs2@, vacc1@, go, vi1 as int, *ty); }
loop 3 inv: vs3@ == go, ranges(vacc3@), forall|o: int| 0 <= o < vi3 ==> dec(vacc3@, #[trigger] go[o], *ty)
loop 3 start: let ghost gs = vacc3@;
loop 4 inv: vacc3@ =~= gs + vs4@.subrange(0, vi4 as int)
loop 4 after: proof { assert(vacc3@ =~= gs + vs4@); lemma_decs(gs, vs4@, vacc3@, go, vi3 as int, *ty); }
@*/
/*@ fn spade-hir-lowering/src/pattern.rs :: Constructor::split as vsplit
sig: (this: &Constructor, ty: &ConcreteType, other_ctors: Vec<Constructor>) -> (r: Vec<Constructor>)
rule: self ==> this
selfty: Constructor
rule: split_int_range($a, $b, other_ctors.flat_map($f)) ==> vsir($a, $b, other_ctors.into_iter().flat_map($f).collect::<Vec<_>>(), Ghost(go), Ghost(*ty))
rule: $c.split(ty, vec![].into_iter()) ==> vsplit(&$c, ty, vec![])
rule: split_wildcard($a, $b) ==> vsplit_wildcard($a, $b)
requires: tyok(*ty), heads(other_ctors@, *ty), *this is Wildcard || (fits(*this, *ty) && (sfit(*this, *ty) || other_ctors.len() == 0))
ensures: forall|k: Key| keyok(*ty, k) && cov(*this, k) ==> #[trigger] covsome(r@, k), forall|j: int| 0 <= j < r.len() ==> icb(#[trigger] r[j], *this) && (*this is Wildcard || sfit(*this, *ty) ==> sfit(r[j], *ty)), forall|j: int, o: int| 0 <= j < r.len() && 0 <= o < other_ctors.len() ==> hom(#[trigger] r[j], #[trigger] other_ctors[o], *ty), (*this matches Constructor::IntRange { min, max } ==> forall|x: int| min@ <= x <= max@ ==> #[trigger] insome(r@, x))
decreases: other_ctors.len(), 1int
entry: let ghost go = other_ctors@; broadcast use {lemma_covsome0, lemma_covsome1};
loop 0 inv: vs0@ == go, ranges(vacc0@), forall|o: int| 0 <= o < vi0 ==> dec(vacc0@, #[trigger] go[o], *ty)
loop 0 start: let ghost gs = vacc0@;
loop 1 inv: vacc0@ =~= gs + vs1@.subrange(0, vi1 as int)
loop 1 after: proof { assert(vacc0@ =~= gs + vs1@); lemma_decs(gs, vs1@, vacc0@, go, vi0 as int, *ty); }
@*/
// ---------------------------------------------------------------- the code: patterns and the analysis
pub open spec fn wildc(p: DeconstructedPattern, ty: ConcreteType) -> bool { p.ctor is Wildcard && p.ty == ty && p.fields.len() == 0 }
/*@ fn spade-hir-lowering/src/pattern.rs :: DeconstructedPattern::wildcard
assoc: yes
selfty: DeconstructedPattern
rettype: DeconstructedPattern
ensures: r.ctor is Wildcard, r.fields.len() == 0, r.ty == *ty
@*/
/*@ fn spade-hir-lowering/src/pattern.rs :: DeconstructedPattern::wild_from_ctor
assoc: yes
selfty: DeconstructedPattern
rettype: DeconstructedPattern
rule: $i.map(Self::wildcard) ==> $i.map(|x| DeconstructedPattern::wildcard(x))
rule: $i.map(DeconstructedPattern::wildcard) ==> $i.map(|x| DeconstructedPattern::wildcard(x))
requires: tyok(*ty), sfit(*ctor, *ty)
ensures: r.ctor == *ctor, r.ty == *ty, r.fields.len() == flds(*ty, ckey(*ctor)).len(), forall|j: int| 0 <= j < r.fields.len() ==> wildc(#[trigger] r.fields[j], flds(*ty, ckey(*ctor))[j])
loop 0 inv: vs0@ == flds(*ty, ckey(*ctor)), vacc0.len() == vi0, forall|j: int| 0 <= j < vi0 ==> wildc(#[trigger] vacc0[j], flds(*ty, ckey(*ctor))[j])
@*/
/*@ fn spade-hir-lowering/src/pattern.rs :: DeconstructedPattern::specialize
rettype: Vec<DeconstructedPattern>
selfty: DeconstructedPattern
requires: tyok(self.ty), sfit(*other_ctor, self.ty)
ensures: self.ctor is Wildcard ==> r.len() == flds(self.ty, ckey(*other_ctor)).len() && forall|j: int| 0 <= j < r.len() ==> wildc(#[trigger] r[j], flds(self.ty, ckey(*other_ctor))[j]), !(self.ctor is Wildcard) ==> r@ == self.fields@
@*/
/*@ fn spade-hir-lowering/src/usefulness.rs :: PatStack::new
assoc: yes
selfty: PatStack
rettype: PatStack
ensures: r.pats == inner
@*/
/*@ fn spade-hir-lowering/src/usefulness.rs :: PatStack::head
requires: self.pats.len() > 0
ensures: *r == self.pats[0]
@*/
/*@ fn spade-hir-lowering/src/usefulness.rs :: PatStack::is_empty
ensures: r == (self.pats.len() == 0)
@*/
/*@ fn spade-hir-lowering/src/usefulness.rs :: PatStack::pop_head
rule: $v.extend_from_slice(&$w[1..]) ==> vextend_from(&mut $v, &$w, 1)
requires: self.pats.len() > 0, tyok(self.pats[0].ty), sfit(*ctor, self.pats[0].ty), wfp(self.pats[0], self.pats[0].ty, false), icb(*ctor, self.pats[0].ctor)
ensures: pop_rel(r.pats@, self.pats@, *ctor)
entry: proof { lemma_icb(*ctor, self.pats[0].ctor, self.pats[0].ty); }
@*/
/*@ fn spade-hir-lowering/src/usefulness.rs :: Matrix::empty
assoc: yes
selfty: Matrix
rettype: Matrix
ensures: r.patterns.len() == 0
@*/
/*@ fn spade-hir-lowering/src/usefulness.rs :: Matrix::rows
rettype: &Vec<PatStack>
ensures: r@ == self.patterns@
@*/
/*@ fn spade-hir-lowering/src/usefulness.rs :: Matrix::push
ensures: final(self).patterns@ == old(self).patterns@.push(new)
@*/
/*@ fn spade-hir-lowering/src/usefulness.rs :: Matrix::specialize
requires: forall|i: int| 0 <= i < self.patterns.len() ==> mrow((#[trigger] self.patterns[i]).pats@, ctor)
ensures: rel(r.patterns@, self.patterns@, ctor, self.patterns.len() as int)
loop 0 inv: rel($a0.patterns@, self.patterns@, ctor, vi0 as int), vs0@ == self.patterns@
loop 0 start: let ghost g0 = result.patterns@; proof { assert(mrow(self.patterns[vi0 - 1].pats@, ctor)); }
loop 0 end: proof { let n = result.patterns@; if n.len() > g0.len() { assert(n.drop_last() =~= g0); } }
@*/
pub open spec fn mrow(row: Seq<DeconstructedPattern>, c: Constructor) -> bool {
    row.len() > 0 && tyok(row[0].ty) && sfit(c, row[0].ty) && wfp(row[0], row[0].ty, false) && compat(c, row[0].ctor)
}
pub open spec fn appr(r: Seq<DeconstructedPattern>, w: Seq<DeconstructedPattern>, c: Constructor, ty: ConcreteType) -> bool {
    let n = flds(ty, ckey(c)).len() as int;
    r.len() == w.len() - n + 1 && (forall|j: int| 0 <= j < w.len() - n ==> #[trigger] r[j] == w[j]) && r.last().ctor == c && r.last().ty == ty
    && r.last().fields@ == w.subrange(w.len() - n, w.len() as int).reverse()
}
/*@ fn spade-hir-lowering/src/usefulness.rs :: Witness::apply_constructor
rule: $v.drain($a..).rev().collect() ==> vdrain_rev(&mut $v, $a)
rettype: Witness
requires: tyok(*ty), sfit(*ctor, *ty), self.0.len() >= flds(*ty, ckey(*ctor)).len()
ensures: appr(r.0@, self.0@, *ctor, *ty)
@*/
/*@ fn spade-hir-lowering/src/usefulness.rs :: Usefulness::new_useful
assoc: yes
selfty: Usefulness
rettype: Usefulness
ensures: r.witnesses.len() == 1, r.witnesses[0].0.len() == 0
@*/
/*@ fn spade-hir-lowering/src/usefulness.rs :: Usefulness::new_useless
assoc: yes
selfty: Usefulness
rettype: Usefulness
ensures: r.witnesses.len() == 0
@*/
/*@ fn spade-hir-lowering/src/usefulness.rs :: Usefulness::is_useful
ensures: r == (self.witnesses.len() > 0)
@*/
pub open spec fn cin(c: Constructor, d: Constructor) -> bool { if d is Missing { d->all_missing@.contains(c) } else { c == d } }
pub open spec fn appsome(r: Seq<DeconstructedPattern>, ws: Seq<Witness>, n: int, c: Constructor, ty: ConcreteType) -> bool { exists|i: int, d: Constructor| 0 <= i < n && cin(d, c) && #[trigger] appr(r, ws[i].0@, d, ty) }
/*@ fn spade-hir-lowering/src/usefulness.rs :: Usefulness::apply_constructor
rettype: Usefulness
selfty: Usefulness
requires: tyok(*ty), sfit(*ctor, *ty), forall|i: int| 0 <= i < self.witnesses.len() ==> (#[trigger] self.witnesses[i]).0.len() >= flds(*ty, ckey(*ctor)).len()
ensures: (r.witnesses.len() == 0) == (self.witnesses.len() == 0), asome(r.witnesses@, self.witnesses@, self.witnesses.len() as int, *ctor, *ty)
entry: let ghost gw = self.witnesses@;
loop 0 inv: vs0@ == gw, asome(vacc0@, gw, vi0 as int, *$1, *ty), vi0 > 0 ==> vacc0.len() > 0
loop 0 start: let ghost gl = vacc0.len();
loop 1 inv: vacc1.len() == vi1, asome(vacc1@, gw, vi0 as int, *$1, *ty), vs1@ == $1->all_missing@
loop 1 start: proof { assert($1->all_missing@.contains(vs1[vi1 - 1])); assert(vs1[vi1 - 1] is Bool); }
loop 1 end: proof { assert(appr(vacc1[vi1 - 1].0@, gw[vi0 - 1].0@, vs1[vi1 - 1], *ty)); }
loop 2 before: proof { assert(asome(vs2@, gw, vi0 as int, *$1, *ty)) by { assert forall|j: int| 0 <= j < vs2.len() implies appsome((#[trigger] vs2[j]).0@, gw, vi0 as int, *$1, *ty) by { if !($1 is Missing) { assert(appr(vs2[j].0@, gw[vi0 - 1].0@, *$1, *ty)); } } } }
loop 2 inv: asome(vacc0@, gw, vi0 as int, *$1, *ty), asome(vs2@, gw, vi0 as int, *$1, *ty), vacc0.len() == gl + vi2, vs2.len() > 0
@*/
pub open spec fn asome(rs: Seq<Witness>, ws: Seq<Witness>, n: int, c: Constructor, ty: ConcreteType) -> bool { forall|j: int| 0 <= j < rs.len() ==> appsome((#[trigger] rs[j]).0@, ws, n, c, ty) }
/*@ fn spade-hir-lowering/src/usefulness.rs :: Usefulness::extend
rule: self.witnesses.extend($o) ==> vextend(&mut self.witnesses, $o)
ensures: final(self).witnesses@ =~= old(self).witnesses@ + other.witnesses@
@*/
pub open spec fn wmat(w: Seq<DeconstructedPattern>, ts: Seq<ConcreteType>, vs: Seq<Val>) -> bool { hast(ts, vs) && stk(w.reverse(), vs) }
/// the witness w is well typed, describes some values, and every value it describes is matched by ps and by no row
pub open spec fn wok(w: Seq<DeconstructedPattern>, ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>) -> bool {
    &&& wfs(w.reverse(), tys(ps), true)
    &&& exists|vs: Seq<Val>| #[trigger] wmat(w, tys(ps), vs)
    &&& forall|vs: Seq<Val>| #[trigger] wmat(w, tys(ps), vs) ==> stk(ps, vs) && !anym(rows, rows.len() as int, vs)
}
pub open spec fn woks(ws: Seq<Witness>, ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>) -> bool { forall|j: int| 0 <= j < ws.len() ==> wok((#[trigger] ws[j]).0@, ps, rows) }
/// every value matched by ps is matched by some row
pub open spec fn nouse(ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>) -> bool { forall|vs: Seq<Val>| hast(tys(ps), vs) && stk(ps, vs) ==> #[trigger] anym(rows, rows.len() as int, vs) }
pub open spec fn nouse1(ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>, s: Constructor) -> bool { forall|vs: Seq<Val>| hast(tys(ps), vs) && stk(ps, vs) && cov(s, vs[0].key) ==> #[trigger] anym(rows, rows.len() as int, vs) }
/// what the analysis is called with
pub open spec fn upre(ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>) -> bool {
    tysok(tys(ps)) && wfs(ps, tys(ps), true) && forall|i: int| 0 <= i < rows.len() ==> wfs((#[trigger] rows[i]).pats@, tys(ps), false)
}
pub open spec fn homs(s: Constructor, rows: Seq<PatStack>, ty: ConcreteType) -> bool { forall|i: int| 0 <= i < rows.len() ==> hom(s, (#[trigger] rows[i]).pats@[0].ctor, ty) }
/// the recursive call is made with well formed arguments
proof fn lemma_step(ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>, s: Constructor, pp: Seq<DeconstructedPattern>, rr: Seq<PatStack>)
    requires ps.len() > 0, upre(ps, rows), sfit(s, ps[0].ty), icb(s, ps[0].ctor), homs(s, rows, ps[0].ty), pop_rel(pp, ps, s), rel(rr, rows, s, rows.len() as int)
    ensures upre(pp, rr), tys(pp) == pty(tys(ps), s)
{
    let ts = tys(ps);
    lemma_pop_wf(pp, ps, s, ts, true);
    assert forall|i: int| 0 <= i < pp.len() implies tys(pp)[i] == pty(ts, s)[i] by { assert(wfp(pp[i], pty(ts, s)[i], true)); }
    assert(tys(pp) =~= pty(ts, s));
    lemma_key(s, ts[0]);
    lemma_fld_ok(ts[0], ckey(s));
    assert forall|i: int| 0 <= i < pp.len() implies tyok(#[trigger] pty(ts, s)[i]) by { let n = flds(ts[0], ckey(s)).len(); if i < n { assert(pty(ts, s)[i] == flds(ts[0], ckey(s))[i]); } else { assert(pty(ts, s)[i] == ts[i - n + 1]); } }
    lemma_rel(rr, rows, s, rows.len() as int, ts);
}
proof fn lemma_down(ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>, s: Constructor, pp: Seq<DeconstructedPattern>, rr: Seq<PatStack>)
    requires ps.len() > 0, upre(ps, rows), sfit(s, ps[0].ty), icb(s, ps[0].ctor), homs(s, rows, ps[0].ty), pop_rel(pp, ps, s), rel(rr, rows, s, rows.len() as int), nouse(pp, rr)
    ensures nouse1(ps, rows, s)
{
    let ts = tys(ps);
    lemma_step(ps, rows, s, pp, rr);
    lemma_rel(rr, rows, s, rows.len() as int, ts);
    assert forall|vs: Seq<Val>| hast(ts, vs) && stk(ps, vs) && cov(s, vs[0].key) implies #[trigger] anym(rows, rows.len() as int, vs) by {
        lemma_pop_match(pp, ps, s, ts, vs, true);
        lemma_pop_ty(ts, vs, s);
        assert(anym(rr, rr.len() as int, popv(vs)));
    }
}
/// the new witness q (first column first): its head has the constructor d and the first n columns of wr as fields
pub open spec fn shape(q: Seq<DeconstructedPattern>, wr: Seq<DeconstructedPattern>, n: int, d: Constructor, ty: ConcreteType) -> bool {
    &&& 0 <= n <= wr.len() && q.len() == wr.len() - n + 1 && q[0].ctor == d && q[0].ty == ty && q[0].fields.len() == n
    &&& forall|j: int| 0 <= j < n ==> #[trigger] q[0].fields[j] == wr[j]
    &&& forall|i: int| 0 < i < q.len() ==> #[trigger] q[i] == wr[n + i - 1]
}
proof fn lemma_shape(r: Seq<DeconstructedPattern>, w: Seq<DeconstructedPattern>, d: Constructor, ty: ConcreteType)
    requires appr(r, w, d, ty), w.len() >= flds(ty, ckey(d)).len(), ensures shape(r.reverse(), w.reverse(), flds(ty, ckey(d)).len() as int, d, ty)
{
    let n = flds(ty, ckey(d)).len() as int; let q = r.reverse(); let wr = w.reverse();
    assert(q[0] == r.last());
    assert(q[0].fields@ == w.subrange(w.len() - n, w.len() as int).reverse());
    assert forall|j: int| 0 <= j < n implies #[trigger] q[0].fields[j] == wr[j] by {}
    assert forall|i: int| 0 < i < q.len() implies #[trigger] q[i] == wr[n + i - 1] by {}
}
/// d is one of the constructors s stands for
proof fn lemma_cin(d: Constructor, s: Constructor, ty: ConcreteType)
    requires cin(d, s), sfit(s, ty), !(s is Wildcard)
    ensures sfit(d, ty), fits(d, ty), cov(s, ckey(d)), keyok(ty, ckey(d)), cov(d, ckey(d)), flds(ty, ckey(d)) == flds(ty, ckey(s)), forall|k: Key| #[trigger] cov(d, k) ==> cov(s, k), !(d is Wildcard), !(d is Missing)
{
    if s is Missing {
        let i = choose|i: int| 0 <= i < s->all_missing@.len() && s->all_missing@[i] == d;
        assert(s->all_missing[i] is Bool);
        assert forall|k: Key| #[trigger] cov(d, k) implies cov(s, k) by { assert(cov1(s->all_missing[i], k)); }
        assert(cov(d, ckey(d)));
    }
    lemma_key(s, ty); lemma_key(d, ty);
}
proof fn lemma_up_wf(q: Seq<DeconstructedPattern>, wr: Seq<DeconstructedPattern>, n: int, d: Constructor, ts: Seq<ConcreteType>)
    requires ts.len() > 0, shape(q, wr, n, d, ts[0]), fits(d, ts[0]), sfit(d, ts[0]), n == flds(ts[0], ckey(d)).len(), wfs(wr, pty(ts, d), true), !(d is Wildcard) ensures wfs(q, ts, true)
{
    let p = pty(ts, d);
    assert forall|i: int| 0 <= i < q.len() implies wfp(#[trigger] q[i], ts[i], true) by {
        if i > 0 { assert(q[i] == wr[n + i - 1]); assert(wfp(wr[n + i - 1], p[n + i - 1], true)); assert(p[n + i - 1] == ts[i]); }
        else { let l = q[0]; assert forall|j: int| 0 <= j < l.fields.len() implies wfp(#[trigger] l.fields[j], flds(ts[0], ckey(d))[j], true) by { assert(wfp(wr[j], p[j], true)); assert(p[j] == flds(ts[0], ckey(d))[j]); } }
    }
}
/// the new witness matches what the old one matches
proof fn lemma_up_match(q: Seq<DeconstructedPattern>, wr: Seq<DeconstructedPattern>, n: int, d: Constructor, ty: ConcreteType, vs: Seq<Val>)
    requires shape(q, wr, n, d, ty), vs.len() == q.len(), vs[0].fs.len() == n, !(d is Wildcard), cov(d, vs[0].key)
    ensures stk(q, vs) == stk(wr, popv(vs))
{
    let us = popv(vs); let l = q[0];
    if stk(wr, us) {
        assert forall|i: int| 0 <= i < q.len() implies pm(#[trigger] q[i], vs[i]) by {
            if i > 0 { assert(us[n + i - 1] == vs[i]); assert(pm(wr[n + i - 1], us[n + i - 1])); }
            else { assert forall|j: int| 0 <= j < l.fields.len() implies pm(#[trigger] l.fields[j], vs[0].fs[j]) by { assert(us[j] == vs[0].fs[j]); assert(pm(wr[j], us[j])); } }
        }
    }
    if stk(q, vs) {
        assert(pm(l, vs[0]));
        assert forall|i: int| 0 <= i < wr.len() implies pm(#[trigger] wr[i], us[i]) by {
            if i >= n { assert(q[i - n + 1] == wr[i]); assert(us[i] == vs[i - n + 1]); assert(pm(q[i - n + 1], vs[i - n + 1])); } else { assert(l.fields[i] == wr[i]); assert(us[i] == vs[0].fs[i]); assert(pm(l.fields[i], vs[0].fs[i])); }
        }
    }
}
/// wrapping a witness in the constructor of the head
proof fn lemma_up(ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>, s: Constructor, pp: Seq<DeconstructedPattern>, rr: Seq<PatStack>, w: Seq<DeconstructedPattern>, d: Constructor, r: Seq<DeconstructedPattern>)
    requires ps.len() > 0, upre(ps, rows), sfit(s, ps[0].ty), icb(s, ps[0].ctor), homs(s, rows, ps[0].ty), pop_rel(pp, ps, s), rel(rr, rows, s, rows.len() as int), wok(w, pp, rr), cin(d, s), appr(r, w, d, ps[0].ty)
    ensures wok(r, ps, rows)
{
    let ts = tys(ps); let ty = ts[0]; let n = flds(ty, ckey(d)).len() as int;
    lemma_step(ps, rows, s, pp, rr);
    lemma_cin(d, s, ty);
    let wr = w.reverse(); let q = r.reverse(); let p = pty(ts, s);
    assert(pty(ts, d) == p);
    lemma_shape(r, w, d, ty);
    lemma_up_wf(q, wr, n, d, ts);
    let us = choose|us: Seq<Val>| #[trigger] wmat(w, p, us);
    let v0 = lemma_push(ts, us, s, ckey(d));
    lemma_up_match(q, wr, n, d, ty, v0);
    assert(wmat(r, ts, v0));
    assert forall|vs: Seq<Val>| #[trigger] wmat(r, ts, vs) implies stk(ps, vs) && !anym(rows, rows.len() as int, vs) by { lemma_up_all(ps, rows, s, pp, rr, w, d, r, vs); }
}
proof fn lemma_up_all(ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>, s: Constructor, pp: Seq<DeconstructedPattern>, rr: Seq<PatStack>, w: Seq<DeconstructedPattern>, d: Constructor, r: Seq<DeconstructedPattern>, vs: Seq<Val>)
    requires ps.len() > 0, upre(ps, rows), sfit(s, ps[0].ty), icb(s, ps[0].ctor), homs(s, rows, ps[0].ty), pop_rel(pp, ps, s), rel(rr, rows, s, rows.len() as int), wok(w, pp, rr), cin(d, s), appr(r, w, d, ps[0].ty), wmat(r, tys(ps), vs)
    ensures stk(ps, vs), !anym(rows, rows.len() as int, vs)
{
    let ts = tys(ps); let ty = ts[0]; let n = flds(ty, ckey(d)).len() as int;
    lemma_step(ps, rows, s, pp, rr);
    lemma_cin(d, s, ty);
    let wr = w.reverse(); let q = r.reverse();
    lemma_shape(r, w, d, ty);
    assert(pm(q[0], vs[0])); assert(hasty(ts[0], vs[0]));
    assert(cov(d, vs[0].key)); assert(cov(s, vs[0].key));
    lemma_key(s, ty);
    lemma_pop_ty(ts, vs, s);
    lemma_up_match(q, wr, n, d, ty, vs);
    assert(wmat(w, tys(pp), popv(vs)));
    lemma_pop_match(pp, ps, s, ts, vs, true);
    lemma_rel(rr, rows, s, rows.len() as int, ts);
    assert(anym(rows, rows.len() as int, vs) == anym(rr, rr.len() as int, popv(vs)));
}
proof fn lemma_ups(ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>, s: Constructor, pp: Seq<DeconstructedPattern>, rr: Seq<PatStack>, ws: Seq<Witness>, rs: Seq<Witness>)
    requires ps.len() > 0, upre(ps, rows), sfit(s, ps[0].ty), icb(s, ps[0].ctor), homs(s, rows, ps[0].ty), pop_rel(pp, ps, s), rel(rr, rows, s, rows.len() as int), woks(ws, pp, rr), asome(rs, ws, ws.len() as int, s, ps[0].ty)
    ensures woks(rs, ps, rows)
{
    assert forall|j: int| 0 <= j < rs.len() implies wok((#[trigger] rs[j]).0@, ps, rows) by {
        let r = rs[j].0@;
        assert(appsome(r, ws, ws.len() as int, s, ps[0].ty));
        let (i, d) = choose|i: int, d: Constructor| 0 <= i < ws.len() && cin(d, s) && #[trigger] appr(r, ws[i].0@, d, ps[0].ty);
        lemma_up(ps, rows, s, pp, rr, ws[i].0@, d, r);
    }
}
proof fn lemma_wits(ws: Seq<Witness>, pp: Seq<DeconstructedPattern>, rr: Seq<PatStack>)
    requires woks(ws, pp, rr), ensures forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).0.len() == pp.len()
{
    assert forall|i: int| 0 <= i < ws.len() implies (#[trigger] ws[i]).0.len() == pp.len() by { assert(wok(ws[i].0@, pp, rr)); }
}
proof fn lemma_cat(a: Seq<Witness>, b: Seq<Witness>, ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>)
    requires woks(a, ps, rows), woks(b, ps, rows), ensures woks(a + b, ps, rows)
{
    assert forall|j: int| 0 <= j < (a + b).len() implies wok((#[trigger] (a + b)[j]).0@, ps, rows) by { if j < a.len() { assert((a + b)[j] == a[j]); } else { assert((a + b)[j] == b[j - a.len()]); } }
}
proof fn lemma_end(ps: Seq<DeconstructedPattern>, rows: Seq<PatStack>, cs: Seq<Constructor>)
    requires ps.len() > 0, upre(ps, rows), forall|k: Key| keyok(ps[0].ty, k) && cov(ps[0].ctor, k) ==> #[trigger] covsome(cs, k), forall|i: int| 0 <= i < cs.len() ==> nouse1(ps, rows, #[trigger] cs[i])
    ensures nouse(ps, rows)
{
    assert forall|vs: Seq<Val>| hast(tys(ps), vs) && stk(ps, vs) implies #[trigger] anym(rows, rows.len() as int, vs) by {
        assert(pm(ps[0], vs[0])); assert(hasty(tys(ps)[0], vs[0]));
        assert(covsome(cs, vs[0].key));
        let j = choose|j: int| 0 <= j < cs.len() && #[trigger] cov(cs[j], vs[0].key);
        assert(nouse1(ps, rows, cs[j]));
    }
}
proof fn lemma_base(rows: Seq<PatStack>)
    ensures rows.len() == 0 ==> wok(Seq::<DeconstructedPattern>::empty(), Seq::<DeconstructedPattern>::empty(), rows),
        rows.len() > 0 && (forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).pats.len() == 0) ==> nouse(Seq::<DeconstructedPattern>::empty(), rows)
{
    let e = Seq::<DeconstructedPattern>::empty();
    assert(wmat(e, tys(e), Seq::<Val>::empty()));
    if rows.len() > 0 && (forall|i: int| 0 <= i < rows.len() ==> (#[trigger] rows[i]).pats.len() == 0) {
        assert forall|vs: Seq<Val>| hast(tys(e), vs) && stk(e, vs) implies #[trigger] anym(rows, rows.len() as int, vs) by { assert(stk(rows[0].pats@, vs)); }
    }
}
proof fn lemma_weak(p: DeconstructedPattern, ty: ConcreteType) requires wfp(p, ty, true) ensures wfp(p, ty, false) decreases p
{
    if !(p.ctor is Wildcard) { assert forall|i: int| 0 <= i < p.fields.len() implies wfp(#[trigger] p.fields[i], flds(ty, ckey(p.ctor))[i], false) by { lemma_weak(p.fields[i], flds(ty, ckey(p.ctor))[i]); } }
}
pub open spec fn compats(s: Constructor, rows: Seq<PatStack>) -> bool { forall|i: int| 0 <= i < rows.len() ==> compat(s, (#[trigger] rows[i]).pats@[0].ctor) }
/*@ fn spade-hir-lowering/src/usefulness.rs :: is_useful as vis_useful
attr: #[verifier::exec_allows_no_decreases_clause]
rule: $v.split($t, $i.map($f)) ==> vsplit($v, $t, $i.map($f).collect::<Vec<_>>())
rule: is_useful($a, $b) ==> vis_useful($a, $b)
requires: upre(pattern.pats@, prev_patterns.patterns@)
ensures: woks(r.witnesses@, pattern.pats@, prev_patterns.patterns@), r.witnesses.len() == 0 ==> nouse(pattern.pats@, prev_patterns.patterns@)
entry: let ghost gp = pattern.pats@; let ghost gr = prev_patterns.patterns@; let ghost mut gv = Seq::<Constructor>::empty(); let ghost gy = if gp.len() > 0 { gp[0].ty } else { arbitrary() }; proof { lemma_base(gr); assert forall|i: int| 0 <= i < gr.len() implies (#[trigger] gr[i]).pats.len() == gp.len() by { assert(wfs(gr[i].pats@, tys(gp), false)); } if gp.len() == 0 { assert(gp =~= Seq::<DeconstructedPattern>::empty()); assert(tys(gp) =~= Seq::<ConcreteType>::empty()); } else { assert(wfp(gp[0], tys(gp)[0], true)); lemma_weak(gp[0], tys(gp)[0]); assert(tyok(tys(gp)[0])); assert forall|i: int| 0 <= i < gr.len() implies wfp((#[trigger] gr[i]).pats[0], gy, false) by { assert(wfs(gr[i].pats@, tys(gp), false)); } } }
before-call new_useful: proof { let r = Usefulness { witnesses: arbitrary() }; assert(gr.len() == 0); assert forall|ws: Seq<Witness>| ws.len() == 1 && ws[0].0.len() == 0 implies #[trigger] woks(ws, gp, gr) by { assert(ws[0].0@ =~= Seq::<DeconstructedPattern>::empty()); } }
loop 0 inv: vs0@ == gr, vacc0.len() == vi0, heads(vacc0@, gy), forall|j: int| 0 <= j < vi0 ==> #[trigger] vacc0[j] == gr[j].pats[0].ctor
loop 0 end: proof { assert(wfp(gr[vi0 - 1].pats[0], gy, false)); }
loop 0 after: proof { gv = vacc0@; }
after-let split_ctors: let ghost gs = split_ctors@; proof { assert forall|i: int| 0 <= i < gs.len() implies homs(#[trigger] gs[i], gr, gy) && compats(gs[i], gr) by { assert(sfit(gs[i], gy)); assert forall|j: int| 0 <= j < gr.len() implies hom(gs[i], (#[trigger] gr[j]).pats@[0].ctor, gy) by { assert(gv[j] == gr[j].pats[0].ctor); } } }
loop 1 inv: vs1@ == gs, woks($a0.witnesses@, gp, gr), $a0.witnesses.len() == 0 ==> forall|i: int| 0 <= i < vi1 ==> nouse1(gp, gr, #[trigger] gs[i])
loop 1 start: let ghost g0 = ret.witnesses@; let ghost gc = gs[vi1 - 1]; proof { assert(homs(gc, gr, gy)); assert(sfit(gc, gy)); assert(icb(gc, gp[0].ctor)); assert forall|i: int| 0 <= i < gr.len() implies mrow((#[trigger] gr[i]).pats@, gc) by { assert(wfp(gr[i].pats[0], gy, false)); } }
after-call pop_head: let ghost gpp = pattern.pats@;
after-call specialize: let ghost grr = specialized.patterns@; proof { lemma_step(gp, gr, gc, gpp, grr); }
after-call vis_useful: let ghost gu = usefulness.witnesses@; proof { lemma_wits(gu, gpp, grr); }
after-call apply_constructor: let ghost ga = usefulness.witnesses@; proof { lemma_ups(gp, gr, gc, gpp, grr, gu, ga); lemma_cat(g0, ga, gp, gr); if gu.len() == 0 { lemma_down(gp, gr, gc, gpp, grr); } }
loop 1 after: proof { if ret.witnesses.len() == 0 { lemma_end(gp, gr, gs); } }
@*/
// ---------------------------------------------------------------- the code: patterns as written
pub mod spade_hir { pub use crate::PatternKind; pub mod symbol_table { pub use crate::PatternableKind; } }
pub mod spade_mir { pub mod types { pub use crate::MType as Type; } }
/// a location is transparent
pub struct Loc<T> { pub inner: T }
impl<T> Loc<T> { pub fn loc(&self) -> (r: u64) { 0 } }
#[derive(Clone, Copy)]
pub struct ExprID(pub u64);
pub struct PatternArgument { pub value: Loc<Pattern> }
/*@ type spade-hir/src/lib.rs :: PatternKind @*/
/*@ type spade-hir/src/lib.rs :: Pattern @*/
/*@ type spade-hir/src/symbol_table.rs :: PatternableKind @*/
pub trait VP { spec fn sp(&self) -> Pattern; fn vp(&self) -> (r: &Pattern) ensures *r == self.sp(); }
impl VP for Loc<Pattern> { open spec fn sp(&self) -> Pattern { self.inner } fn vp(&self) -> (r: &Pattern) { &self.inner } }
impl VP for Pattern { open spec fn sp(&self) -> Pattern { *self } fn vp(&self) -> (r: &Pattern) { self } }
/// the result of type inference and the symbol table: unconstrained functions of the pattern's number and of the name
#[verifier::external_body] pub struct Context { x: u64 }
pub struct Patternable { pub kind: PatternableKind }
pub struct EnumVariant { pub option: usize }
pub enum MType { Enum(u64), Other(u64) }
pub uninterp spec fn ctype(ctx: Context, id: ExprID) -> ConcreteType;
pub uninterp spec fn isstruct(ctx: Context, n: NameID) -> bool;
pub uninterp spec fn optnum(ctx: Context, n: NameID) -> usize;
#[verifier::external_body] pub fn vtype(ctx: &Context, id: ExprID) -> (r: ConcreteType) ensures r == ctype(*ctx, id) { unimplemented!() }
#[verifier::external_body] pub fn vpatternable(ctx: &Context, n: &Loc<NameID>) -> (r: Patternable) ensures (r.kind is Struct) == isstruct(*ctx, n.inner) { unimplemented!() }
#[verifier::external_body] pub fn vvariant(ctx: &Context, n: &Loc<NameID>) -> (r: EnumVariant) ensures r.option == optnum(*ctx, n.inner) { unimplemented!() }
/// the lowered type of an enum is an enum
#[verifier::external_body] pub fn vmir(t: ConcreteType) -> (r: MType) ensures (r is Enum) == (t is Enum) { unimplemented!() }
/// the alternative a written pattern selects and its subpatterns
pub open spec fn pkey(ctx: Context, k: PatternKind) -> Key {
    match k {
        PatternKind::Integer(n) => Key::I(n@),
        PatternKind::Bool(b) => Key::B(b),
        PatternKind::Type(path, args) => if isstruct(ctx, path.inner) { Key::One } else { Key::V(optnum(ctx, path.inner) as int) },
        _ => Key::One,
    }
}
/// the written pattern matches the value
pub open spec fn hm(ctx: Context, p: Pattern, v: Val) -> bool decreases p {
    match p.kind {
        PatternKind::Bound { name, inner: None, .. } => true,
        PatternKind::Bound { name, inner: Some(q), .. } => hm(ctx, q.inner, v),
        PatternKind::Tuple(f) => v.key == pkey(ctx, p.kind) && f.len() == v.fs.len() && forall|i: int| 0 <= i < f.len() ==> hm(ctx, (#[trigger] f[i]).inner, v.fs[i]),
        PatternKind::Array(f) => v.key == pkey(ctx, p.kind) && f.len() == v.fs.len() && forall|i: int| 0 <= i < f.len() ==> hm(ctx, (#[trigger] f[i]).inner, v.fs[i]),
        PatternKind::Type(path, f) => v.key == pkey(ctx, p.kind) && f.len() == v.fs.len() && forall|i: int| 0 <= i < f.len() ==> hm(ctx, (#[trigger] f[i]).value.inner, v.fs[i]),
        _ => v.key == pkey(ctx, p.kind) && v.fs.len() == 0,
    }
}
/// the pattern type checks at the type ty (assumed: what type inference establishes)
pub open spec fn hwf(ctx: Context, p: Pattern, ty: ConcreteType) -> bool decreases p {
    let f = flds(ty, pkey(ctx, p.kind));
    ctype(ctx, p.id) == ty && tyok(ty) && match p.kind {
        PatternKind::Bound { name, inner: None, .. } => true,
        PatternKind::Bound { name, inner: Some(q), .. } => hwf(ctx, q.inner, ty),
        PatternKind::Integer(n) => isint(ty),
        PatternKind::Bool(n) => isbool(ty),
        PatternKind::Tuple(v) => keyok(ty, Key::One) && v.len() == f.len() && forall|i: int| 0 <= i < v.len() ==> hwf(ctx, (#[trigger] v[i]).inner, f[i]),
        PatternKind::Array(v) => keyok(ty, Key::One) && v.len() == f.len() && forall|i: int| 0 <= i < v.len() ==> hwf(ctx, (#[trigger] v[i]).inner, f[i]),
        PatternKind::Type(path, v) => keyok(ty, pkey(ctx, p.kind)) && (!isstruct(ctx, path.inner) ==> ty is Enum) && v.len() == f.len() && forall|i: int| 0 <= i < v.len() ==> hwf(ctx, (#[trigger] v[i]).value.inner, f[i]),
    }
}
/// the translated pattern matches the same values
pub open spec fn same(ctx: Context, p: Pattern, r: DeconstructedPattern, ty: ConcreteType) -> bool {
    wfp(r, ty, false) && forall|v: Val| hasty(ty, v) ==> #[trigger] pm(r, v) == hm(ctx, p, v)
}
pub open spec fn sames(ctx: Context, ps: Seq<Pattern>, rs: Seq<DeconstructedPattern>, f: Seq<ConcreteType>) -> bool { ps.len() == rs.len() && forall|i: int| 0 <= i < ps.len() ==> same(ctx, #[trigger] ps[i], rs[i], f[i]) }
pub open spec fn subs(k: PatternKind) -> Seq<Pattern> {
    match k { PatternKind::Tuple(f) => Seq::new(f.len() as nat, |i: int| f[i].inner), PatternKind::Array(f) => Seq::new(f.len() as nat, |i: int| f[i].inner), PatternKind::Type(n, f) => Seq::new(f.len() as nat, |i: int| f[i].value.inner), _ => Seq::empty() }
}
broadcast proof fn lemma_hwf(ctx: Context, p: Pattern, ty: ConcreteType) requires #[trigger] hwf(ctx, p, ty) ensures ctype(ctx, p.id) == ty, tyok(ty) {}
proof fn lemma_node(ctx: Context, p: Pattern, r: DeconstructedPattern, ty: ConcreteType)
    requires hwf(ctx, p, ty), !(p.kind is Bound), r.ty == ty, fits(r.ctor, ty), ckey(r.ctor) == pkey(ctx, p.kind), forall|k: Key| #[trigger] cov(r.ctor, k) == (k == pkey(ctx, p.kind)), sames(ctx, subs(p.kind), r.fields@, flds(ty, pkey(ctx, p.kind)))
    ensures same(ctx, p, r, ty)
{
    let f = flds(ty, pkey(ctx, p.kind)); let sb = subs(p.kind);
    assert(r.fields.len() == f.len());
    assert forall|i: int| 0 <= i < r.fields.len() implies wfp(#[trigger] r.fields[i], f[i], false) by { assert(same(ctx, sb[i], r.fields[i], f[i])); }
    assert forall|v: Val| hasty(ty, v) implies #[trigger] pm(r, v) == hm(ctx, p, v) by {
        assert(cov(r.ctor, v.key) == (v.key == pkey(ctx, p.kind)));
        if v.key == pkey(ctx, p.kind) {
            assert forall|i: int| 0 <= i < sb.len() implies pm(#[trigger] r.fields[i], v.fs[i]) == hm(ctx, #[trigger] sb[i], v.fs[i]) by { assert(same(ctx, sb[i], r.fields[i], f[i])); assert(hasty(f[i], v.fs[i])); }
            match p.kind {
                PatternKind::Tuple(g) => {
                    if hm(ctx, p, v) { assert forall|i: int| 0 <= i < r.fields.len() implies pm(#[trigger] r.fields[i], v.fs[i]) by { assert(sb[i] == g[i].inner); } }
                    if pm(r, v) { assert forall|i: int| 0 <= i < g.len() implies hm(ctx, (#[trigger] g[i]).inner, v.fs[i]) by { assert(sb[i] == g[i].inner); assert(pm(r.fields[i], v.fs[i])); } }
                },
                PatternKind::Array(g) => {
                    if hm(ctx, p, v) { assert forall|i: int| 0 <= i < r.fields.len() implies pm(#[trigger] r.fields[i], v.fs[i]) by { assert(sb[i] == g[i].inner); } }
                    if pm(r, v) { assert forall|i: int| 0 <= i < g.len() implies hm(ctx, (#[trigger] g[i]).inner, v.fs[i]) by { assert(sb[i] == g[i].inner); assert(pm(r.fields[i], v.fs[i])); } }
                },
                PatternKind::Type(n, g) => {
                    if hm(ctx, p, v) { assert forall|i: int| 0 <= i < r.fields.len() implies pm(#[trigger] r.fields[i], v.fs[i]) by { assert(sb[i] == g[i].value.inner); } }
                    if pm(r, v) { assert forall|i: int| 0 <= i < g.len() implies hm(ctx, (#[trigger] g[i]).value.inner, v.fs[i]) by { assert(sb[i] == g[i].value.inner); assert(pm(r.fields[i], v.fs[i])); } }
                },
                _ => {}
            }
        }
    }
}
proof fn lemma_sub(ctx: Context, p: Pattern, ty: ConcreteType, i: int)
    requires hwf(ctx, p, ty), 0 <= i < subs(p.kind).len(), ensures hwf(ctx, subs(p.kind)[i], flds(ty, pkey(ctx, p.kind))[i]), subs(p.kind).len() == flds(ty, pkey(ctx, p.kind)).len(), decreases_to!(p => subs(p.kind)[i])
{
    match p.kind { PatternKind::Tuple(g) => { assert(hwf(ctx, g[i].inner, flds(ty, pkey(ctx, p.kind))[i])); }, PatternKind::Array(g) => { assert(hwf(ctx, g[i].inner, flds(ty, pkey(ctx, p.kind))[i])); }, PatternKind::Type(n, g) => { assert(hwf(ctx, g[i].value.inner, flds(ty, pkey(ctx, p.kind))[i])); }, _ => {} }
}
pub open spec fn hall(ctx: Context, ps: Seq<Pattern>, f: Seq<ConcreteType>, n: int) -> bool { forall|i: int, v: Val| 0 <= i < n && i < ps.len() && hasty(f[i], v) ==> #[trigger] hm(ctx, ps[i], v) }
proof fn lemma_hall(ctx: Context, p: Pattern, ty: ConcreteType)
    requires hwf(ctx, p, ty), !(p.kind is Bound), !(p.kind is Integer), !(p.kind is Bool), forall|k: Key| #[trigger] keyok(ty, k) ==> k == pkey(ctx, p.kind), hall(ctx, subs(p.kind), flds(ty, pkey(ctx, p.kind)), subs(p.kind).len() as int)
    ensures forall|v: Val| hasty(ty, v) ==> #[trigger] hm(ctx, p, v)
{
    let f = flds(ty, pkey(ctx, p.kind)); let sb = subs(p.kind);
    assert forall|v: Val| hasty(ty, v) implies #[trigger] hm(ctx, p, v) by {
        assert(keyok(ty, v.key));
        match p.kind {
            PatternKind::Tuple(g) => { assert forall|i: int| 0 <= i < g.len() implies hm(ctx, (#[trigger] g[i]).inner, v.fs[i]) by { assert(sb[i] == g[i].inner); assert(hasty(f[i], v.fs[i])); } },
            PatternKind::Array(g) => { assert forall|i: int| 0 <= i < g.len() implies hm(ctx, (#[trigger] g[i]).inner, v.fs[i]) by { assert(sb[i] == g[i].inner); assert(hasty(f[i], v.fs[i])); } },
            PatternKind::Type(n, g) => { assert forall|i: int| 0 <= i < g.len() implies hm(ctx, (#[trigger] g[i]).value.inner, v.fs[i]) by { assert(sb[i] == g[i].value.inner); assert(hasty(f[i], v.fs[i])); } },
            _ => {}
        }
    }
}
/*@ fn spade-hir-lowering/src/pattern.rs :: DeconstructedPattern::from_hir as vfrom_hir
sig: (pat: &Pattern, ctx: &Context) -> (r: DeconstructedPattern)
selfty: DeconstructedPattern
rule: DeconstructedPattern::from_hir($p, ctx) ==> vfrom_hir($p.vp(), ctx)
rule: Self::from_hir($p, ctx) ==> vfrom_hir($p.vp(), ctx)
rule: ctx.types.concrete_type_of_infallible($i, $a, $b) ==> vtype(ctx, $i)
rule: ctx.symtab.symtab().patternable_type_by_id($p) ==> vpatternable(ctx, $p)
rule: ctx.symtab.symtab().enum_variant_by_id($p) ==> vvariant(ctx, $p)
rule: $x.to_mir_type() ==> vmir($x)
requires: hwf(*ctx, *pat, ctype(*ctx, pat.id))
ensures: same(*ctx, *pat, r, ctype(*ctx, pat.id))
decreases: *pat
entry: broadcast use lemma_hwf; let ghost gp = *pat; let ghost gsb = subs(pat.kind); let ghost gf = flds(ctype(*ctx, pat.id), pkey(*ctx, pat.kind)); proof { if let PatternKind::Bound { name, inner: Some(q), pre_declared, wire } = gp.kind { assert(hwf(*ctx, q.inner, ctype(*ctx, gp.id))); assert(ctype(*ctx, q.inner.id) == ctype(*ctx, gp.id)); assert forall|v: Val| #[trigger] hm(*ctx, gp, v) == hm(*ctx, q.inner, v) by {} } }
loop 0 inv: vs0.len() == gsb.len(), forall|j: int| 0 <= j < vs0.len() ==> gsb[j] == (#[trigger] vs0[j]).inner, sames(*ctx, gsb.subrange(0, vi0 as int), vacc0@, gf)
loop 0 start: proof { lemma_sub(*ctx, gp, ctype(*ctx, gp.id), vi0 - 1); }
loop 0 end: proof { assert forall|j: int| 0 <= j < vi0 implies same(*ctx, #[trigger] gsb.subrange(0, vi0 as int)[j], vacc0@[j], gf[j]) by { if j < vi0 - 1 { assert(gsb.subrange(0, vi0 - 1)[j] == gsb[j]); } } }
loop 0 after: proof { assert(gsb.subrange(0, vs0.len() as int) =~= gsb); }
loop 1 inv: vs1.len() == gsb.len(), forall|j: int| 0 <= j < vs1.len() ==> gsb[j] == (#[trigger] vs1[j]).inner, sames(*ctx, gsb.subrange(0, vi1 as int), vacc1@, gf)
loop 1 start: proof { lemma_sub(*ctx, gp, ctype(*ctx, gp.id), vi1 - 1); }
loop 1 end: proof { assert forall|j: int| 0 <= j < vi1 implies same(*ctx, #[trigger] gsb.subrange(0, vi1 as int)[j], vacc1@[j], gf[j]) by { if j < vi1 - 1 { assert(gsb.subrange(0, vi1 - 1)[j] == gsb[j]); } } }
loop 1 after: proof { assert(gsb.subrange(0, vs1.len() as int) =~= gsb); }
loop 2 inv: vs2.len() == gsb.len(), forall|j: int| 0 <= j < vs2.len() ==> gsb[j] == (#[trigger] vs2[j]).value.inner, sames(*ctx, gsb.subrange(0, vi2 as int), vacc2@, gf)
loop 2 start: proof { lemma_sub(*ctx, gp, ctype(*ctx, gp.id), vi2 - 1); }
loop 2 end: proof { assert forall|j: int| 0 <= j < vi2 implies same(*ctx, #[trigger] gsb.subrange(0, vi2 as int)[j], vacc2@[j], gf[j]) by { if j < vi2 - 1 { assert(gsb.subrange(0, vi2 - 1)[j] == gsb[j]); } } }
loop 2 after: proof { assert(gsb.subrange(0, vs2.len() as int) =~= gsb); }
after-let ty: proof { if !(gp.kind is Bound) { lemma_node(*ctx, gp, DeconstructedPattern { ctor, fields, ty }, ty); } }
@*/
/*@ fn spade-hir-lowering/src/lib.rs :: <PatternLocal for Loc>::is_trivially_irrefutable as virref
sig: (this: &Pattern, ctx: &Context) -> (r: bool)
rule: self ==> this
rule: ctx.types.concrete_type_of_infallible($i, $a, $b) ==> vtype(ctx, $i)
rule: $p.is_trivially_irrefutable(ctx) ==> virref($p.vp(), ctx)
rule: inner.as_ref().map(|pat| $e).unwrap_or($d) ==> (match inner { Some(pat) => $e, None => $d })
requires: hwf(*ctx, *this, ctype(*ctx, this.id))
ensures: r ==> forall|v: Val| hasty(ctype(*ctx, this.id), v) ==> #[trigger] hm(*ctx, *this, v)
decreases: *this
entry: broadcast use lemma_hwf; let ghost gp = *this; let ghost gsb = subs(this.kind); let ghost gf = flds(ctype(*ctx, this.id), pkey(*ctx, this.kind)); proof { if let PatternKind::Bound { name, inner: Some(q), pre_declared, wire } = gp.kind { assert(hwf(*ctx, q.inner, ctype(*ctx, gp.id))); assert(ctype(*ctx, q.inner.id) == ctype(*ctx, gp.id)); assert forall|v: Val| #[trigger] hm(*ctx, gp, v) == hm(*ctx, q.inner, v) by {} } } proof { if !(gp.kind is Bound) && !(gp.kind is Integer) && !(gp.kind is Bool) && hall(*ctx, gsb, gf, gsb.len() as int) && (forall|k: Key| #[trigger] keyok(ctype(*ctx, gp.id), k) ==> k == pkey(*ctx, gp.kind)) { lemma_hall(*ctx, gp, ctype(*ctx, gp.id)); } }
loop 0 inv: vs0.len() == gsb.len(), forall|j: int| 0 <= j < vs0.len() ==> gsb[j] == (#[trigger] vs0[j]).inner, vacc0 ==> hall(*ctx, gsb, gf, vi0 as int)
loop 0 after: proof { if vacc0 { assert(hall(*ctx, gsb, gf, gsb.len() as int)); assert forall|k: Key| #[trigger] keyok(ctype(*ctx, gp.id), k) implies k == pkey(*ctx, gp.kind) by {} lemma_hall(*ctx, gp, ctype(*ctx, gp.id)); } }
loop 0 start: proof { lemma_sub(*ctx, gp, ctype(*ctx, gp.id), vi0 - 1); }
loop 1 inv: vs1.len() == gsb.len(), forall|j: int| 0 <= j < vs1.len() ==> gsb[j] == (#[trigger] vs1[j]).value.inner, vacc1 ==> hall(*ctx, gsb, gf, vi1 as int)
loop 1 after: proof { if vacc1 { assert(hall(*ctx, gsb, gf, gsb.len() as int)); assert forall|k: Key| #[trigger] keyok(ctype(*ctx, gp.id), k) implies k == pkey(*ctx, gp.kind) by {} lemma_hall(*ctx, gp, ctype(*ctx, gp.id)); } }
loop 1 start: proof { lemma_sub(*ctx, gp, ctype(*ctx, gp.id), vi1 - 1); }
@*/
/// `patterns.into()`
#[verifier::external_body] pub fn vto_vec(v: &Vec<PatStack>) -> (r: Vec<PatStack>) ensures r@ == v@ { unimplemented!() }
/*@ fn spade-hir-lowering/src/usefulness.rs :: Matrix::new as vmatrix
sig: (patterns: &Vec<PatStack>) -> (r: Matrix)
selfty: Matrix
rule: patterns.into() ==> vto_vec(patterns)
ensures: r.patterns@ == patterns@
@*/
/// a row for a written pattern
pub open spec fn hrow(ctx: Context, p: Pattern, r: PatStack, ty: ConcreteType) -> bool { r.pats.len() == 1 && same(ctx, p, r.pats[0], ty) }
/// every value of the type is matched by one of the patterns
pub open spec fn total(ctx: Context, ps: Seq<Pattern>, ty: ConcreteType) -> bool { forall|v: Val| #[trigger] hasty(ty, v) ==> exists|i: int| 0 <= i < ps.len() && hm(ctx, #[trigger] ps[i], v) }
/// the witness describes values of the type, none of which is matched by any of the patterns
pub open spec fn missing(ctx: Context, ps: Seq<Pattern>, w: Seq<DeconstructedPattern>, ty: ConcreteType) -> bool {
    w.len() == 1 && wfp(w[0], ty, true) && (exists|v: Val| hasty(ty, v) && #[trigger] pm(w[0], v)) && forall|v: Val, i: int| hasty(ty, v) && #[trigger] pm(w[0], v) && 0 <= i < ps.len() ==> !hm(ctx, #[trigger] ps[i], v)
}
proof fn lemma_one(p: DeconstructedPattern, v: Val) ensures stk(seq![p], seq![v]) == pm(p, v) { if pm(p, v) { assert(seq![p][0] == p); } if stk(seq![p], seq![v]) { assert(pm(seq![p][0], seq![v][0])); } }
/// what the analysis of a single column means for the written patterns
proof fn lemma_column(ctx: Context, ps: Seq<Pattern>, rows: Seq<PatStack>, w: Seq<DeconstructedPattern>, ty: ConcreteType, ws: Seq<Witness>)
    requires tyok(ty), w.len() == 1, wildc(w[0], ty), ps.len() == rows.len(), forall|i: int| 0 <= i < rows.len() ==> hrow(ctx, #[trigger] ps[i], rows[i], ty)
    ensures upre(w, rows), woks(ws, w, rows) ==> forall|j: int| 0 <= j < ws.len() ==> missing(ctx, ps, (#[trigger] ws[j]).0@, ty), ws.len() == 0 && nouse(w, rows) ==> total(ctx, ps, ty), woks(ws, w, rows) && ws.len() > 0 ==> !total(ctx, ps, ty)
{
    let ts = tys(w);
    assert forall|i: int| 0 <= i < rows.len() implies wfs((#[trigger] rows[i]).pats@, ts, false) by { assert(hrow(ctx, ps[i], rows[i], ty)); }
    if nouse(w, rows) {
        assert forall|v: Val| #[trigger] hasty(ty, v) implies exists|i: int| 0 <= i < ps.len() && hm(ctx, #[trigger] ps[i], v) by {
            let vs = seq![v];
            assert(hast(ts, vs) && stk(w, vs));
            assert(anym(rows, rows.len() as int, vs));
            let i = choose|i: int| 0 <= i < rows.len() && stk((#[trigger] rows[i]).pats@, vs);
            assert(hrow(ctx, ps[i], rows[i], ty)); assert(pm(rows[i].pats[0], vs[0])); assert(hm(ctx, ps[i], v));
        }
    }
    if woks(ws, w, rows) {
        assert forall|j: int| 0 <= j < ws.len() implies missing(ctx, ps, (#[trigger] ws[j]).0@, ty) by {
            let x = ws[j].0@;
            assert(wok(x, w, rows));
            assert(x.reverse() =~= x); assert(wfp(x.reverse()[0], ts[0], true));
            let us = choose|us: Seq<Val>| #[trigger] wmat(x, ts, us);
            assert(hasty(ts[0], us[0]) && pm(x.reverse()[0], us[0]));
            assert forall|v: Val, i: int| hasty(ty, v) && #[trigger] pm(x[0], v) && 0 <= i < ps.len() implies !hm(ctx, #[trigger] ps[i], v) by {
                let vs = seq![v];
                assert(wmat(x, ts, vs));
                assert(hrow(ctx, ps[i], rows[i], ty));
                if hm(ctx, ps[i], v) { assert(pm(rows[i].pats[0], vs[0])); assert(stk(rows[i].pats@, vs)); assert(anym(rows, rows.len() as int, vs)); }
            }
        }
        if ws.len() > 0 { assert(missing(ctx, ps, ws[0].0@, ty)); let v = choose|v: Val| hasty(ty, v) && #[trigger] pm(ws[0].0@[0], v); if total(ctx, ps, ty) { assert(hasty(ty, v)); let i = choose|i: int| 0 <= i < ps.len() && hm(ctx, #[trigger] ps[i], v); assert(false); } }
    }
}
pub open spec fn one(p: Pattern) -> Seq<Pattern> { seq![p] }
pub open spec fn hrows(ctx: Context, ps: Seq<Pattern>, rows: Seq<PatStack>, ty: ConcreteType) -> bool { ps.len() == rows.len() && forall|i: int| 0 <= i < rows.len() ==> hrow(ctx, #[trigger] ps[i], rows[i], ty) }
/// is_useful, with what it means for the written patterns when a wildcard is asked about
pub fn vcol(w: &PatStack, m: &Matrix, ctx: Ghost<Context>, ps: Ghost<Seq<Pattern>>, ty: Ghost<ConcreteType>) -> (r: Usefulness)
    requires tyok(ty@), w.pats.len() == 1, wildc(w.pats[0], ty@) && hrows(ctx@, ps@, m.patterns@, ty@) || upre(w.pats@, m.patterns@)
    ensures wildc(w.pats[0], ty@) && hrows(ctx@, ps@, m.patterns@, ty@) ==> (forall|j: int| 0 <= j < r.witnesses.len() ==> missing(ctx@, ps@, (#[trigger] r.witnesses[j]).0@, ty@)) && (r.witnesses.len() == 0 <==> total(ctx@, ps@, ty@))
{
    proof { if wildc(w.pats[0], ty@) && hrows(ctx@, ps@, m.patterns@, ty@) { lemma_column(ctx@, ps@, m.patterns@, w.pats@, ty@, Seq::empty()); } }
    let r = vis_useful(w, m);
    proof { if wildc(w.pats[0], ty@) && hrows(ctx@, ps@, m.patterns@, ty@) { lemma_column(ctx@, ps@, m.patterns@, w.pats@, ty@, r.witnesses@); } }
    r
}
proof fn lemma_total1(ctx: Context, p: Pattern, ty: ConcreteType) ensures total(ctx, seq![p], ty) <==> (forall|v: Val| hasty(ty, v) ==> #[trigger] hm(ctx, p, v))
{
    let ps = seq![p];
    assert(ps[0] == p);
    if total(ctx, ps, ty) { assert forall|v: Val| hasty(ty, v) implies #[trigger] hm(ctx, p, v) by { let i = choose|i: int| 0 <= i < ps.len() && hm(ctx, #[trigger] ps[i], v); } }
    if forall|v: Val| hasty(ty, v) ==> #[trigger] hm(ctx, p, v) { assert forall|v: Val| #[trigger] hasty(ty, v) implies exists|i: int| 0 <= i < ps.len() && hm(ctx, #[trigger] ps[i], v) by { assert(hm(ctx, ps[0], v)); } }
}
/*@ fn spade-hir-lowering/src/lib.rs :: <PatternLocal for Loc>::is_refutable as vrefutable
sig: (this: &Pattern, ctx: &Context) -> (r: Usefulness)
rule: self ==> this
rule: ctx.types.concrete_type_of_infallible($i, $a, $b) ==> vtype(ctx, $i)
rule: DeconstructedPattern::from_hir($p, ctx) ==> vfrom_hir($p.vp(), ctx)
rule: is_useful($a, $b) ==> vcol($a, $b, Ghost(*ctx), Ghost(one(*this)), Ghost(ctype(*ctx, this.id)))
rule: usefulness::Matrix::new($a) ==> vmatrix($a)
requires: hwf(*ctx, *this, ctype(*ctx, this.id))
ensures: forall|j: int| 0 <= j < r.witnesses.len() ==> missing(*ctx, seq![*this], (#[trigger] r.witnesses[j]).0@, ctype(*ctx, this.id)), r.witnesses.len() == 0 <==> total(*ctx, seq![*this], ctype(*ctx, this.id))
@*/
#[verifier::external_body] pub fn vdiag() -> (r: u64) { unimplemented!() }
/*@ fn spade-hir-lowering/src/lib.rs :: <PatternLocal for Loc>::check_irrefutable as vcheck_irrefutable
sig: (this: &Pattern, ctx: &Context) -> (r: Result<(), u64>)
rule: self ==> this
rule: $p.is_trivially_irrefutable(ctx) ==> virref($p, ctx)
rule: $p.is_refutable(ctx) ==> vrefutable($p, ctx)
rule: refutable_pattern_diagnostic($a, $b, $c) ==> vdiag()
requires: hwf(*ctx, *this, ctype(*ctx, this.id))
entry: proof { lemma_total1(*ctx, *this, ctype(*ctx, this.id)); }
ensures: r is Ok <==> (forall|v: Val| hasty(ctype(*ctx, this.id), v) ==> #[trigger] hm(*ctx, *this, v))
@*/
// ---------------------------------------------------------------- the code: match
pub struct Expression { pub id: ExprID }
pub enum Why { Types, Missing }
pub type Branch = (Loc<Pattern>, Option<Loc<Expression>>, Loc<Expression>);
pub uninterp spec fn iserr(ty: ConcreteType) -> bool;
#[verifier::external_body] pub fn viserr(t: &ConcreteType) -> (r: bool) ensures r == iserr(*t) { unimplemented!() }
#[verifier::external_body] pub fn vetype(ctx: &Context, e: &Box<Loc<Expression>>) -> (r: Result<ConcreteType, Why>) ensures r matches Ok(t) ==> t == ctype(*ctx, e.inner.id), r matches Err(e) ==> e is Types { unimplemented!() }
#[verifier::external_body] pub fn vmissing() -> (r: Why) ensures r is Missing { unimplemented!() }
/// the patterns of the branches without a condition
pub open spec fn ung(b: Seq<Branch>, n: int) -> Seq<Pattern> decreases n {
    if n <= 0 { Seq::empty() } else if b[n - 1].1 is None { ung(b, n - 1).push(b[n - 1].0.inner) } else { ung(b, n - 1) }
}
proof fn lemma_hrows(ctx: Context, ps: Seq<Pattern>, rows: Seq<PatStack>, ty: ConcreteType, p: Pattern, r: PatStack)
    requires hrows(ctx, ps, rows, ty), hrow(ctx, p, r, ty), ensures hrows(ctx, ps.push(p), rows.push(r), ty)
{
    let qs = ps.push(p); let ss = rows.push(r);
    assert forall|i: int| 0 <= i < ss.len() implies hrow(ctx, #[trigger] qs[i], ss[i], ty) by { if i < ps.len() { assert(qs[i] == ps[i] && ss[i] == rows[i]); } }
}
/// the analysis may be asked about a witness
proof fn lemma_wit_ok(ctx: Context, ps: Seq<Pattern>, rows: Seq<PatStack>, ty: ConcreteType, w: Seq<DeconstructedPattern>)
    requires tyok(ty), hrows(ctx, ps, rows, ty), w.len() == 1, wfp(w[0], ty, true), ensures upre(w, rows)
{
    let ts = tys(w);
    assert(ts[0] == ty);
    assert forall|i: int| 0 <= i < rows.len() implies wfs((#[trigger] rows[i]).pats@, ts, false) by { assert(hrow(ctx, ps[i], rows[i], ty)); }
}
/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as vmatch
arm: ExprKind::Match
until: result.append(operand
tail: Ok(())
sig: (ctx: &Context, operand: &Box<Loc<Expression>>, branches: &Vec<Branch>) -> (r: Result<(), Why>)
rule: ctx.types.concrete_type_of($i, $a, $b) ==> vetype(ctx, $i)
rule: $x.is_error_recursively() ==> viserr(&$x)
rule: DeconstructedPattern::from_hir($p, ctx) ==> vfrom_hir($p.vp(), ctx)
rule: is_useful($a, $b) ==> vcol($a, $b, Ghost(*ctx), Ghost(gps), Ghost(gty))
rule: usefulness::Matrix::new($a) ==> vmatrix($a)
rule: Diagnostic::error($a, $b).primary_label($c) ==> vmissing()
rule: diagnostics.secondary_label($a, $b) ==> vmissing()
rule: diagnostics.add_note($x) ==> vmissing()
rule: format_witnesses($x) ==> vdiag()
requires: tyok(ctype(*ctx, operand.inner.id)), forall|i: int| 0 <= i < branches.len() ==> hwf(*ctx, (#[trigger] branches[i]).0.inner, ctype(*ctx, operand.inner.id))
ensures: r is Ok ==> iserr(ctype(*ctx, operand.inner.id)) || total(*ctx, ung(branches@, branches.len() as int), ctype(*ctx, operand.inner.id)), r == Err::<(), Why>(Why::Missing) ==> !total(*ctx, ung(branches@, branches.len() as int), ctype(*ctx, operand.inner.id))
entry: broadcast use lemma_hwf; let ghost gty = ctype(*ctx, operand.inner.id); let ghost gps = ung(branches@, branches.len() as int);
loop 0 inv: vs0@ == branches@, hrows(*ctx, ung(branches@, vi0 as int), vacc0@, gty)
loop 0 start: let ghost g0 = vacc0@; proof { assert(hwf(*ctx, branches[vi0 - 1].0.inner, gty)); }
loop 0 end: proof { if branches[vi0 - 1].1 is None { let r = vacc0@.last(); assert(vacc0@ =~= g0.push(r)); lemma_hrows(*ctx, ung(branches@, vi0 - 1), g0, gty, branches[vi0 - 1].0.inner, r); } }
loop 1 inv: vs1@ == wildcard_useful.witnesses@, hrows(*ctx, gps, pat_stacks@, gty), diagnostics is Missing
loop 2 inv: vs2@ == branches@, hrows(*ctx, gps, pat_stacks@, gty), diagnostics is Missing
loop 2 start: let ghost g2 = pat_stacks@; proof { assert(hwf(*ctx, branches[vi2 - 1].0.inner, gty)); }
before-call vcol#1: proof { let rr = pat_stacks@; let p = branches[vi2 - 1].0.inner; assert(rr =~= g2.push(rr.last())); lemma_hrows(*ctx, gps, g2, gty, p, rr.last()); assert(missing(*ctx, gps, vs1[vi1 - 1].0@, gty)); lemma_wit_ok(*ctx, gps.push(p), rr, gty, vs1[vi1 - 1].0@); }
loop 2 end: proof { assert(pat_stacks@ =~= g2); }
@*/
} // verus!
fn main() {}
