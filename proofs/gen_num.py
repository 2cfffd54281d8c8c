#!/usr/bin/env python3
"""Generates num.rs: the assumed contracts on num::BigUint / num::BigInt (trusted, external)."""
out=[]
w=out.append
w('''// GENERATED by gen_num.py: assumed contracts on num_bigint::{BigUint, BigInt} (mathematical
// naturals / integers; no overflow). Every item here is an external_body assumption.
pub mod vnum {
use vstd::prelude::*;
use std::ops::*;
use std::cmp::Ordering;
verus! {
#[verifier::external_body]
pub struct BigUint { x: u8 }
#[verifier::external_body]
pub struct BigInt { x: u8 }
impl View for BigUint { type V = nat; uninterp spec fn view(&self) -> nat; }
impl View for BigInt { type V = int; uninterp spec fn view(&self) -> int; }
pub uninterp spec fn bu(n: nat) -> BigUint;
pub uninterp spec fn bi(n: int) -> BigInt;
pub broadcast axiom fn axiom_bu(n: nat) ensures #[trigger] bu(n)@ == n;
pub broadcast axiom fn axiom_bi(n: int) ensures #[trigger] bi(n)@ == n;
pub broadcast axiom fn axiom_bu_ext(a: BigUint) ensures bu(#[trigger] a@) == a;
pub broadcast axiom fn axiom_bi_ext(a: BigInt) ensures bi(#[trigger] a@) == a;
pub broadcast group group_num { axiom_bu, axiom_bi, axiom_bu_ext, axiom_bi_ext }
pub open spec fn pow2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * pow2((n - 1) as nat) } }
/// number of binary digits of n (0 for 0)
pub open spec fn bitlen(n: nat) -> nat decreases n { if n == 0 { 0 } else { 1 + bitlen(n / 2) } }
''')
def unsignedlike(t): return t in('u8','u16','u32','u64','u128','usize')
prims=['u8','u16','u32','u64','u128','usize']
iprims=['i8','i16','i32','i64','i128','isize']
def val(e,t):
    return f'{e}@' if t in('BigUint','BigInt') else f'({e} as int)'
def impl(tr,fn,a,b,outt,req,expr):
    # a,b types possibly refs
    def base(t): return t.lstrip('&')
    w(f'''impl {tr}<{b}> for {a} {{ type Output = {outt};
#[verifier::external_body]
fn {fn}(self, o: {b}) -> (r: {outt})
    {('ensures' )} {expr} {{ unimplemented!() }} }}''')
    sa={'BigUint':'BigUint'}.get(base(a),base(a))
    w(f'''impl vstd::std_specs::ops::{tr}SpecImpl<{b}> for {a} {{
    open spec fn obeys_{fn}_spec() -> bool {{ false }}
    open spec fn {fn}_req(self, o: {b}) -> bool {{ {req} }}
    uninterp spec fn {fn}_spec(self, o: {b}) -> {outt}; }}''')
def combos(t,ps):
    for a in(t,'&'+t):
        for b in(t,'&'+t):
            yield a,b
    for p in ps:
        for a in(t,'&'+t):
            yield a,p
            yield p,a
def v(e,t):
    b=t.lstrip('&')
    if b in('BigUint','BigInt'): return f'({e}@ as int)'
    return f'({e} as int)'
for t,ps in(('BigUint',['u32','u64','usize']),('BigInt',['i32','i64','usize','u64'])):
    conv='as nat' if t=='BigUint' else ''
    for a,b in combos(t,ps):
        sv,ov=v('self',a),v('o',b)
        ref=lambda e:e
        impl('Add','add',a,b,t,'true',f'r@ == ({sv} + {ov})')
        impl('Sub','sub',a,b,t,f'{sv} >= {ov}' if t=='BigUint' else 'true',f'r@ == ({sv} - {ov})')
        impl('Mul','mul',a,b,t,'true',f'r@ == ({sv} * {ov})')
    for a in(t,'&'+t):
        for b in(t,'&'+t):
            sv,ov=v('self',a),v('o',b)
            if t=='BigUint':
                impl('Div','div',a,b,t,f'{ov} != 0',f'r@ == ({sv} / {ov})')
                impl('Rem','rem',a,b,t,f'{ov} != 0',f'r@ == ({sv} % {ov})')
            else:
                # truncated division
                impl('Div','div',a,b,t,f'{ov} != 0',f'r@ == tdiv({sv}, {ov})')
                impl('Rem','rem',a,b,t,f'{ov} != 0',f'r@ == trem({sv}, {ov})')
    for a in(t,'&'+t):
        for p in('u32','u64','usize','i32'):
            sv=v('self',a)
            if t=='BigUint' and p=='i32': pass
            impl('Shl','shl',a,p,t,('o >= 0' if p=='i32' else 'true'),f'r@ == ({sv} * pow2(o as nat))')
            impl('Shr','shr',a,p,t,('o >= 0' if p=='i32' else 'true'),f'r@ == ({sv} / (pow2(o as nat) as int))')
    # bitand with mask: only the mask fact is assumed
    for a in(t,'&'+t):
        for b in(t,'&'+t):
            sv,ov=v('self',a),v('o',b)
            impl('BitAnd','bitand',a,b,t,'true',
                 f'forall|k: nat| #![trigger pow2(k)] {ov} == pow2(k) - 1 ==> r@ == {sv} % (pow2(k) as int)')
for a in('BigInt','&BigInt'):
    w(f'''impl Neg for {a} {{ type Output = BigInt;
#[verifier::external_body]
fn neg(self) -> (r: BigInt) ensures r@ == -self@ {{ unimplemented!() }} }}
impl vstd::std_specs::ops::NegSpecImpl for {a} {{
    open spec fn obeys_neg_spec() -> bool {{ false }}
    open spec fn neg_req(self) -> bool {{ true }}
    uninterp spec fn neg_spec(self) -> BigInt; }}''')
w('''pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn trem(a: int, b: int) -> int { a - b * tdiv(a, b) }
''')
for t in('BigUint','BigInt'):
    w(f'''impl PartialEq for {t} {{
#[verifier::external_body]
fn eq(&self, o: &{t}) -> (r: bool) {{ unimplemented!() }} }}
impl vstd::std_specs::cmp::PartialEqSpecImpl for {t} {{
    open spec fn obeys_eq_spec() -> bool {{ true }}
    open spec fn eq_spec(&self, o: &{t}) -> bool {{ self@ == o@ }} }}
impl PartialOrd for {t} {{
#[verifier::external_body]
fn partial_cmp(&self, o: &{t}) -> (r: Option<Ordering>) {{ unimplemented!() }} }}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for {t} {{
    open spec fn obeys_partial_cmp_spec() -> bool {{ true }}
    open spec fn partial_cmp_spec(&self, o: &{t}) -> Option<Ordering> {{
        if self@ < o@ {{ Some(Ordering::Less) }} else if self@ > o@ {{ Some(Ordering::Greater) }} else {{ Some(Ordering::Equal) }} }} }}
impl {t} {{
#[verifier::external_body]
pub fn zero() -> (r: {t}) ensures r@ == 0 {{ unimplemented!() }}
#[verifier::external_body]
pub fn one() -> (r: {t}) ensures r@ == 1 {{ unimplemented!() }}
#[verifier::external_body]
pub fn pow(&self, e: u32) -> (r: {t}) ensures self@ == 2 ==> r@ == pow2(e as nat) {{ unimplemented!() }}
#[verifier::external_body]
pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) {{ unimplemented!() }}
#[verifier::external_body]
pub fn to_u64(&self) -> (r: Option<u64>) ensures (0 <= self@ <= u64::MAX) ==> r == Some(self@ as u64), !(0 <= self@ <= u64::MAX) ==> r is None {{ unimplemented!() }}
#[verifier::external_body]
pub fn to_u32(&self) -> (r: Option<u32>) ensures (0 <= self@ <= u32::MAX) ==> r == Some(self@ as u32), !(0 <= self@ <= u32::MAX) ==> r is None {{ unimplemented!() }}
#[verifier::external_body]
pub fn to_usize(&self) -> (r: Option<usize>) ensures (0 <= self@ <= usize::MAX) ==> r == Some(self@ as usize), !(0 <= self@ <= usize::MAX) ==> r is None {{ unimplemented!() }}
#[verifier::external_body]
pub fn to_i128(&self) -> (r: Option<i128>) ensures (i128::MIN <= self@ <= i128::MAX) ==> r == Some(self@ as i128), !(i128::MIN <= self@ <= i128::MAX) ==> r is None {{ unimplemented!() }}
#[verifier::external_body]
pub fn bits(&self) -> (r: u64) ensures r as nat == bitlen({'self@' if t=='BigUint' else '(if self@ < 0 { -self@ } else { self@ }) as nat'}) {{ unimplemented!() }}
}}''')
w('''impl BigInt {
#[verifier::external_body]
pub fn to_biguint(&self) -> (r: Option<BigUint>) ensures self@ >= 0 ==> (r matches Some(v) && v@ == self@), self@ < 0 ==> r is None { unimplemented!() }
#[verifier::external_body]
pub fn is_negative(&self) -> (r: bool) ensures r == (self@ < 0) { unimplemented!() }
#[verifier::external_body]
pub fn is_positive(&self) -> (r: bool) ensures r == (self@ > 0) { unimplemented!() }
#[verifier::external_body]
pub fn abs(&self) -> (r: BigInt) ensures r@ == (if self@ < 0 { -self@ } else { self@ }) { unimplemented!() }
}
impl BigUint {
#[verifier::external_body]
pub fn to_bigint(&self) -> (r: Option<BigInt>) ensures r matches Some(v) && v@ == self@ { unimplemented!() }
#[verifier::external_body]
pub fn bigint(&self) -> (r: BigInt) ensures r@ == self@ { unimplemented!() }
}
pub trait ToBig: Sized { spec fn big(self) -> int; 
  fn vbu(self) -> (r: BigUint) ensures self.big() >= 0 ==> r@ == self.big();
  fn vbi(self) -> (r: BigInt) ensures r@ == self.big(); }
''')
for p in prims+iprims+['bool']:
    e = '(if self { 1int } else { 0int })' if p=='bool' else 'self as int'
    w(f'''impl ToBig for {p} {{ open spec fn big(self) -> int {{ {e} }}
#[verifier::external_body] fn vbu(self) -> (r: BigUint) {{ unimplemented!() }}
#[verifier::external_body] fn vbi(self) -> (r: BigInt) {{ unimplemented!() }} }}''')
for p in ('BigUint','BigInt'):
    for a in ('','&'):
        w(f'''impl ToBig for {a}{p} {{ open spec fn big(self) -> int {{ self@ as int }}
#[verifier::external_body] fn vbu(self) -> (r: BigUint) {{ unimplemented!() }}
#[verifier::external_body] fn vbi(self) -> (r: BigInt) {{ unimplemented!() }} }}''')
w('} // verus!\n}')
open('num.rs','w').write('\n'.join(out)+'\n')
