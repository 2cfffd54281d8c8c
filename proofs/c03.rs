//@include core.rs
//@include vmap.rs
/*@ rules
expand: binop, signed_binop, unop
type: FxHashMap ==> VMap<@0,@1>
type: HashMap ==> VMap<@0,@1>
type: String ==> VS
rule: BigUint::from($x) ==> $x.vbu()
rule: BigUint::ZERO ==> BigUint::zero()
rule: $x.clone() ==> $x.vclone()
rule: vzero() ==> BigUint::zero()
rule: $x.map(MirLowerable::to_mir_type) ==> $x.map(|x_| x_.to_mir_type())
rule: $x.expect($m) ==> vexpect($x)
rule: $x.to_owned() ==> vowned($x)
rule: $x.to_string() ==> vdisp(&$x)
rule: types[$k].size() == BigUint::zero() ==> types.at($k).size() == BigUint::zero()
rule: types[$k] ==> *types.at($k)
rule: $x.replace($a, $b) ==> vreplace($x, $a, $b)
rule: $c.collect::<Vec<_>>().join($s) ==> vjoin($c.collect::<Vec<_>>(), $s)
rule: $c.join($s) ==> vjoin($c.collect::<Vec<_>>(), $s)
macro: eprintln ==> ()
macro: panic ==> vdiverge()
macro: assert ==> vassert($1)
macro: unreachable ==> vdiverge()
macro: format ==> __vfmt
@*/
verus! {
broadcast use {group_num, lemma_flog2_pow2, lemma_tagw_is};
global size_of usize == 8;
//@include layout.rs
pub fn vassert(b: bool) requires b { }
// ---------------------------------------------------------------- text
/// decimal digits of a number
pub uninterp spec fn dec(n: nat) -> Seq<char>;
pub trait VDisp { spec fn shown(&self) -> Seq<char>; }
impl VDisp for VS { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VDisp for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VDisp for BigUint { open spec fn shown(&self) -> Seq<char> { dec(self@) } }
impl<T: VDisp + ?Sized> VDisp for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body]
pub fn vdisp<T: VDisp + ?Sized>(x: &T) -> (r: VS) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body]
pub fn vcat(a: VS, b: VS) -> (r: VS) ensures r@ == a@ + b@ { unimplemented!() }

// ---------------------------------------------------------------- the emitted subset of Verilog: syntax
/// a declared signal: its name, its declared width and the value it holds (as an unsigned number)
pub struct Sig { pub n: Seq<char>, pub w: nat, pub v: int }
#[derive(PartialEq, Eq, Structural)]
pub enum Bo { Add, Sub, Mul, Div, Mod, Eq, Ne, Gt, Lt, Ge, Le, Shl, Shr, Sshr, Land, Lor, Band, Bor, Bxor }
pub enum Uo { Neg, Lnot, Bnot, Rand, Ror, Rxor }
pub enum VE {
    Id(Sig),
    /// a sized literal: text, width, value
    Lit(Seq<char>, nat, int),
    Bin(Bo, Box<VE>, Box<VE>),
    Un(Uo, Box<VE>),
    Signed(Box<VE>),
    Cond(Box<VE>, Box<VE>, Box<VE>),
    /// `{a, b}`
    Cat(Box<VE>, Box<VE>),
    /// `{ n { a }}`
    Rep(nat, Box<VE>),
    /// `n'b0`
    Zeros(nat),
    /// `s[hi:0]`
    Low(Sig, nat),
    /// `s[i]`
    Bit(Sig, nat),
    /// `s[i]` with a signal as index
    Pick(Sig, Sig),
    /// `s[i * m +: m]`
    Sel(Sig, Sig, nat),
    /// `s[hi -: w]`
    Down(Sig, nat, nat),
    /// `s[hi:lo]`
    Span(Sig, nat, nat),
    /// `{a, b, ...}`
    Cats(Seq<Sig>),
}
pub open spec fn bo(o: Bo) -> Seq<char> {
    match o {
        Bo::Add => "+"@, Bo::Sub => "-"@, Bo::Mul => "*"@, Bo::Div => "/"@, Bo::Mod => "%"@, Bo::Eq => "=="@, Bo::Ne => "!="@, Bo::Gt => ">"@, Bo::Lt => "<"@,
        Bo::Ge => ">="@, Bo::Le => "<="@, Bo::Shl => "<<"@, Bo::Shr => ">>"@, Bo::Sshr => ">>>"@, Bo::Land => "&&"@, Bo::Lor => "||"@, Bo::Band => "&"@, Bo::Bor => "|"@, Bo::Bxor => "^"@,
    }
}
pub open spec fn uo(o: Uo) -> Seq<char> {
    match o { Uo::Neg => "-"@, Uo::Lnot => "!"@, Uo::Bnot => "~"@, Uo::Rand => "&"@, Uo::Ror => "|"@, Uo::Rxor => "^"@ }
}
/// texts joined by a separator
pub open spec fn jn(v: Seq<Seq<char>>, k: nat, sep: Seq<char>) -> Seq<char> decreases k { if k == 0 { Seq::empty() } else if k == 1 { v[0] } else { jn(v, (k - 1) as nat, sep) + sep + v[k - 1] } }
pub open spec fn names(g: Seq<Sig>) -> Seq<Seq<char>> { Seq::new(g.len(), |i: int| g[i].n) }
pub open spec fn texts(v: Seq<VS>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// width and value of the first k signals side by side, the first one on the most significant side
pub open spec fn cw(g: Seq<Sig>, k: nat) -> nat decreases k { if k == 0 { 0 } else { cw(g, (k - 1) as nat) + g[k - 1].w } }
pub open spec fn cv(g: Seq<Sig>, k: nat) -> int decreases k { if k == 0 { 0 } else { cv(g, (k - 1) as nat) * pow2(g[k - 1].w) + g[k - 1].v } }
/// the text of an expression; every operand of an operator below is a primary, so no parentheses are needed
pub open spec fn show(e: VE) -> Seq<char> decreases e {
    match e {
        VE::Id(s) => s.n,
        VE::Lit(t, _, _) => t,
        VE::Bin(o, a, b) => show(*a) + " "@ + bo(o) + " "@ + show(*b),
        VE::Un(o, a) => uo(o) + show(*a),
        VE::Signed(a) => "$signed("@ + show(*a) + ")"@,
        VE::Cond(c, a, b) => show(*c) + " ? "@ + show(*a) + " : "@ + show(*b),
        VE::Cat(a, b) => "{"@ + show(*a) + ", "@ + show(*b) + "}"@,
        VE::Rep(n, a) => "{ "@ + dec(n) + " { "@ + show(*a) + " }}"@,
        VE::Zeros(n) => dec(n) + "'b0"@,
        VE::Low(s, hi) => s.n + "["@ + dec(hi) + ":0]"@,
        VE::Bit(s, i) => s.n + "["@ + dec(i) + "]"@,
        VE::Pick(s, i) => s.n + "["@ + i.n + "]"@,
        VE::Sel(s, i, m) => s.n + "["@ + i.n + " * "@ + dec(m) + "+:"@ + dec(m) + "]"@,
        VE::Down(s, hi, k) => s.n + "["@ + dec(hi) + "-:"@ + dec(k) + "]"@,
        VE::Span(s, hi, lo) => s.n + "["@ + dec(hi) + ":"@ + dec(lo) + "]"@,
        VE::Cats(g) => "{"@ + jn(names(g), g.len(), ", "@) + "}"@,
    }
}
// ---------------------------------------------------------------- and its meaning (IEEE 1364, clauses 5.4 and 5.5; two-valued)
pub open spec fn mx(a: nat, b: nat) -> nat { if a > b { a } else { b } }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
/// a number reduced to w bits
pub open spec fn md(x: int, w: nat) -> int { x % (pow2(w) as int) }
/// the number a string of w bits stands for in two's complement
pub open spec fn sv(v: int, w: nat) -> int { if w > 0 && v >= pow2((w - 1) as nat) { v - pow2(w) } else { v } }
/// a value of w bits extended to k bits
pub open spec fn ext(v: int, w: nat, k: nat, s: bool) -> int { if s { md(sv(v, w), k) } else { v } }
pub open spec fn rel(o: Bo) -> bool { o == Bo::Eq || o == Bo::Ne || o == Bo::Gt || o == Bo::Lt || o == Bo::Ge || o == Bo::Le }
pub open spec fn sh(o: Bo) -> bool { o == Bo::Shl || o == Bo::Shr || o == Bo::Sshr }
pub open spec fn lg(o: Bo) -> bool { o == Bo::Land || o == Bo::Lor }
pub open spec fn sz(e: VE) -> nat decreases e {
    match e {
        VE::Id(s) => s.w,
        VE::Lit(_, k, _) => k,
        VE::Bin(o, a, b) => if rel(o) || lg(o) { 1 } else if sh(o) { sz(*a) } else { mx(sz(*a), sz(*b)) },
        VE::Un(o, a) => match o { Uo::Neg => sz(*a), Uo::Bnot => sz(*a), _ => 1 },
        VE::Signed(a) => sz(*a),
        VE::Cond(_, a, b) => mx(sz(*a), sz(*b)),
        VE::Cat(a, b) => sz(*a) + sz(*b),
        VE::Rep(n, a) => n * sz(*a),
        VE::Zeros(n) => n,
        VE::Low(_, hi) => hi + 1,
        VE::Bit(_, _) => 1,
        VE::Pick(_, _) => 1,
        VE::Sel(_, _, m) => m,
        VE::Down(_, _, k) => k,
        VE::Span(_, hi, lo) => (hi + 1 - lo) as nat,
        VE::Cats(g) => cw(g, g.len()),
    }
}
pub open spec fn sg(e: VE) -> bool decreases e {
    match e {
        VE::Signed(_) => true,
        VE::Bin(o, a, b) => if rel(o) || lg(o) { false } else if sh(o) { sg(*a) } else { sg(*a) && sg(*b) },
        VE::Un(o, a) => match o { Uo::Neg => sg(*a), Uo::Bnot => sg(*a), _ => false },
        VE::Cond(_, a, b) => sg(*a) && sg(*b),
        _ => false,
    }
}
pub open spec fn bitof(x: int, i: nat) -> int { (x / (pow2(i) as int)) % 2 }
/// bitwise combination of two numbers of w bits
pub open spec fn bits2(o: Bo, x: int, y: int, w: nat) -> int decreases w {
    if w == 0 { 0 } else {
        let i = (w - 1) as nat; let (p, q) = (bitof(x, i), bitof(y, i));
        let b = if o == Bo::Band { p == 1 && q == 1 } else if o == Bo::Bor { p == 1 || q == 1 } else { p != q };
        bits2(o, x, y, i) + b2i(b) * pow2(i)
    }
}
/// parity of the lowest w bits
pub open spec fn parity(x: int, w: nat) -> bool decreases w { if w == 0 { false } else { parity(x, (w - 1) as nat) != (bitof(x, (w - 1) as nat) == 1) } }
/// n copies of an m bit value side by side
pub open spec fn reps(v: int, m: nat, n: nat) -> int decreases n { if n == 0 { 0 } else { reps(v, m, (n - 1) as nat) * pow2(m) + v } }
pub open spec fn num(v: int, w: nat, s: bool) -> int { if s { sv(v, w) } else { v } }
/// value of an expression in a context of w bits which is signed or not
pub open spec fn ev(e: VE, w: nat, s: bool) -> int decreases e {
    match e {
        VE::Id(x) => ext(x.v, x.w, w, s),
        VE::Lit(_, k, v) => ext(v, k, w, s),
        VE::Signed(a) => ext(ev(*a, sz(*a), sg(*a)), sz(*a), w, s),
        VE::Bin(o, a, b) => {
            if rel(o) {
                let k = mx(sz(*a), sz(*b)); let t = sg(*a) && sg(*b);
                let x = num(ev(*a, k, t), k, t); let y = num(ev(*b, k, t), k, t);
                b2i(match o { Bo::Eq => x == y, Bo::Ne => x != y, Bo::Gt => x > y, Bo::Lt => x < y, Bo::Ge => x >= y, _ => x <= y })
            } else if lg(o) {
                let x = ev(*a, sz(*a), sg(*a)) != 0; let y = ev(*b, sz(*b), sg(*b)) != 0;
                b2i(if o == Bo::Land { x && y } else { x || y })
            } else if sh(o) {
                let x = ev(*a, w, s); let k = ev(*b, sz(*b), sg(*b)) as nat;
                match o { Bo::Shl => md(x * pow2(k), w), Bo::Shr => x / (pow2(k) as int), _ => md(num(x, w, s) / (pow2(k) as int), w) }
            } else {
                let x = ev(*a, w, s); let y = ev(*b, w, s);
                match o {
                    Bo::Add => md(x + y, w), Bo::Sub => md(x - y, w), Bo::Mul => md(x * y, w),
                    Bo::Div => md(tdiv(num(x, w, s), num(y, w, s)), w),
                    Bo::Mod => md(trem(num(x, w, s), num(y, w, s)), w),
                    _ => bits2(o, x, y, w),
                }
            }
        }
        VE::Un(o, a) => match o {
            Uo::Neg => md(-ev(*a, w, s), w),
            Uo::Bnot => pow2(w) - 1 - ev(*a, w, s),
            Uo::Lnot => b2i(ev(*a, sz(*a), sg(*a)) == 0),
            Uo::Rand => b2i(ev(*a, sz(*a), sg(*a)) == pow2(sz(*a)) - 1),
            Uo::Ror => b2i(ev(*a, sz(*a), sg(*a)) != 0),
            Uo::Rxor => b2i(parity(ev(*a, sz(*a), sg(*a)), sz(*a))),
        },
        VE::Cond(c, a, b) => if ev(*c, sz(*c), sg(*c)) != 0 { ev(*a, w, s) } else { ev(*b, w, s) },
        VE::Cat(a, b) => ev(*a, sz(*a), sg(*a)) * pow2(sz(*b)) + ev(*b, sz(*b), sg(*b)),
        VE::Rep(n, a) => reps(ev(*a, sz(*a), sg(*a)), sz(*a), n),
        VE::Zeros(_) => 0,
        VE::Low(x, hi) => md(x.v, hi + 1),
        VE::Bit(x, i) => bitof(x.v, i),
        VE::Pick(x, i) => bitof(x.v, i.v as nat),
        // the index is computed in max(width of i, 32) bits
        VE::Sel(x, i, m) => md(x.v / (pow2(md(i.v * m, mx(i.w, 32)) as nat) as int), m),
        VE::Down(x, hi, k) => md(x.v / (pow2((hi + 1 - k) as nat) as int), k),
        VE::Span(x, hi, lo) => md(x.v / (pow2(lo) as int), (hi + 1 - lo) as nat),
        VE::Cats(g) => cv(g, g.len()),
    }
}
/// a select needs a signal with more than one bit and has to stay inside of it
pub open spec fn legal(e: VE) -> bool decreases e {
    match e {
        VE::Id(x) => x.w > 0,
        VE::Lit(_, k, _) => k > 0,
        VE::Zeros(n) => n > 0,
        VE::Signed(a) => legal(*a),
        VE::Bin(_, a, b) => legal(*a) && legal(*b),
        VE::Un(_, a) => legal(*a),
        VE::Cond(c, a, b) => legal(*c) && legal(*a) && legal(*b),
        VE::Cat(a, b) => legal(*a) && legal(*b),
        VE::Rep(n, a) => n > 0 && legal(*a),
        VE::Low(x, hi) => x.w > 1 && hi < x.w,
        VE::Bit(x, i) => x.w > 1 && i < x.w,
        VE::Pick(x, i) => x.w > 1 && i.w > 0,
        VE::Sel(x, i, m) => x.w > 1 && i.w > 0 && 0 < m <= x.w,
        VE::Down(x, hi, k) => x.w > 1 && hi < x.w && 0 < k <= hi + 1,
        VE::Span(x, hi, lo) => x.w > 1 && lo <= hi < x.w,
        VE::Cats(g) => g.len() > 0 && forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).w > 0,
    }
}
/// the value a signal of r bits holds after `assign x = e`
pub open spec fn asg(e: VE, r: nat) -> int { md(ev(e, mx(r, sz(e)), sg(e)), r) }
pub open spec fn ok(s: Sig) -> bool { 0 <= s.v < pow2(s.w) }
pub open spec fn id(s: Sig) -> Box<VE> { Box::new(VE::Id(s)) }
pub open spec fn sid(s: Sig) -> Box<VE> { Box::new(VE::Signed(id(s))) }

// ---------------------------------------------------------------- lemmas
proof fn l_md(x: int, w: nat) ensures 0 <= md(x, w) < pow2(w), pow2(w) > 0
{ lemma_pow2_pos(w); vstd::arithmetic::div_mod::lemma_mod_bound(x, pow2(w) as int); }
proof fn l_small(x: int, w: nat) requires 0 <= x < pow2(w) ensures md(x, w) == x
{ vstd::arithmetic::div_mod::lemma_small_mod(x as nat, pow2(w)); }
/// reduction to fewer bits forgets a reduction to more bits
proof fn l_mdmd(x: int, w: nat, r: nat) requires r <= w ensures md(md(x, w), r) == md(x, r)
{
    lemma_pow2_pos(r); lemma_pow2_pos((w - r) as nat); lemma_pow2_add(r, (w - r) as nat);
    vstd::arithmetic::div_mod::lemma_mod_mod(x, pow2(r) as int, pow2((w - r) as nat) as int);
}
proof fn l_half(w: nat) requires w > 0 ensures pow2(w) == 2 * pow2((w - 1) as nat), pow2((w - 1) as nat) > 0 { lemma_pow2_pos((w - 1) as nat); }
proof fn l_mono(a: nat, b: nat) requires a <= b ensures pow2(a) <= pow2(b) { if a < b { lemma_pow2_mono(a, b); } }
proof fn l_svr(v: int, w: nat) requires 0 <= v < pow2(w), w > 0
    ensures -(pow2((w - 1) as nat) as int) <= sv(v, w) < pow2((w - 1) as nat), md(sv(v, w), w) == v
{
    l_half(w);
    if v >= pow2((w - 1) as nat) {
        vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(v - pow2(w), pow2(w) as int);
        l_small(v, w);
    } else { l_small(v, w); }
}
/// a number in the signed range is what its w bits stand for
proof fn l_svmd(x: int, w: nat) requires w > 0, -(pow2((w - 1) as nat) as int) <= x < pow2((w - 1) as nat) ensures sv(md(x, w), w) == x
{
    l_half(w);
    if x >= 0 { l_small(x, w); } else {
        vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(x, pow2(w) as int);
        l_small(x + pow2(w), w);
    }
}
/// sign extension keeps the number
proof fn l_ext(v: int, w: nat, k: nat) requires 0 <= v < pow2(w), 0 < w <= k
    ensures sv(ext(v, w, k, true), k) == sv(v, w), 0 <= ext(v, w, k, true) < pow2(k)
{
    l_svr(v, w); l_mono((w - 1) as nat, (k - 1) as nat); l_svmd(sv(v, w), k); l_md(sv(v, w), k);
}
proof fn l_uext(v: int, w: nat, k: nat) requires 0 <= v < pow2(w), w <= k ensures ext(v, w, k, false) == v, 0 <= v < pow2(k) { l_mono(w, k); }

pub open spec fn one(s: bool, a: Sig) -> Box<VE> { if s { sid(a) } else { id(a) } }
/// the number an operand stands for
pub open spec fn n(s: bool, a: Sig) -> int { num(a.v, a.w, s) }
pub open spec fn bin(o: Bo, s: bool, a: Sig, b: Sig) -> VE { VE::Bin(o, one(s, a), one(s, b)) }
proof fn l_one(s: bool, a: Sig, k: nat) requires ok(a), 0 < a.w <= k
    ensures ev(*one(s, a), k, s) == md(n(s, a), k), num(ev(*one(s, a), k, s), k, s) == n(s, a), sz(*one(s, a)) == a.w, sg(*one(s, a)) == s, legal(*one(s, a)),
        ev(*one(s, a), a.w, s) == a.v,
{
    reveal_with_fuel(ev, 3); reveal_with_fuel(sz, 3); reveal_with_fuel(sg, 3); reveal_with_fuel(legal, 3);
    l_uext(a.v, a.w, k); l_uext(a.v, a.w, a.w); l_small(a.v, k); l_small(a.v, a.w);
    if s { l_ext(a.v, a.w, k); l_svr(a.v, a.w); }
}
proof fn l_b(b: bool) ensures md(b2i(b), 1) == b2i(b) { assert(pow2(1) == 2) by { reveal_with_fuel(pow2, 2); } l_small(b2i(b), 1); }
/// sum, difference and product: exact, then reduced to the width of the result
proof fn l_arith(o: Bo, s: bool, a: Sig, b: Sig, r: nat)
    requires ok(a), ok(b), a.w > 0, b.w > 0, r > 0, o == Bo::Add || o == Bo::Sub || o == Bo::Mul
    ensures legal(bin(o, s, a, b)), asg(bin(o, s, a, b), r) == md(match o { Bo::Add => n(s, a) + n(s, b), Bo::Sub => n(s, a) - n(s, b), _ => n(s, a) * n(s, b) }, r)
{
    reveal_with_fuel(ev, 4); reveal_with_fuel(sz, 4); reveal_with_fuel(sg, 4); reveal_with_fuel(legal, 4);

    let e = bin(o, s, a, b); let k = mx(r, sz(e)); let m = pow2(k) as int; l_md(0, k);
    l_one(s, a, k); l_one(s, b, k);
    let (x, y) = (n(s, a), n(s, b));
    vstd::arithmetic::div_mod::lemma_add_mod_noop(x, y, m); vstd::arithmetic::div_mod::lemma_sub_mod_noop(x, y, m); vstd::arithmetic::div_mod::lemma_mul_mod_noop(x, y, m);
    l_mdmd(x + y, k, r); l_mdmd(x - y, k, r); l_mdmd(x * y, k, r);
}
/// quotient towards zero and the remainder that goes with it
proof fn l_div(o: Bo, s: bool, a: Sig, b: Sig, r: nat)
    requires ok(a), ok(b), a.w > 0, b.w > 0, r > 0, o == Bo::Div || o == Bo::Mod
    ensures legal(bin(o, s, a, b)), asg(bin(o, s, a, b), r) == md(if o == Bo::Div { tdiv(n(s, a), n(s, b)) } else { trem(n(s, a), n(s, b)) }, r)
{
    reveal_with_fuel(ev, 4); reveal_with_fuel(sz, 4); reveal_with_fuel(sg, 4); reveal_with_fuel(legal, 4);

    let e = bin(o, s, a, b); let k = mx(r, sz(e));
    l_one(s, a, k); l_one(s, b, k);
    l_mdmd(tdiv(n(s, a), n(s, b)), k, r); l_mdmd(trem(n(s, a), n(s, b)), k, r);
}
pub open spec fn cmp(o: Bo, x: int, y: int) -> bool { match o { Bo::Eq => x == y, Bo::Ne => x != y, Bo::Gt => x > y, Bo::Lt => x < y, Bo::Ge => x >= y, _ => x <= y } }
proof fn l_rel(o: Bo, s: bool, a: Sig, b: Sig)
    requires ok(a), ok(b), a.w > 0, b.w > 0, rel(o)
    ensures legal(bin(o, s, a, b)), asg(bin(o, s, a, b), 1) == b2i(cmp(o, n(s, a), n(s, b)))
{
    reveal_with_fuel(ev, 4); reveal_with_fuel(sz, 4); reveal_with_fuel(sg, 4); reveal_with_fuel(legal, 4);

    let k = mx(a.w, b.w); l_one(s, a, k); l_one(s, b, k); l_b(cmp(o, n(s, a), n(s, b)));
}
proof fn l_logic(o: Bo, a: Sig, b: Sig)
    requires ok(a), ok(b), a.w == 1, b.w == 1, lg(o)
    ensures legal(bin(o, false, a, b)), asg(bin(o, false, a, b), 1) == b2i(if o == Bo::Land { a.v == 1 && b.v == 1 } else { a.v == 1 || b.v == 1 })
{
    reveal_with_fuel(ev, 4); reveal_with_fuel(sz, 4); reveal_with_fuel(sg, 4); reveal_with_fuel(legal, 4);

    assert(pow2(1) == 2) by { reveal_with_fuel(pow2, 2); }
    l_one(false, a, 1); l_one(false, b, 1); l_b(true); l_b(false);
}
proof fn l_shift(o: Bo, s: bool, a: Sig, b: Sig, r: nat)
    requires ok(a), ok(b), a.w > 0, b.w > 0, r > 0, sh(o)
    ensures legal(bin(o, s, a, b)), asg(bin(o, s, a, b), r) == md(match o {
        Bo::Shl => n(s, a) * pow2(b.v as nat), Bo::Shr => ev(*one(s, a), mx(r, a.w), s) / (pow2(b.v as nat) as int), _ => n(s, a) / (pow2(b.v as nat) as int) }, r)
{
    reveal_with_fuel(ev, 4); reveal_with_fuel(sz, 4); reveal_with_fuel(sg, 4); reveal_with_fuel(legal, 4);

    let e = bin(o, s, a, b); let k = mx(r, sz(e)); let m = pow2(k) as int; l_md(0, k); let p = pow2(b.v as nat) as int;
    l_one(s, a, k); l_one(s, b, b.w);
    vstd::arithmetic::div_mod::lemma_mul_mod_noop_left(n(s, a), p, m);
    l_mdmd(n(s, a) * p, k, r); l_mdmd(n(s, a) / p, k, r);
}
proof fn l_bits2(o: Bo, x: int, y: int, w: nat) ensures 0 <= bits2(o, x, y, w) < pow2(w) decreases w
{ lemma_pow2_pos(w); if w > 0 { l_bits2(o, x, y, (w - 1) as nat); l_half(w); let p = pow2((w - 1) as nat) as int;
    assert(0 <= b2i(true) * p <= p && b2i(false) * p == 0) by(nonlinear_arith) requires p > 0, b2i(true) == 1, b2i(false) == 0; } }
/// bit by bit
proof fn l_bitwise(o: Bo, a: Sig, b: Sig, r: nat)
    requires ok(a), ok(b), a.w == r, b.w == r, r > 0, o == Bo::Band || o == Bo::Bor || o == Bo::Bxor
    ensures legal(bin(o, false, a, b)), asg(bin(o, false, a, b), r) == bits2(o, a.v, b.v, r)
{
    reveal_with_fuel(ev, 4); reveal_with_fuel(sz, 4); reveal_with_fuel(sg, 4); reveal_with_fuel(legal, 4);

    l_one(false, a, r); l_one(false, b, r); l_bits2(o, a.v, b.v, r); l_small(bits2(o, a.v, b.v, r), r);
}
pub open spec fn un(o: Uo, a: Sig) -> VE { VE::Un(o, id(a)) }
proof fn l_un(o: Uo, a: Sig, r: nat)
    requires ok(a), a.w > 0, match o { Uo::Neg => r == a.w, Uo::Bnot => r == a.w, _ => r == 1 }
    ensures legal(un(o, a)), asg(un(o, a), r) == (match o {
        Uo::Neg => md(-sv(a.v, a.w), r), Uo::Bnot => pow2(r) - 1 - a.v, Uo::Lnot => b2i(a.v == 0), Uo::Rand => b2i(a.v == pow2(a.w) - 1), Uo::Ror => b2i(a.v != 0), Uo::Rxor => b2i(parity(a.v, a.w)) })
{
    reveal_with_fuel(ev, 4); reveal_with_fuel(sz, 4); reveal_with_fuel(sg, 4); reveal_with_fuel(legal, 4);

    l_one(false, a, a.w); l_b(true); l_b(false); l_md(-a.v, r);
    match o {
        Uo::Neg => { l_mdmd(-a.v, r, r); if sv(a.v, a.w) != a.v { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(-a.v, pow2(r) as int); } }
        Uo::Bnot => { l_small(pow2(r) - 1 - a.v, r); }
        _ => {}
    }
}
proof fn l_cond(c: Sig, a: Sig, b: Sig, r: nat)
    requires ok(a), ok(b), ok(c), c.w == 1, a.w == r, b.w == r, r > 0
    ensures legal(VE::Cond(id(c), id(a), id(b))), asg(VE::Cond(id(c), id(a), id(b)), r) == (if c.v == 1 { a.v } else { b.v })
{
    reveal_with_fuel(ev, 4); reveal_with_fuel(sz, 4); reveal_with_fuel(sg, 4); reveal_with_fuel(legal, 4);

    assert(pow2(1) == 2) by { reveal_with_fuel(pow2, 2); }
    l_one(false, c, 1); l_one(false, a, r); l_one(false, b, r); l_small(a.v, r); l_small(b.v, r);
}
pub open spec fn e_trunc(a: Sig, r: nat) -> VE { if r == 1 && a.w == 1 { VE::Id(a) } else { VE::Low(a, (r - 1) as nat) } }
proof fn l_trunc(a: Sig, r: nat) requires ok(a), 0 < r <= a.w ensures asg(e_trunc(a, r), r) == md(a.v, r), a.w > 1 ==> legal(e_trunc(a, r))
{
    reveal_with_fuel(ev, 4); reveal_with_fuel(sz, 4); reveal_with_fuel(sg, 4); reveal_with_fuel(legal, 4);
 l_mdmd(a.v, r, r); l_one(false, a, a.w); l_small(a.v, a.w); }
// ---- extension
proof fn l_top(v: int, w: nat) requires 0 <= v < pow2(w), w > 0 ensures bitof(v, (w - 1) as nat) == b2i(v >= pow2((w - 1) as nat))
{
    let p = pow2((w - 1) as nat) as int; l_half(w);
    if v >= p { assert(v / p == 1) by(nonlinear_arith) requires p <= v < 2 * p, p > 0; } else { assert(v / p == 0) by(nonlinear_arith) requires 0 <= v < p; }
}
proof fn l_reps(v: int, n: nat) requires v == 0 || v == 1 ensures reps(v, 1, n) == v * (pow2(n) - 1) decreases n
{
    assert(pow2(1) == 2 && pow2(0) == 1) by { reveal_with_fuel(pow2, 2); }
    if n > 0 { l_reps(v, (n - 1) as nat); l_half(n);
        assert(reps(v, 1, n) == reps(v, 1, (n - 1) as nat) * 2 + v);
    }
}
pub open spec fn sbit(a: Sig) -> VE { if a.w == 1 { VE::Id(a) } else { VE::Bit(a, (a.w - 1) as nat) } }
pub open spec fn e_sext(a: Sig, r: nat) -> VE {
    if a.w == 0 { VE::Zeros(r) } else if r <= a.w { VE::Id(a) }
    else if r == a.w + 1 { VE::Cat(Box::new(sbit(a)), id(a)) } else { VE::Cat(Box::new(VE::Rep((r - a.w) as nat, Box::new(sbit(a)))), id(a)) }
}
proof fn l_sbit(a: Sig) requires ok(a), a.w > 0 ensures legal(sbit(a)), sz(sbit(a)) == 1, !sg(sbit(a)), ev(sbit(a), 1, false) == b2i(a.v >= pow2((a.w - 1) as nat))
{
    reveal_with_fuel(ev, 4); reveal_with_fuel(sz, 4); reveal_with_fuel(sg, 4); reveal_with_fuel(legal, 4);
    assert(pow2(1) == 2 && pow2(0) == 1) by { reveal_with_fuel(pow2, 2); }
    l_one(false, a, a.w); l_top(a.v, a.w); l_half(a.w);
}
/// the sign bit copied in front
proof fn l_sextb(a: Sig, r: nat) requires ok(a), 0 < a.w < r
    ensures legal(e_sext(a, r)), sz(e_sext(a, r)) == r, !sg(e_sext(a, r)), ev(e_sext(a, r), r, false) == b2i(a.v >= pow2((a.w - 1) as nat)) * (pow2((r - a.w) as nat) - 1) * pow2(a.w) + a.v
{
    let e = e_sext(a, r); let s = sbit(a); let t = b2i(a.v >= pow2((a.w - 1) as nat)); let k = (r - a.w) as nat;
    assert(pow2(1) == 2 && pow2(0) == 1) by { reveal_with_fuel(pow2, 2); }
    l_sbit(a); l_reps(t, k); l_one(false, a, a.w); 
    assert(k * 1 == k);
    if k == 1 {
        assert(e == VE::Cat(Box::new(s), id(a)));
        assert(ev(e, r, false) == ev(s, sz(s), sg(s)) * pow2(sz(*id(a))) + ev(*id(a), sz(*id(a)), sg(*id(a))));
    } else {
        let p = VE::Rep(k, Box::new(s));
        assert(e == VE::Cat(Box::new(p), id(a)));
        assert(sz(p) == k * sz(s)); assert(!sg(p)); assert(legal(p));
        assert(ev(p, k, false) == reps(ev(s, sz(s), sg(s)), sz(s), k));
        assert(ev(e, r, false) == ev(p, sz(p), sg(p)) * pow2(sz(*id(a))) + ev(*id(a), sz(*id(a)), sg(*id(a))));
    }
}
proof fn l_sext(a: Sig, r: nat) requires ok(a), a.w <= r, r > 0 ensures legal(e_sext(a, r)), asg(e_sext(a, r), r) == md(sv(a.v, a.w), r)
{
    let e = e_sext(a, r);
    assert(pow2(0) == 1);
    lemma_pow2_pos(r); l_small(0, r);
    if a.w == 0 {
        assert(ev(e, r, false) == 0);
    } else if r == a.w {
        l_one(false, a, a.w); l_svr(a.v, a.w); l_small(a.v, a.w);
    } else {
        let k = (r - a.w) as nat; let t = b2i(a.v >= pow2((a.w - 1) as nat));
        l_sextb(a, r); lemma_pow2_add(k, a.w); l_half(a.w);
        let (pk, pw) = (pow2(k) as int, pow2(a.w) as int);
        assert(pow2(r) == pk * pw);
        if t == 1 {
            assert(1 * (pk - 1) * pw == pk * pw - pw) by(nonlinear_arith);
            vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(a.v - pw, pow2(r) as int);
        } else {
            assert(0 * (pk - 1) * pw == 0) by(nonlinear_arith);
        }
    }
}
pub open spec fn e_zext(a: Sig, r: nat) -> VE { if a.w == 0 { VE::Zeros(r) } else if r <= a.w { VE::Id(a) } else { VE::Cat(Box::new(VE::Zeros((r - a.w) as nat)), id(a)) } }
proof fn l_zext(a: Sig, r: nat) requires ok(a), a.w <= r, r > 0 ensures legal(e_zext(a, r)), asg(e_zext(a, r), r) == a.v
{
    reveal_with_fuel(ev, 4); reveal_with_fuel(sz, 4); reveal_with_fuel(sg, 4); reveal_with_fuel(legal, 4);

    assert(pow2(0) == 1); lemma_pow2_pos(r); l_small(0, r); l_mono(a.w, r); l_small(a.v, r); if a.w > 0 { l_one(false, a, a.w); }
}

/// comparison of two signals of the same, possibly zero, width: zero width signals do not exist in the Verilog
pub open spec fn rele(o: Bo, s: bool, a: Sig, b: Sig) -> VE {
    if a.w > 0 { bin(o, s, a, b) } else if o == Bo::Eq || o == Bo::Ge || o == Bo::Le { VE::Lit("1'b1"@, 1, 1) } else { VE::Lit("1'b0"@, 1, 0) }
}
proof fn l_rele(o: Bo, s: bool, a: Sig, b: Sig) requires ok(a), ok(b), a.w == b.w, rel(o)
    ensures legal(rele(o, s, a, b)), asg(rele(o, s, a, b), 1) == b2i(cmp(o, n(s, a), n(s, b)))
{ if a.w > 0 { l_rel(o, s, a, b); } else { l_b(true); l_b(false); assert(pow2(0) == 1); } }
pub open spec fn rede(o: Uo, a: Sig) -> VE {
    if a.w > 0 { un(o, a) } else if o is Rand { VE::Lit("1'b1"@, 1, 1) } else { VE::Lit("1'b0"@, 1, 0) }
}
proof fn l_rede(o: Uo, a: Sig) requires ok(a), o is Rand || o is Ror || o is Rxor
    ensures legal(rede(o, a)), asg(rede(o, a), 1) == b2i(match o { Uo::Rand => a.v == pow2(a.w) - 1, Uo::Ror => a.v != 0, _ => parity(a.v, a.w) })
{ if a.w > 0 { l_un(o, a, 1); } else { l_b(true); l_b(false); assert(pow2(0) == 1); } }
pub open spec fn nohash(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '#' }
proof fn l_lits()
    ensures ") "@ =~= ")"@ + " "@, " $signed("@ =~= " "@ + "$signed("@, ":0]"@ =~= ":0]"@
{ reveal_strlit(") "); reveal_strlit(")"); reveal_strlit(" "); reveal_strlit(" $signed("); reveal_strlit("$signed("); }
proof fn l_show(o: Bo, s: bool, a: Sig, b: Sig)
    ensures show(bin(o, s, a, b)) =~= (if s { "$signed("@ + a.n + ") "@ + bo(o) + " $signed("@ + b.n + ")"@ } else { a.n + " "@ + bo(o) + " "@ + b.n })
{ reveal_with_fuel(show, 4); l_lits(); }
/// `s.replace(f, t)` for a pattern of two different characters
pub open spec fn repl(s: Seq<char>, f: Seq<char>, t: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() < 2 { s } else if s[0] == f[0] && s[1] == f[1] { t + repl(s.skip(2), f, t) } else { seq![s[0]] + repl(s.skip(1), f, t) }
}
#[verifier::external_body]
pub fn vreplace(s: VS, f: &str, t: &str) -> (r: VS) requires f@.len() == 2, f@[0] != f@[1] ensures r@ == repl(s@, f@, t@) { unimplemented!() }
/// decimal numbers consist of digits
#[verifier::external_body]
proof fn ax_dec(k: nat) ensures nohash(dec(k)) { }
proof fn l_clean(x: Seq<char>, y: Seq<char>, f: Seq<char>, t: Seq<char>) requires nohash(x), f.len() == 2, f[0] == '#'
    ensures repl(x + y, f, t) =~= x + repl(y, f, t) decreases x.len()
{
    if x.len() > 0 {
        assert(nohash(x.skip(1))); l_clean(x.skip(1), y, f, t);
        assert((x + y).skip(1) =~= x.skip(1) + y); assert(x =~= seq![x[0]] + x.skip(1)); assert((x + y)[0] == x[0]);
        if (x + y).len() < 2 { assert(y =~= Seq::empty()); assert(x.skip(1) =~= Seq::empty()); assert(repl(y, f, t) =~= y); }
    } else { assert(x + y =~= y); }
}
proof fn l_hit(f: Seq<char>, y: Seq<char>, t: Seq<char>) requires f.len() == 2 ensures repl(f + y, f, t) =~= t + repl(y, f, t)
{ assert((f + y).skip(2) =~= y); }
proof fn l_miss(g: Seq<char>, y: Seq<char>, f: Seq<char>, t: Seq<char>) requires f.len() == 2, g.len() == 2, g[0] == '#', f[0] == '#', g[1] != f[1], g[1] != '#' ensures repl(g + y, f, t) =~= g + repl(y, f, t)
{
    let z = seq![g[1]]; assert((g + y).skip(1) =~= z + y); l_clean(z, y, f, t); assert(g =~= seq![g[0]] + z);
}
proof fn l_pass1(o: Seq<char>, c: Seq<char>, lb: Seq<char>, u1: Seq<char>, u2: Seq<char>, u3: Seq<char>)
    requires o =~= seq!['#', '['], c =~= seq!['#', ']'], nohash(u1), nohash(u2), nohash(u3)
    ensures repl(o + (o + (u1 + (o + (u2 + (c + (c + (u3 + c))))))), o, lb) == lb + (lb + (u1 + (lb + (u2 + (c + (c + (u3 + c)))))))
{
    let e = Seq::<char>::empty();
    let t4 = u3 + c; let t3 = c + t4; let t2 = c + t3; let t1 = u2 + t2; let s1 = o + t1; let s2 = u1 + s1; let s3 = o + s2;
    assert(c + e =~= c); l_miss(c, e, o, lb); assert(repl(e, o, lb) =~= e); assert(repl(c, o, lb) == c);
    l_clean(u3, c, o, lb); assert(repl(t4, o, lb) == t4);
    l_miss(c, t4, o, lb); assert(repl(t3, o, lb) == t3);
    l_miss(c, t3, o, lb); assert(repl(t2, o, lb) == t2);
    l_clean(u2, t2, o, lb); assert(repl(t1, o, lb) == t1);
    l_hit(o, t1, lb); l_clean(u1, s1, o, lb); l_hit(o, s2, lb); l_hit(o, s3, lb);
}
proof fn l_pass2(c: Seq<char>, rb: Seq<char>, v: Seq<char>, u3: Seq<char>)
    requires c =~= seq!['#', ']'], nohash(v), nohash(u3)
    ensures repl(v + (c + (c + (u3 + c))), c, rb) == v + (rb + (rb + (u3 + rb)))
{
    let e = Seq::<char>::empty();
    assert(c + e =~= c); assert(repl(e, c, rb) =~= e); l_hit(c, e, rb); assert(rb + e =~= rb);
    l_clean(u3, c, c, rb); l_hit(c, u3 + c, rb); l_hit(c, c + (u3 + c), rb); l_clean(v, c + (c + (u3 + c)), c, rb);
}
proof fn l_split(k: nat, s: Seq<char>, a: Seq<char>)
    ensures "#[#[ "@ + dec(k) + " #[ "@ + s + " #]#], "@ + a + "#]"@
        == "#["@ + ("#["@ + ((seq![' '] + dec(k) + seq![' ']) + ("#["@ + ((seq![' '] + s + seq![' ']) + ("#]"@ + ("#]"@ + ((seq![',', ' '] + a) + "#]"@)))))))
{
    reveal_strlit("#["); reveal_strlit("#]"); reveal_strlit("#[#[ "); reveal_strlit(" #[ "); reveal_strlit(" #]#], ");
    let (o, c) = ("#["@, "#]"@); let d = dec(k); let b = seq![' ']; let q = seq![',', ' '];
    assert("#[#[ "@ =~= o + o + b); assert(" #[ "@ =~= b + o + b); assert(" #]#], "@ =~= b + c + c + q);
    assert((o + o + b) + d + (b + o + b) + s + (b + c + c + q) + a + c =~= o + (o + ((b + d + b) + (o + ((b + s + b) + (c + (c + ((q + a) + c))))))));
}
proof fn l_merge(k: nat, s: Seq<char>, a: Seq<char>)
    ensures "{"@ + ("{"@ + ((seq![' '] + dec(k) + seq![' ']) + ("{"@ + (seq![' '] + s + seq![' '])))) + ("}"@ + ("}"@ + ((seq![',', ' '] + a) + "}"@)))
        == "{"@ + ("{ "@ + dec(k) + " { "@ + s + " }}"@) + ", "@ + a + "}"@
{
    reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("{ "); reveal_strlit(" { "); reveal_strlit(" }}"); reveal_strlit(", ");
    let (l, r) = ("{"@, "}"@); let d = dec(k); let b = seq![' ']; let q = seq![',', ' '];
    assert("{ "@ =~= l + b); assert(" { "@ =~= b + l + b); assert(" }}"@ =~= b + r + r); assert(", "@ =~= q);
    assert(l + (l + ((b + d + b) + (l + (b + s + b)))) + (r + (r + ((q + a) + r))) =~= l + ((l + b) + d + (b + l + b) + s + (b + r + r)) + q + a + r);
}
/// the text with `#[` and `#]` in the place of braces, and what becomes of it
proof fn l_braces(k: nat, s: Seq<char>, a: Seq<char>) requires nohash(s), nohash(a)
    ensures
        "#["@.len() == 2, "#]"@.len() == 2, "#["@[0] != "#["@[1], "#]"@[0] != "#]"@[1],
        repl(repl("#[#[ "@ + dec(k) + " #[ "@ + s + " #]#], "@ + a + "#]"@, "#["@, "{"@), "#]"@, "}"@) == "{"@ + ("{ "@ + dec(k) + " { "@ + s + " }}"@) + ", "@ + a + "}"@
{
    reveal_strlit("#["); reveal_strlit("#]"); reveal_strlit("{");
    let (o, c) = ("#["@, "#]"@); let (lb, rb) = ("{"@, "}"@); ax_dec(k); let b = seq![' '];
    let u1 = b + dec(k) + b; let u2 = b + s + b; let u3 = seq![',', ' '] + a;
    assert(nohash(b)); assert(nohash(u1)); assert(nohash(u2)); assert(nohash(seq![',', ' '])); assert(nohash(u3)); assert(nohash(lb));
    l_split(k, s, a);
    l_pass1(o, c, lb, u1, u2, u3);
    let t = c + (c + (u3 + c)); let v = lb + (lb + (u1 + (lb + u2)));
    assert(lb + (lb + (u1 + (lb + (u2 + t)))) =~= v + t);
    assert(nohash(v));
    l_pass2(c, rb, v, u3);
    l_merge(k, s, a);
}
proof fn l_text(a: Sig, b: Sig, c: Sig, r: nat)
    ensures
        forall|o: Uo| #[trigger] show(un(o, a)) =~= uo(o) + a.n,
        show(VE::Cond(id(a), id(b), id(c))) =~= a.n + " ? "@ + b.n + " : "@ + c.n,
        a.w > 0 && a.w < r ==> show(e_zext(a, r)) =~= "{"@ + dec((r - a.w) as nat) + "'b0, "@ + a.n + "}"@,
        a.w > 0 && a.w + 1 == r ==> show(e_sext(a, r)) =~= "{"@ + show(sbit(a)) + ", "@ + a.n + "}"@,
        a.w > 0 && a.w + 1 < r ==> show(e_sext(a, r)) =~= "{"@ + ("{ "@ + dec((r - a.w) as nat) + " { "@ + show(sbit(a)) + " }}"@) + ", "@ + a.n + "}"@,
        nohash(a.n) ==> nohash(show(sbit(a))),
{
    reveal_with_fuel(show, 4);
    reveal_strlit("'b0, "); reveal_strlit("'b0"); reveal_strlit(", "); reveal_strlit("["); reveal_strlit("]"); ax_dec((a.w - 1) as nat);
}
// ---------------------------------------------------------------- the mid-level program
#[verifier::external_body] pub struct ValueName { x: u64 }
#[verifier::external_body] pub struct Types { x: u64 }
pub uninterp spec fn vname(n: Loc<ValueName>) -> Seq<char>;
impl Loc<ValueName> { #[verifier::external_body] pub fn var_name(&self) -> (r: VS) ensures r@ == vname(*self) { unimplemented!() } }
pub uninterp spec fn ty(t: &Types, n: Loc<ValueName>) -> Type;
impl Types { #[verifier::external_body] pub fn at(&self, n: &Loc<ValueName>) -> (r: &Type) ensures *r == ty(self, *n) { unimplemented!() } }

// ---- composition
#[verifier::external_body]
pub fn vjoin(v: Vec<VS>, s: &str) -> (r: VS) ensures r@ == jn(texts(v@), v@.len(), s@) { unimplemented!() }
/// the signals which exist
pub open spec fn fz(g: Seq<Sig>, k: nat) -> Seq<Sig> decreases k { if k == 0 { Seq::empty() } else if g[k - 1].w > 0 { fz(g, (k - 1) as nat).push(g[k - 1]) } else { fz(g, (k - 1) as nat) } }
proof fn l_cong(a: Seq<Sig>, b: Seq<Sig>, k: nat) requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i] ensures cw(a, k) == cw(b, k), cv(a, k) == cv(b, k) decreases k
{ if k > 0 { l_cong(a, b, (k - 1) as nat); } }
proof fn l_fz(g: Seq<Sig>, k: nat) requires k <= g.len(), forall|i: int| 0 <= i < k ==> ok(#[trigger] g[i])
    ensures cw(fz(g, k), fz(g, k).len()) == cw(g, k), cv(fz(g, k), fz(g, k).len()) == cv(g, k), forall|i: int| 0 <= i < fz(g, k).len() ==> (#[trigger] fz(g, k)[i]).w > 0,
        cw(g, k) > 0 ==> fz(g, k).len() > 0, 0 <= cv(g, k) < pow2(cw(g, k)),
    decreases k
{
    assert(pow2(0) == 1);
    if k > 0 {
        let j = (k - 1) as nat; l_fz(g, j); let f = fz(g, j);
        assert(ok(g[j as int]));
        if g[j as int].w > 0 { l_cong(f, f.push(g[j as int]), f.len()); }
        lemma_pow2_add(cw(g, j), g[j as int].w);
        let (x, p, q, v) = (cv(g, j), pow2(cw(g, j)) as int, pow2(g[j as int].w) as int, g[j as int].v);
        assert(0 <= x * q + v < p * q) by(nonlinear_arith) requires 0 <= x < p, 0 <= v < q;
        if g[j as int].w == 0 { assert(v == 0 && q == 1); assert(x * 1 == x); }
    }
}
proof fn l_concat(g: Seq<Sig>, r: nat) requires forall|i: int| 0 <= i < g.len() ==> ok(#[trigger] g[i]), r == cw(g, g.len()), r > 0
    ensures legal(VE::Cats(fz(g, g.len()))), asg(VE::Cats(fz(g, g.len())), r) == cv(g, g.len())
{ l_fz(g, g.len()); l_small(cv(g, g.len()), r); }
/// k elements of m bits, the first one on the least significant side
pub open spec fn av(g: Seq<Sig>, m: nat, k: nat) -> int decreases k { if k == 0 { 0 } else { av(g, m, (k - 1) as nat) + g[k - 1].v * pow2(m * (k - 1) as nat) } }
pub open spec fn revd(g: Seq<Sig>) -> Seq<Sig> { Seq::new(g.len(), |i: int| g[g.len() - 1 - i]) }
/// the elements from the last one down to number j
proof fn l_revd(g: Seq<Sig>, m: nat, k: nat) requires k <= g.len(), forall|i: int| 0 <= i < g.len() ==> ok(#[trigger] g[i]) && g[i].w == m
    ensures cv(revd(g), k) * pow2(m * (g.len() - k) as nat) + av(g, m, (g.len() - k) as nat) == av(g, m, g.len()), cw(revd(g), k) == m * k, 0 <= cv(revd(g), k) < pow2(m * k)
    decreases k
{
    assert(pow2(0) == 1);
    if k > 0 {
        let j = (k - 1) as nat; l_revd(g, m, j);
        let n = g.len(); let e = revd(g)[k - 1]; assert(e == g[n - k]); assert(ok(g[n - k]));
        let x = cv(revd(g), j); let (pm, pl) = (pow2(m) as int, pow2(m * (n - k) as nat) as int);
        assert(m * (n - j) as nat == m + m * (n - k) as nat) by(nonlinear_arith) requires n - j == n - k + 1, n >= k;
        lemma_pow2_add(m, m * (n - k) as nat);
        assert((x * pm + e.v) * pl == x * (pm * pl) + e.v * pl) by(nonlinear_arith);
        assert(av(g, m, (n - j) as nat) == av(g, m, (n - k) as nat) + g[n - k].v * pow2(m * (n - k) as nat));
        assert(m * k == m * j + m) by(nonlinear_arith) requires k == j + 1;
        lemma_pow2_add(m * j, m); let pj = pow2(m * j) as int;
        assert(0 <= x * pm + e.v < pj * pm) by(nonlinear_arith) requires 0 <= x < pj, 0 <= e.v < pm;
    } else { assert(m * 0 == 0); }
}
proof fn l_array(g: Seq<Sig>, m: nat, r: nat) requires forall|i: int| 0 <= i < g.len() ==> ok(#[trigger] g[i]) && g[i].w == m, r == m * g.len(), r > 0
    ensures legal(VE::Cats(revd(g))), asg(VE::Cats(revd(g)), r) == av(g, m, g.len())
{
    l_revd(g, m, g.len()); assert(m > 0 && g.len() > 0) by(nonlinear_arith) requires m * g.len() > 0;
    assert(m * 0 == 0); assert(pow2(0) == 1); let z = (g.len() - g.len()) as nat; assert(z == 0 && av(g, m, z) == 0); assert(cv(revd(g), g.len()) * 1 == cv(revd(g), g.len()));
    l_small(av(g, m, g.len()), r);
}
// ---- indexing
/// elements i .. j of an array of elements of m bits
pub open spec fn slice(v: int, m: nat, i: nat, j: nat) -> int { md(v / (pow2(i * m) as int), ((j - i) * m) as nat) }
pub open spec fn e_index(a: Sig, i: Sig, m: nat, len: nat) -> VE { if len == 1 { VE::Id(a) } else if m == 1 { VE::Pick(a, i) } else { VE::Sel(a, i, m) } }
proof fn l_index(a: Sig, i: Sig, m: nat, len: nat) requires ok(a), ok(i), i.w > 0, m > 0, a.w == m * len, i.v < len, a.w < 0x1_0000_0000
    ensures legal(e_index(a, i, m, len)), asg(e_index(a, i, m, len), m) == slice(a.v, m, i.v as nat, (i.v + 1) as nat)
{
    let k = i.v as nat; let e = e_index(a, i, m, len);
    assert(pow2(0) == 1 && pow2(1) == 2) by { reveal_with_fuel(pow2, 2); } assert(pow2(32) == 0x1_0000_0000) by(compute);
    assert((k + 1 - k) * m == m) by(nonlinear_arith);
    l_md(a.v / (pow2(k * m) as int), m); l_small(slice(a.v, m, k, k + 1), m);
    if len == 1 { assert(k == 0); assert(0 * m == 0); assert(m * 1 == m); assert(a.v / 1 == a.v); l_one(false, a, m); }
    else {
        assert(0 <= k * m < m * len && m * len > 1) by(nonlinear_arith) requires 0 <= k < len, m > 0, len > 1;
        l_mono(32, mx(i.w, 32)); l_small((k * m) as int, mx(i.w, 32));
        if m == 1 { assert(k * 1 == k); } assert(m <= m * len) by(nonlinear_arith) requires len > 1;
    }
}
pub open spec fn e_range(a: Sig, m: nat, len: nat, s: nat, e: nat) -> VE {
    if len == 1 { VE::Id(a) } else if m == 1 && e - s == 1 { VE::Bit(a, s) } else { VE::Down(a, (e * m - 1) as nat, (m * (e - s)) as nat) }
}
proof fn l_range(a: Sig, m: nat, len: nat, s: nat, e: nat) requires ok(a), m > 0, a.w == m * len, s < e <= len
    ensures legal(e_range(a, m, len, s, e)), asg(e_range(a, m, len, s, e), ((e - s) * m) as nat) == slice(a.v, m, s, e), e * m > 0
{
    assert(pow2(0) == 1 && pow2(1) == 2) by { reveal_with_fuel(pow2, 2); }
    let r = ((e - s) * m) as nat;
    assert(r > 0 && m * (e - s) == r && e * m - r == s * m && e * m <= m * len && r <= e * m && e * m > 0) by(nonlinear_arith) requires r == (e - s) * m, m > 0, s < e <= len;
    l_md(a.v / (pow2(s * m) as int), r); l_small(slice(a.v, m, s, e), r);
    if len == 1 { assert(s == 0 && e == 1); assert(m * 1 == m && 0 * m == 0 && 1 * m == m); assert(a.v / 1 == a.v); l_one(false, a, m); }
    else {
        assert(m * len > 1) by(nonlinear_arith) requires m > 0, len > 1;
        if m == 1 && e - s == 1 { assert(s * 1 == s); }
    }
}
/// bits s..e of a signal
pub open spec fn e_bits(a: Sig, s: nat, e: nat) -> VE { if a.w == 1 { VE::Id(a) } else if e - s == 1 { VE::Bit(a, s) } else { VE::Span(a, (e - 1) as nat, s) } }
proof fn l_bits(a: Sig, s: nat, e: nat) requires ok(a), s < e <= a.w ensures legal(e_bits(a, s, e)), asg(e_bits(a, s, e), (e - s) as nat) == slice(a.v, 1, s, e)
{
    assert(pow2(0) == 1 && pow2(1) == 2) by { reveal_with_fuel(pow2, 2); }
    assert(s * 1 == s && (e - s) * 1 == e - s);
    let r = (e - s) as nat;
    l_md(a.v / (pow2(s) as int), r); l_small(slice(a.v, 1, s, e), r);
    if a.w == 1 { assert(s == 0 && e == 1); assert(a.v / 1 == a.v); l_one(false, a, 1); }
}
proof fn l_itext(a: Sig, i: Sig, m: nat, len: nat) ensures show(VE::Sel(a, i, m)) =~= a.n + "["@ + (i.n + " * "@ + dec(m)) + "+:"@ + dec(m) + "]"@ { }

// ==================================================================== from the typed program to the mid-level operators
/*@ rules
type: mir::Operator ==> Operator
type: mir::ValueName ==> ValueName
rule: ctx.types.concrete_type_of($e, $s, $t) ==> vtype_of(&$e, ctx)
rule: $r.push_primary($s, $x) ==> vpush_primary(&mut $r, $s)
rule: $x.at_loc($y) ==> vloc($x)
rule: $x.loc() ==> vl()
rule: val.to_u128().ok_or_else(|| $x) ==> vu128(val)
rule: $x.count_ones() == 1 ==> vispow($x)
rule: self.name_map.merge($x) ==> ()
rule: this.name_map.insert_primary($a, $b) ==> ()
rule: self.name_map.insert_primary($a, $b) ==> ()
rule: Err($x) ==> Err(SErr::new())
macro: assert_eq ==> vsame(&$1, &$2)
@*/
pub mod mir { pub use crate::{Operator, Statement, Binding, ValueName}; pub mod types { pub use crate::Type; } }
#[verifier::external_body]
pub fn vu128(x: &BigInt) -> (r: Result<u128>) ensures r matches Ok(v) ==> v as int == x@ { unimplemented!() }
/// exactly one bit is set
#[verifier::external_body]
pub fn vispow(x: u128) -> (r: bool) ensures r == exists|k: nat| x as nat == #[trigger] pow2(k) { unimplemented!() }
pub fn vloc<T>(x: T) -> (r: Loc<T>) ensures r.inner == x { Loc { inner: x } }
pub fn vl() -> (r: Loc<()>) { Loc { inner: () } }
/// `assert_eq!`: panics when they differ
#[verifier::external_body]
pub fn vsame(a: &Type, b: &Type) ensures *a == *b { unimplemented!() }
#[verifier::external_body] pub struct NId { x: u64 }
/// the compilation context; `env` is what types and variables are looked up in
#[verifier::external_body] pub struct Context { x: u64 }
#[verifier::external_body] pub struct Env { x: u64 }
impl Context { pub uninterp spec fn env(&self) -> Env; }
/*@ type spade-hir/src/expression.rs :: ExprKind
keep: IntLiteral
@*/
pub struct Expression { pub kind: ExprKind, pub id: u64 }
#[verifier::external_body] pub struct TypeSpec { x: u64 }
pub struct Argument<'a, T, U> { pub value: &'a Loc<T>, pub value_ty: Option<U> }
/*@ type spade-hir/src/expression.rs :: IntLiteralKind @*/
/// the type inferred for an expression, the signal it is lowered to, and the statements that compute it
pub uninterp spec fn ctype(e: Loc<Expression>, env: Env) -> ConcreteType;
pub uninterp spec fn vn(e: Loc<Expression>, env: Env) -> Loc<ValueName>;
pub uninterp spec fn code(e: Loc<Expression>, env: Env) -> Seq<Loc<Statement>>;
pub trait AsEx { spec fn ex(&self) -> Loc<Expression>; }
impl AsEx for Loc<Expression> { open spec fn ex(&self) -> Loc<Expression> { *self } }
impl<T: AsEx + ?Sized> AsEx for &T { open spec fn ex(&self) -> Loc<Expression> { (**self).ex() } }
impl<T: AsEx + ?Sized> AsEx for Box<T> { open spec fn ex(&self) -> Loc<Expression> { (**self).ex() } }
#[verifier::external_body]
pub fn vtype_of<T: AsEx>(e: &T, ctx: &Context) -> (r: Result<ConcreteType>) ensures r matches Ok(t) ==> t == ctype(e.ex(), ctx.env()) { unimplemented!() }
impl Loc<Expression> {
    #[verifier::external_body]
    pub fn variable(&self, ctx: &Context) -> (r: Result<Loc<ValueName>>) ensures r matches Ok(t) ==> t == vn(*self, ctx.env()) { unimplemented!() }
    #[verifier::external_body]
    pub fn lower(&self, ctx: &mut Context) -> (r: Result<StatementList>) ensures final(ctx).env() == old(ctx).env(), r matches Ok(t) ==> t.stmts@ == code(*self, old(ctx).env()) { unimplemented!() }
}
/*@ type spade-mir/src/lib.rs :: Operator
keep: Add, UnsignedAdd, Sub, UnsignedSub, Mul, UnsignedMul, Div, UnsignedDiv, Mod, UnsignedMod, Eq, NotEq, Gt, UnsignedGt, Lt, UnsignedLt, Ge, UnsignedGe, Le, UnsignedLe, LeftShift, RightShift, ArithmeticRightShift, BitwiseAnd, BitwiseOr, BitwiseXor, ReduceAnd, ReduceOr, ReduceXor, USub, Not, BitwiseNot, SignExtend, ZeroExtend, Truncate, Concat, Select, ConstructArray, IndexArray, RangeIndexArray, Alias, BlackBoxAlias, ConstructCopyView, DivPow2, LogicalAnd, LogicalOr, LogicalXor, LogicalNot, ConstructTuple, IndexTuple
@*/
/*@ type spade-mir/src/lib.rs :: Binding @*/
pub struct Register { pub name: Loc<ValueName> }
#[verifier::external_body] pub struct ConstantValue { x: u64 }
/*@ type spade-mir/src/lib.rs :: Statement @*/
/*@ type spade-hir-lowering/src/statement_list.rs :: StatementList
drop: name_map
@*/
/*@ fn spade-hir-lowering/src/statement_list.rs :: StatementList::push_primary as vpush_primary
sig: (this: &mut StatementList, stmt: Loc<Statement>) -> (r: ())
rule: self ==> this
ensures: final(this).stmts@ == old(this).stmts@.push(stmt)
@*/
/*@ fn spade-hir-lowering/src/statement_list.rs :: StatementList::append
ensures: final(self).stmts@ == old(self).stmts@ + $1.stmts@
@*/
/// `b` applies operator `op` to the given signals and produces the value of expression `e`
pub open spec fn binds(s: Loc<Statement>, e: Loc<Expression>, op: Operator, ops: Seq<Loc<ValueName>>, env: Env) -> bool {
    s.inner matches Statement::Binding(b) && b.name == vn(e, env) && b.operator == op && b.operands@ =~= ops && w(b.ty) == cfw(ctype(e, env))
        && (b.ty is Int) == is_i(ctype(e, env)) && (b.ty is UInt) == is_u(ctype(e, env))
}
pub open spec fn adds(old_: Seq<Loc<Statement>>, new: Seq<Loc<Statement>>, e: Loc<Expression>, op: Operator, ops: Seq<Loc<ValueName>>, env: Env) -> bool {
    new.len() == old_.len() + 1 && new.take(old_.len() as int) =~= old_ && binds(new.last(), e, op, ops, env)
}

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_add
arm: Operator::Add
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Add, true, a, b)), legal(bin(Bo::Add, true, a, b)), asg(bin(Bo::Add, true, a, b), w(*self_type)) == md(n(true, a) + n(true, b), w(*self_type))
entry: proof { l_arith(Bo::Add, true, a, b, w(*self_type)); l_show(Bo::Add, true, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_unsignedadd
arm: Operator::UnsignedAdd
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Add, false, a, b)), legal(bin(Bo::Add, false, a, b)), asg(bin(Bo::Add, false, a, b), w(*self_type)) == md(n(false, a) + n(false, b), w(*self_type))
entry: proof { l_arith(Bo::Add, false, a, b, w(*self_type)); l_show(Bo::Add, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_sub
arm: Operator::Sub
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Sub, true, a, b)), legal(bin(Bo::Sub, true, a, b)), asg(bin(Bo::Sub, true, a, b), w(*self_type)) == md(n(true, a) - n(true, b), w(*self_type))
entry: proof { l_arith(Bo::Sub, true, a, b, w(*self_type)); l_show(Bo::Sub, true, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_unsignedsub
arm: Operator::UnsignedSub
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Sub, false, a, b)), legal(bin(Bo::Sub, false, a, b)), asg(bin(Bo::Sub, false, a, b), w(*self_type)) == md(n(false, a) - n(false, b), w(*self_type))
entry: proof { l_arith(Bo::Sub, false, a, b, w(*self_type)); l_show(Bo::Sub, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_mul
arm: Operator::Mul
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Mul, true, a, b)), legal(bin(Bo::Mul, true, a, b)), asg(bin(Bo::Mul, true, a, b), w(*self_type)) == md(n(true, a) * n(true, b), w(*self_type))
entry: proof { l_arith(Bo::Mul, true, a, b, w(*self_type)); l_show(Bo::Mul, true, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_unsignedmul
arm: Operator::UnsignedMul
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Mul, false, a, b)), legal(bin(Bo::Mul, false, a, b)), asg(bin(Bo::Mul, false, a, b), w(*self_type)) == md(n(false, a) * n(false, b), w(*self_type))
entry: proof { l_arith(Bo::Mul, false, a, b, w(*self_type)); l_show(Bo::Mul, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_div
arm: Operator::Div
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Div, true, a, b)), legal(bin(Bo::Div, true, a, b)), asg(bin(Bo::Div, true, a, b), w(*self_type)) == md(tdiv(n(true, a), n(true, b)), w(*self_type))
entry: proof { l_div(Bo::Div, true, a, b, w(*self_type)); l_show(Bo::Div, true, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_unsigneddiv
arm: Operator::UnsignedDiv
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Div, false, a, b)), legal(bin(Bo::Div, false, a, b)), asg(bin(Bo::Div, false, a, b), w(*self_type)) == md(tdiv(n(false, a), n(false, b)), w(*self_type))
entry: proof { l_div(Bo::Div, false, a, b, w(*self_type)); l_show(Bo::Div, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_mod
arm: Operator::Mod
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Mod, true, a, b)), legal(bin(Bo::Mod, true, a, b)), asg(bin(Bo::Mod, true, a, b), w(*self_type)) == md(trem(n(true, a), n(true, b)), w(*self_type))
entry: proof { l_div(Bo::Mod, true, a, b, w(*self_type)); l_show(Bo::Mod, true, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_unsignedmod
arm: Operator::UnsignedMod
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Mod, false, a, b)), legal(bin(Bo::Mod, false, a, b)), asg(bin(Bo::Mod, false, a, b), w(*self_type)) == md(trem(n(false, a), n(false, b)), w(*self_type))
entry: proof { l_div(Bo::Mod, false, a, b, w(*self_type)); l_show(Bo::Mod, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_eq
arm: Operator::Eq
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w == b.w
ensures: r@ =~= show(rele(Bo::Eq, false, a, b)), legal(rele(Bo::Eq, false, a, b)), asg(rele(Bo::Eq, false, a, b), 1) == b2i(cmp(Bo::Eq, n(false, a), n(false, b)))
entry: proof { l_rele(Bo::Eq, false, a, b); l_show(Bo::Eq, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_noteq
arm: Operator::NotEq
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w == b.w
ensures: r@ =~= show(rele(Bo::Ne, false, a, b)), legal(rele(Bo::Ne, false, a, b)), asg(rele(Bo::Ne, false, a, b), 1) == b2i(cmp(Bo::Ne, n(false, a), n(false, b)))
entry: proof { l_rele(Bo::Ne, false, a, b); l_show(Bo::Ne, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_gt
arm: Operator::Gt
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w == b.w
ensures: r@ =~= show(rele(Bo::Gt, true, a, b)), legal(rele(Bo::Gt, true, a, b)), asg(rele(Bo::Gt, true, a, b), 1) == b2i(cmp(Bo::Gt, n(true, a), n(true, b)))
entry: proof { l_rele(Bo::Gt, true, a, b); l_show(Bo::Gt, true, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_unsignedgt
arm: Operator::UnsignedGt
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w == b.w
ensures: r@ =~= show(rele(Bo::Gt, false, a, b)), legal(rele(Bo::Gt, false, a, b)), asg(rele(Bo::Gt, false, a, b), 1) == b2i(cmp(Bo::Gt, n(false, a), n(false, b)))
entry: proof { l_rele(Bo::Gt, false, a, b); l_show(Bo::Gt, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_lt
arm: Operator::Lt
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w == b.w
ensures: r@ =~= show(rele(Bo::Lt, true, a, b)), legal(rele(Bo::Lt, true, a, b)), asg(rele(Bo::Lt, true, a, b), 1) == b2i(cmp(Bo::Lt, n(true, a), n(true, b)))
entry: proof { l_rele(Bo::Lt, true, a, b); l_show(Bo::Lt, true, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_unsignedlt
arm: Operator::UnsignedLt
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w == b.w
ensures: r@ =~= show(rele(Bo::Lt, false, a, b)), legal(rele(Bo::Lt, false, a, b)), asg(rele(Bo::Lt, false, a, b), 1) == b2i(cmp(Bo::Lt, n(false, a), n(false, b)))
entry: proof { l_rele(Bo::Lt, false, a, b); l_show(Bo::Lt, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_ge
arm: Operator::Ge
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w == b.w
ensures: r@ =~= show(rele(Bo::Ge, true, a, b)), legal(rele(Bo::Ge, true, a, b)), asg(rele(Bo::Ge, true, a, b), 1) == b2i(cmp(Bo::Ge, n(true, a), n(true, b)))
entry: proof { l_rele(Bo::Ge, true, a, b); l_show(Bo::Ge, true, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_unsignedge
arm: Operator::UnsignedGe
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w == b.w
ensures: r@ =~= show(rele(Bo::Ge, false, a, b)), legal(rele(Bo::Ge, false, a, b)), asg(rele(Bo::Ge, false, a, b), 1) == b2i(cmp(Bo::Ge, n(false, a), n(false, b)))
entry: proof { l_rele(Bo::Ge, false, a, b); l_show(Bo::Ge, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_le
arm: Operator::Le
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w == b.w
ensures: r@ =~= show(rele(Bo::Le, true, a, b)), legal(rele(Bo::Le, true, a, b)), asg(rele(Bo::Le, true, a, b), 1) == b2i(cmp(Bo::Le, n(true, a), n(true, b)))
entry: proof { l_rele(Bo::Le, true, a, b); l_show(Bo::Le, true, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_unsignedle
arm: Operator::UnsignedLe
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w == b.w
ensures: r@ =~= show(rele(Bo::Le, false, a, b)), legal(rele(Bo::Le, false, a, b)), asg(rele(Bo::Le, false, a, b), 1) == b2i(cmp(Bo::Le, n(false, a), n(false, b)))
entry: proof { l_rele(Bo::Le, false, a, b); l_show(Bo::Le, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_leftshift
arm: Operator::LeftShift
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Shl, false, a, b)), legal(bin(Bo::Shl, false, a, b)), asg(bin(Bo::Shl, false, a, b), w(*self_type)) == md(a.v * pow2(b.v as nat), w(*self_type))
entry: proof { l_shift(Bo::Shl, false, a, b, w(*self_type)); l_show(Bo::Shl, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_rightshift
arm: Operator::RightShift
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Shr, false, a, b)), legal(bin(Bo::Shr, false, a, b)), asg(bin(Bo::Shr, false, a, b), w(*self_type)) == md(a.v / (pow2(b.v as nat) as int), w(*self_type))
entry: proof { l_shift(Bo::Shr, false, a, b, w(*self_type)); l_one(false, a, mx(w(*self_type), a.w)); l_mono(a.w, mx(w(*self_type), a.w)); l_small(a.v, mx(w(*self_type), a.w)); l_show(Bo::Shr, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_arithmeticrightshift
arm: Operator::ArithmeticRightShift
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0
ensures: r@ =~= show(bin(Bo::Sshr, true, a, b)), legal(bin(Bo::Sshr, true, a, b)), asg(bin(Bo::Sshr, true, a, b), w(*self_type)) == md(sv(a.v, a.w) / (pow2(b.v as nat) as int), w(*self_type))
entry: proof { l_shift(Bo::Sshr, true, a, b, w(*self_type)); l_show(Bo::Sshr, true, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_logicaland
arm: Operator::LogicalAnd
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0, a.w == 1, b.w == 1
ensures: r@ =~= show(bin(Bo::Land, false, a, b)), legal(bin(Bo::Land, false, a, b)), asg(bin(Bo::Land, false, a, b), 1) == b2i(a.v == 1 && b.v == 1)
entry: proof { l_logic(Bo::Land, a, b); l_show(Bo::Land, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_logicalor
arm: Operator::LogicalOr
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0, a.w == 1, b.w == 1
ensures: r@ =~= show(bin(Bo::Lor, false, a, b)), legal(bin(Bo::Lor, false, a, b)), asg(bin(Bo::Lor, false, a, b), 1) == b2i(a.v == 1 || b.v == 1)
entry: proof { l_logic(Bo::Lor, a, b); l_show(Bo::Lor, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_logicalxor
arm: Operator::LogicalXor
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0, a.w == 1, b.w == 1
ensures: r@ =~= show(bin(Bo::Bxor, false, a, b)), legal(bin(Bo::Bxor, false, a, b)), asg(bin(Bo::Bxor, false, a, b), 1) == bits2(Bo::Bxor, a.v, b.v, 1)
entry: proof { l_bitwise(Bo::Bxor, a, b, 1); l_show(Bo::Bxor, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_bitwiseand
arm: Operator::BitwiseAnd
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0, a.w == w(*self_type), b.w == w(*self_type)
ensures: r@ =~= show(bin(Bo::Band, false, a, b)), legal(bin(Bo::Band, false, a, b)), asg(bin(Bo::Band, false, a, b), w(*self_type)) == bits2(Bo::Band, a.v, b.v, w(*self_type))
entry: proof { l_bitwise(Bo::Band, a, b, w(*self_type)); l_show(Bo::Band, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_bitwiseor
arm: Operator::BitwiseOr
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0, a.w == w(*self_type), b.w == w(*self_type)
ensures: r@ =~= show(bin(Bo::Bor, false, a, b)), legal(bin(Bo::Bor, false, a, b)), asg(bin(Bo::Bor, false, a, b), w(*self_type)) == bits2(Bo::Bor, a.v, b.v, w(*self_type))
entry: proof { l_bitwise(Bo::Bor, a, b, w(*self_type)); l_show(Bo::Bor, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_bitwisexor
arm: Operator::BitwiseXor
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 2, ops.len() == 2, binding.operands.len() == 2, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), a.w > 0, b.w > 0, a.w == w(*self_type), b.w == w(*self_type)
ensures: r@ =~= show(bin(Bo::Bxor, false, a, b)), legal(bin(Bo::Bxor, false, a, b)), asg(bin(Bo::Bxor, false, a, b), w(*self_type)) == bits2(Bo::Bxor, a.v, b.v, w(*self_type))
entry: proof { l_bitwise(Bo::Bxor, a, b, w(*self_type)); l_show(Bo::Bxor, false, a, b); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_usub
arm: Operator::USub
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 1, ops.len() == 1, binding.operands.len() == 1, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), a.w > 0, a.w == w(*self_type)
ensures: r@ =~= show(un(Uo::Neg, a)), legal(un(Uo::Neg, a)), asg(un(Uo::Neg, a), w(*self_type)) == md(-sv(a.v, a.w), w(*self_type))
entry: proof { l_un(Uo::Neg, a, w(*self_type)); l_text(a, a, a, 0); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_bitwisenot
arm: Operator::BitwiseNot
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 1, ops.len() == 1, binding.operands.len() == 1, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), a.w > 0, a.w == w(*self_type)
ensures: r@ =~= show(un(Uo::Bnot, a)), legal(un(Uo::Bnot, a)), asg(un(Uo::Bnot, a), w(*self_type)) == pow2(w(*self_type)) - 1 - a.v
entry: proof { l_un(Uo::Bnot, a, w(*self_type)); l_text(a, a, a, 0); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_not
arm: Operator::Not
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 1, ops.len() == 1, binding.operands.len() == 1, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), a.w > 0, a.w == 1
ensures: r@ =~= show(un(Uo::Lnot, a)), legal(un(Uo::Lnot, a)), asg(un(Uo::Lnot, a), 1) == b2i(a.v == 0)
entry: proof { l_un(Uo::Lnot, a, 1); l_text(a, a, a, 0); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_logicalnot
arm: Operator::LogicalNot
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 1, ops.len() == 1, binding.operands.len() == 1, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), a.w > 0, a.w == 1
ensures: r@ =~= show(un(Uo::Lnot, a)), legal(un(Uo::Lnot, a)), asg(un(Uo::Lnot, a), 1) == b2i(a.v == 0)
entry: proof { l_un(Uo::Lnot, a, 1); l_text(a, a, a, 0); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_reduceand
arm: Operator::ReduceAnd
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 1, ops.len() == 1, binding.operands.len() == 1, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a)
ensures: r@ =~= show(rede(Uo::Rand, a)), legal(rede(Uo::Rand, a)), asg(rede(Uo::Rand, a), 1) == b2i(a.v == pow2(a.w) - 1)
entry: proof { l_rede(Uo::Rand, a); l_text(a, a, a, 0); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_reduceor
arm: Operator::ReduceOr
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 1, ops.len() == 1, binding.operands.len() == 1, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a)
ensures: r@ =~= show(rede(Uo::Ror, a)), legal(rede(Uo::Ror, a)), asg(rede(Uo::Ror, a), 1) == b2i(a.v != 0)
entry: proof { l_rede(Uo::Ror, a); l_text(a, a, a, 0); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_reducexor
arm: Operator::ReduceXor
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 1, ops.len() == 1, binding.operands.len() == 1, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a)
ensures: r@ =~= show(rede(Uo::Rxor, a)), legal(rede(Uo::Rxor, a)), asg(rede(Uo::Rxor, a), 1) == b2i(parity(a.v, a.w))
entry: proof { l_rede(Uo::Rxor, a); l_text(a, a, a, 0); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_select
arm: Operator::Select
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>, Ghost(c): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 3, ops.len() == 3, binding.operands.len() == 3, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), b.n == op_names[1]@, b.w == w(ty(types, ops[1])), ok(b), c.n == op_names[2]@, c.w == w(ty(types, ops[2])), ok(c), a.w == 1, b.w == w(*self_type), c.w == w(*self_type)
ensures: r@ =~= show(VE::Cond(id(a), id(b), id(c))), legal(VE::Cond(id(a), id(b), id(c))), asg(VE::Cond(id(a), id(b), id(c)), w(*self_type)) == (if a.v == 1 { b.v } else { c.v })
entry: proof { l_cond(a, b, c, w(*self_type)); l_text(a, b, c, 0); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_truncate
arm: Operator::Truncate
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 1, ops.len() == 1, binding.operands.len() == 1, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), w(*self_type) <= a.w
ensures: r@ =~= show(e_trunc(a, w(*self_type))), legal(e_trunc(a, w(*self_type))), asg(e_trunc(a, w(*self_type)), w(*self_type)) == md(a.v, w(*self_type))
entry: proof { l_trunc(a, w(*self_type)); l_lits(); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_sext
arm: Operator::SignExtend
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 1, ops.len() == 1, binding.operands.len() == 1, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), a.w <= w(*self_type), nohash(a.n)
ensures: r@ =~= show(e_sext(a, w(*self_type))), legal(e_sext(a, w(*self_type))), asg(e_sext(a, w(*self_type)), w(*self_type)) == md(sv(a.v, a.w), w(*self_type))
entry: proof { l_sext(a, w(*self_type)); l_text(a, a, a, w(*self_type)); if a.w + 1 < w(*self_type) { l_braces((w(*self_type) - a.w) as nat, show(sbit(a)), a.n); } }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_zext
arm: Operator::ZeroExtend
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, binding: &Binding, self_type: &Type, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: op_names.len() == 1, ops.len() == 1, binding.operands.len() == 1, *self_type == binding.ty, w(*self_type) > 0, a.n == op_names[0]@, a.w == w(ty(types, ops[0])), ok(a), a.w <= w(*self_type)
ensures: r@ =~= show(e_zext(a, w(*self_type))), legal(e_zext(a, w(*self_type))), asg(e_zext(a, w(*self_type)), w(*self_type)) == a.v
entry: proof { l_zext(a, w(*self_type)); l_text(a, a, a, w(*self_type)); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_concat
arm: Operator::Concat
sig: (types: &Types, ops: &Vec<Loc<ValueName>>, self_type: &Type, Ghost(g): Ghost<Seq<Sig>>) -> (r: VS)
requires: g.len() == ops.len(), forall|i: int| 0 <= i < ops.len() ==> ok(#[trigger] g[i]) && g[i].n == vname(ops[i]) && g[i].w == w(ty(types, ops[i])), w(*self_type) == cw(g, g.len()), w(*self_type) > 0
ensures: r@ =~= show(VE::Cats(fz(g, g.len()))), legal(VE::Cats(fz(g, g.len()))), asg(VE::Cats(fz(g, g.len())), w(*self_type)) == cv(g, g.len())
entry: proof { l_concat(g, w(*self_type)); }
loop 0 inv: texts(vacc0@) =~= names(fz(g, vi0 as nat))
loop 0 start: assert(ok(g[vi0 - 1])); assert(names(fz(g, vi0 as nat)) =~= (if g[vi0 - 1].w > 0 { names(fz(g, (vi0 - 1) as nat)).push(g[vi0 - 1].n) } else { names(fz(g, (vi0 - 1) as nat)) }));
@*/
/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_constructarray
arm: Operator::ConstructArray
sig: (op_names: &Vec<VS>, self_type: &Type, Ghost(m): Ghost<nat>, Ghost(g): Ghost<Seq<Sig>>) -> (r: VS)
requires: g.len() == op_names.len(), forall|i: int| 0 <= i < g.len() ==> ok(#[trigger] g[i]) && g[i].n == op_names[i]@ && g[i].w == m, w(*self_type) == m * g.len(), w(*self_type) > 0
ensures: r@ =~= show(VE::Cats(revd(g))), legal(VE::Cats(revd(g))), asg(VE::Cats(revd(g)), w(*self_type)) == av(g, m, g.len())
entry: proof { l_array(g, m, w(*self_type)); }
loop 0 inv: texts(vacc0@) =~= names(revd(g)).take(vi0 as int), vi0 == vs0@.len() ==> texts(vacc0@) == names(revd(g))
loop 0 end: assert(names(revd(g)).take(g.len() as int) =~= names(revd(g))); assert(texts(vacc0@) =~= names(revd(g)).take(vi0 as int));
@*/
/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_indexarray
arm: Operator::IndexArray
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, self_type: &Type, Ghost(a): Ghost<Sig>, Ghost(b): Ghost<Sig>) -> (r: VS)
requires: ops.len() == 2, op_names.len() == 2, ok(a), ok(b), a.n == op_names[0]@, b.n == op_names[1]@, b.w > 0, ty(types, ops[0]) matches Type::Array { inner, length } && w(*inner) == w(*self_type) && a.w == w(*inner) * length@ && b.v < length@, w(*self_type) > 0, a.w < 0x1_0000_0000
ensures: r@ =~= show(e_index(a, b, w(*self_type), ty(types, ops[0])->Array_length@)), legal(e_index(a, b, w(*self_type), ty(types, ops[0])->Array_length@)), asg(e_index(a, b, w(*self_type), ty(types, ops[0])->Array_length@), w(*self_type)) == slice(a.v, w(*self_type), b.v as nat, (b.v + 1) as nat)
entry: proof { l_index(a, b, w(*self_type), ty(types, ops[0])->Array_length@); l_itext(a, b, w(*self_type), ty(types, ops[0])->Array_length@); }
@*/
/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_rangeindexarray
arm: Operator::RangeIndexArray
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, start: &BigUint, end: &BigUint, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: ops.len() == 1, op_names.len() == 1, ok(a), a.n == op_names[0]@, ty(types, ops[0]) matches Type::Array { inner, length } && w(*inner) > 0 && a.w == w(*inner) * length@ && start@ < end@ <= length@
ensures: ty(types, ops[0]) matches Type::Array { inner, length } && { let x = e_range(a, w(*inner), length@, start@, end@); r@ =~= show(x) && legal(x) && asg(x, ((end@ - start@) * w(*inner)) as nat) == slice(a.v, w(*inner), start@, end@) }
entry: proof { let t = ty(types, ops[0]); l_range(a, w(*t->Array_inner), t->Array_length@, start@, end@); }
@*/

/*@ fn spade-mir/src/codegen/mod.rs :: forward_expression_code as op_rangeindexbits
arm: Operator::RangeIndexBits
sig: (op_names: &Vec<VS>, types: &Types, ops: &Vec<Loc<ValueName>>, start: &BigUint, end_exclusive: &BigUint, Ghost(a): Ghost<Sig>) -> (r: VS)
requires: ops.len() == 1, op_names.len() == 1, ok(a), a.n == op_names[0]@, a.w == w(ty(types, ops[0])), start@ < end_exclusive@ <= a.w
ensures: ({ let x = e_bits(a, start@, end_exclusive@); r@ =~= show(x) && legal(x) && asg(x, (end_exclusive@ - start@) as nat) == slice(a.v, 1, start@, end_exclusive@) })
entry: proof { l_bits(a, start@, end_exclusive@); }
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_eqne
impl: impl Loc<Expression>
requires: args@.len() == 2
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, operator, seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_eq
impl: impl Loc<Expression>
requires: args@.len() == 2
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::Eq, seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_ne
impl: impl Loc<Expression>
requires: args@.len() == 2
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::NotEq, seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_bit_not
impl: impl Loc<Expression>
requires: args@.len() == 1
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::BitwiseNot, seq![vn(*args@[0].value, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_bitwise_op
impl: impl Loc<Expression>
requires: args@.len() == 2
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, operator, seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_bit_and
impl: impl Loc<Expression>
requires: args@.len() == 2
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::BitwiseAnd, seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_bit_or
impl: impl Loc<Expression>
requires: args@.len() == 2
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::BitwiseOr, seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_bit_xor
impl: impl Loc<Expression>
requires: args@.len() == 2
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::BitwiseXor, seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_comparison_op
impl: impl Loc<Expression>
requires: args@.len() == 2, is_i(ctype(*args@[0].value, old(ctx).env())) || is_u(ctype(*args@[0].value, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, (if is_i(ctype(*args@[0].value, old(ctx).env())) { signed_operator } else { unsigned_operator }), seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()) && cfw(ctype(*args@[0].value, old(ctx).env())) == cfw(ctype(*args@[1].value, old(ctx).env())) && is_i(ctype(*args@[0].value, old(ctx).env())) == is_i(ctype(*args@[1].value, old(ctx).env())))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_lt
impl: impl Loc<Expression>
requires: args@.len() == 2, is_i(ctype(*args@[0].value, old(ctx).env())) || is_u(ctype(*args@[0].value, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, (if is_i(ctype(*args@[0].value, old(ctx).env())) { Operator::Lt } else { Operator::UnsignedLt }), seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()) && cfw(ctype(*args@[0].value, old(ctx).env())) == cfw(ctype(*args@[1].value, old(ctx).env())) && is_i(ctype(*args@[0].value, old(ctx).env())) == is_i(ctype(*args@[1].value, old(ctx).env())))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_le
impl: impl Loc<Expression>
requires: args@.len() == 2, is_i(ctype(*args@[0].value, old(ctx).env())) || is_u(ctype(*args@[0].value, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, (if is_i(ctype(*args@[0].value, old(ctx).env())) { Operator::Le } else { Operator::UnsignedLe }), seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()) && cfw(ctype(*args@[0].value, old(ctx).env())) == cfw(ctype(*args@[1].value, old(ctx).env())) && is_i(ctype(*args@[0].value, old(ctx).env())) == is_i(ctype(*args@[1].value, old(ctx).env())))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_gt
impl: impl Loc<Expression>
requires: args@.len() == 2, is_i(ctype(*args@[0].value, old(ctx).env())) || is_u(ctype(*args@[0].value, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, (if is_i(ctype(*args@[0].value, old(ctx).env())) { Operator::Gt } else { Operator::UnsignedGt }), seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()) && cfw(ctype(*args@[0].value, old(ctx).env())) == cfw(ctype(*args@[1].value, old(ctx).env())) && is_i(ctype(*args@[0].value, old(ctx).env())) == is_i(ctype(*args@[1].value, old(ctx).env())))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_ge
impl: impl Loc<Expression>
requires: args@.len() == 2, is_i(ctype(*args@[0].value, old(ctx).env())) || is_u(ctype(*args@[0].value, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, (if is_i(ctype(*args@[0].value, old(ctx).env())) { Operator::Ge } else { Operator::UnsignedGe }), seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()) && cfw(ctype(*args@[0].value, old(ctx).env())) == cfw(ctype(*args@[1].value, old(ctx).env())) && is_i(ctype(*args@[0].value, old(ctx).env())) == is_i(ctype(*args@[1].value, old(ctx).env())))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_trunc
impl: impl Loc<Expression>
requires: args@.len() == 1
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::Truncate, seq![vn(*args@[0].value, old(ctx).env())], old(ctx).env()) && cfw(ctype(*self, old(ctx).env())) <= cfw(ctype(*args@[0].value, old(ctx).env())))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_sext
impl: impl Loc<Expression>
requires: args@.len() == 1
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::SignExtend, seq![vn(*args@[0].value, old(ctx).env())], old(ctx).env()) && cfw(ctype(*self, old(ctx).env())) >= cfw(ctype(*args@[0].value, old(ctx).env())))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_zext
impl: impl Loc<Expression>
requires: args@.len() == 1
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::ZeroExtend, seq![vn(*args@[0].value, old(ctx).env())], old(ctx).env()) && cfw(ctype(*self, old(ctx).env())) >= cfw(ctype(*args@[0].value, old(ctx).env())))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_transmute
impl: impl Loc<Expression>
requires: args@.len() == 1
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::BlackBoxAlias, seq![vn(*args@[0].value, old(ctx).env())], old(ctx).env()) && cfw(ctype(*self, old(ctx).env())) == cfw(ctype(*args@[0].value, old(ctx).env())))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_concat
impl: impl Loc<Expression>
requires: args@.len() == 2
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::Concat, seq![vn(*args@[0].value, old(ctx).env()), vn(*args@[1].value, old(ctx).env())], old(ctx).env()) && cfw(ctype(*self, old(ctx).env())) == cfw(ctype(*args@[0].value, old(ctx).env())) + cfw(ctype(*args@[1].value, old(ctx).env())))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_reduce_and
impl: impl Loc<Expression>
requires: args@.len() == 1
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::ReduceAnd, seq![vn(*args@[0].value, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_reduce_or
impl: impl Loc<Expression>
requires: args@.len() == 1
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::ReduceOr, seq![vn(*args@[0].value, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::handle_reduce_xor
impl: impl Loc<Expression>
requires: args@.len() == 1
ensures: r matches Ok(x) ==> (adds(result.stmts@, x.stmts@, *self, Operator::ReduceXor, seq![vn(*args@[0].value, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_add
expand: binop_builder, dual_binop_builder
arm: BinaryOperator::Add
tail: Ok(result)
rule: Add ==> Operator::Add
rule: UnsignedAdd ==> Operator::UnsignedAdd
rule: Sub ==> Operator::Sub
rule: UnsignedSub ==> Operator::UnsignedSub
rule: Mul ==> Operator::Mul
rule: UnsignedMul ==> Operator::UnsignedMul
rule: Div ==> Operator::Div
rule: UnsignedDiv ==> Operator::UnsignedDiv
rule: Mod ==> Operator::Mod
rule: UnsignedMod ==> Operator::UnsignedMod
rule: LeftShift ==> Operator::LeftShift
rule: RightShift ==> Operator::RightShift
rule: ArithmeticRightShift ==> Operator::ArithmeticRightShift
rule: self ==> this
sig: (this: &Loc<Expression>, lhs: &Box<Loc<Expression>>, rhs: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@ + code(**lhs, old(ctx).env()) + code(**rhs, old(ctx).env()), x.stmts@, *this, (if is_i(ctype(**lhs, old(ctx).env())) { Operator::Add } else { Operator::UnsignedAdd }), seq![vn(**lhs, old(ctx).env()), vn(**rhs, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_sub
expand: binop_builder, dual_binop_builder
arm: BinaryOperator::Sub
tail: Ok(result)
rule: Add ==> Operator::Add
rule: UnsignedAdd ==> Operator::UnsignedAdd
rule: Sub ==> Operator::Sub
rule: UnsignedSub ==> Operator::UnsignedSub
rule: Mul ==> Operator::Mul
rule: UnsignedMul ==> Operator::UnsignedMul
rule: Div ==> Operator::Div
rule: UnsignedDiv ==> Operator::UnsignedDiv
rule: Mod ==> Operator::Mod
rule: UnsignedMod ==> Operator::UnsignedMod
rule: LeftShift ==> Operator::LeftShift
rule: RightShift ==> Operator::RightShift
rule: ArithmeticRightShift ==> Operator::ArithmeticRightShift
rule: self ==> this
sig: (this: &Loc<Expression>, lhs: &Box<Loc<Expression>>, rhs: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@ + code(**lhs, old(ctx).env()) + code(**rhs, old(ctx).env()), x.stmts@, *this, (if is_i(ctype(**lhs, old(ctx).env())) { Operator::Sub } else { Operator::UnsignedSub }), seq![vn(**lhs, old(ctx).env()), vn(**rhs, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_mul
expand: binop_builder, dual_binop_builder
arm: BinaryOperator::Mul
tail: Ok(result)
rule: Add ==> Operator::Add
rule: UnsignedAdd ==> Operator::UnsignedAdd
rule: Sub ==> Operator::Sub
rule: UnsignedSub ==> Operator::UnsignedSub
rule: Mul ==> Operator::Mul
rule: UnsignedMul ==> Operator::UnsignedMul
rule: Div ==> Operator::Div
rule: UnsignedDiv ==> Operator::UnsignedDiv
rule: Mod ==> Operator::Mod
rule: UnsignedMod ==> Operator::UnsignedMod
rule: LeftShift ==> Operator::LeftShift
rule: RightShift ==> Operator::RightShift
rule: ArithmeticRightShift ==> Operator::ArithmeticRightShift
rule: self ==> this
sig: (this: &Loc<Expression>, lhs: &Box<Loc<Expression>>, rhs: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@ + code(**lhs, old(ctx).env()) + code(**rhs, old(ctx).env()), x.stmts@, *this, (if is_i(ctype(**lhs, old(ctx).env())) { Operator::Mul } else { Operator::UnsignedMul }), seq![vn(**lhs, old(ctx).env()), vn(**rhs, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_div
expand: binop_builder, dual_binop_builder
arm: BinaryOperator::Div
tail: Ok(result)
rule: Add ==> Operator::Add
rule: UnsignedAdd ==> Operator::UnsignedAdd
rule: Sub ==> Operator::Sub
rule: UnsignedSub ==> Operator::UnsignedSub
rule: Mul ==> Operator::Mul
rule: UnsignedMul ==> Operator::UnsignedMul
rule: Div ==> Operator::Div
rule: UnsignedDiv ==> Operator::UnsignedDiv
rule: Mod ==> Operator::Mod
rule: UnsignedMod ==> Operator::UnsignedMod
rule: LeftShift ==> Operator::LeftShift
rule: RightShift ==> Operator::RightShift
rule: ArithmeticRightShift ==> Operator::ArithmeticRightShift
rule: self ==> this
sig: (this: &Loc<Expression>, lhs: &Box<Loc<Expression>>, rhs: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@ + code(**lhs, old(ctx).env()) + code(**rhs, old(ctx).env()), x.stmts@, *this, (if is_i(ctype(**lhs, old(ctx).env())) { Operator::Div } else { Operator::UnsignedDiv }), seq![vn(**lhs, old(ctx).env()), vn(**rhs, old(ctx).env())], old(ctx).env()) && (rhs.inner.kind matches ExprKind::IntLiteral(v, _) && exists|k: nat| v@ == #[trigger] pow2(k)))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_mod
expand: binop_builder, dual_binop_builder
arm: BinaryOperator::Mod
tail: Ok(result)
rule: Add ==> Operator::Add
rule: UnsignedAdd ==> Operator::UnsignedAdd
rule: Sub ==> Operator::Sub
rule: UnsignedSub ==> Operator::UnsignedSub
rule: Mul ==> Operator::Mul
rule: UnsignedMul ==> Operator::UnsignedMul
rule: Div ==> Operator::Div
rule: UnsignedDiv ==> Operator::UnsignedDiv
rule: Mod ==> Operator::Mod
rule: UnsignedMod ==> Operator::UnsignedMod
rule: LeftShift ==> Operator::LeftShift
rule: RightShift ==> Operator::RightShift
rule: ArithmeticRightShift ==> Operator::ArithmeticRightShift
rule: self ==> this
sig: (this: &Loc<Expression>, lhs: &Box<Loc<Expression>>, rhs: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@ + code(**lhs, old(ctx).env()) + code(**rhs, old(ctx).env()), x.stmts@, *this, (if is_i(ctype(**lhs, old(ctx).env())) { Operator::Mod } else { Operator::UnsignedMod }), seq![vn(**lhs, old(ctx).env()), vn(**rhs, old(ctx).env())], old(ctx).env()) && (rhs.inner.kind matches ExprKind::IntLiteral(v, _) && exists|k: nat| v@ == #[trigger] pow2(k)))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_leftshift
expand: binop_builder, dual_binop_builder
arm: BinaryOperator::LeftShift
tail: Ok(result)
rule: Add ==> Operator::Add
rule: UnsignedAdd ==> Operator::UnsignedAdd
rule: Sub ==> Operator::Sub
rule: UnsignedSub ==> Operator::UnsignedSub
rule: Mul ==> Operator::Mul
rule: UnsignedMul ==> Operator::UnsignedMul
rule: Div ==> Operator::Div
rule: UnsignedDiv ==> Operator::UnsignedDiv
rule: Mod ==> Operator::Mod
rule: UnsignedMod ==> Operator::UnsignedMod
rule: LeftShift ==> Operator::LeftShift
rule: RightShift ==> Operator::RightShift
rule: ArithmeticRightShift ==> Operator::ArithmeticRightShift
rule: self ==> this
sig: (this: &Loc<Expression>, lhs: &Box<Loc<Expression>>, rhs: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@ + code(**lhs, old(ctx).env()) + code(**rhs, old(ctx).env()), x.stmts@, *this, Operator::LeftShift, seq![vn(**lhs, old(ctx).env()), vn(**rhs, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_rightshift
expand: binop_builder, dual_binop_builder
arm: BinaryOperator::RightShift
tail: Ok(result)
rule: Add ==> Operator::Add
rule: UnsignedAdd ==> Operator::UnsignedAdd
rule: Sub ==> Operator::Sub
rule: UnsignedSub ==> Operator::UnsignedSub
rule: Mul ==> Operator::Mul
rule: UnsignedMul ==> Operator::UnsignedMul
rule: Div ==> Operator::Div
rule: UnsignedDiv ==> Operator::UnsignedDiv
rule: Mod ==> Operator::Mod
rule: UnsignedMod ==> Operator::UnsignedMod
rule: LeftShift ==> Operator::LeftShift
rule: RightShift ==> Operator::RightShift
rule: ArithmeticRightShift ==> Operator::ArithmeticRightShift
rule: self ==> this
sig: (this: &Loc<Expression>, lhs: &Box<Loc<Expression>>, rhs: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@ + code(**lhs, old(ctx).env()) + code(**rhs, old(ctx).env()), x.stmts@, *this, Operator::RightShift, seq![vn(**lhs, old(ctx).env()), vn(**rhs, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_arithmeticrightshift
expand: binop_builder, dual_binop_builder
arm: BinaryOperator::ArithmeticRightShift
tail: Ok(result)
rule: Add ==> Operator::Add
rule: UnsignedAdd ==> Operator::UnsignedAdd
rule: Sub ==> Operator::Sub
rule: UnsignedSub ==> Operator::UnsignedSub
rule: Mul ==> Operator::Mul
rule: UnsignedMul ==> Operator::UnsignedMul
rule: Div ==> Operator::Div
rule: UnsignedDiv ==> Operator::UnsignedDiv
rule: Mod ==> Operator::Mod
rule: UnsignedMod ==> Operator::UnsignedMod
rule: LeftShift ==> Operator::LeftShift
rule: RightShift ==> Operator::RightShift
rule: ArithmeticRightShift ==> Operator::ArithmeticRightShift
rule: self ==> this
sig: (this: &Loc<Expression>, lhs: &Box<Loc<Expression>>, rhs: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> (adds(result.stmts@ + code(**lhs, old(ctx).env()) + code(**rhs, old(ctx).env()), x.stmts@, *this, Operator::ArithmeticRightShift, seq![vn(**lhs, old(ctx).env()), vn(**rhs, old(ctx).env())], old(ctx).env()))
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_un_sub
arm: hir::expression::UnaryOperator::Sub
lets: unop_builder
tail: Ok(result)
rule: USub ==> Operator::USub
rule: self ==> this
sig: (this: &Loc<Expression>, operand: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> adds(result.stmts@ + code(**operand, old(ctx).env()), x.stmts@, *this, Operator::USub, seq![vn(**operand, old(ctx).env())], old(ctx).env())
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_un_not
arm: hir::expression::UnaryOperator::Not
lets: unop_builder
tail: Ok(result)
rule: Not ==> Operator::Not
rule: self ==> this
sig: (this: &Loc<Expression>, operand: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> adds(result.stmts@ + code(**operand, old(ctx).env()), x.stmts@, *this, Operator::Not, seq![vn(**operand, old(ctx).env())], old(ctx).env())
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_un_bitwisenot
arm: hir::expression::UnaryOperator::BitwiseNot
lets: unop_builder
tail: Ok(result)
rule: BitwiseNot ==> Operator::BitwiseNot
rule: self ==> this
sig: (this: &Loc<Expression>, operand: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> adds(result.stmts@ + code(**operand, old(ctx).env()), x.stmts@, *this, Operator::BitwiseNot, seq![vn(**operand, old(ctx).env())], old(ctx).env())
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_un_dereference
arm: hir::expression::UnaryOperator::Dereference
lets: unop_builder
tail: Ok(result)
rule: Alias ==> Operator::Alias
rule: self ==> this
sig: (this: &Loc<Expression>, operand: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> adds(result.stmts@ + code(**operand, old(ctx).env()), x.stmts@, *this, Operator::Alias, seq![vn(**operand, old(ctx).env())], old(ctx).env())
@*/

/*@ fn spade-hir-lowering/src/lib.rs :: <ExprLocal for Loc>::lower as lo_un_reference
arm: hir::expression::UnaryOperator::Reference
lets: unop_builder
tail: Ok(result)
rule: ConstructCopyView ==> Operator::ConstructCopyView
rule: self ==> this
sig: (this: &Loc<Expression>, operand: &Box<Loc<Expression>>, mut result: StatementList, self_type: Type, ctx: &mut Context) -> (r: Result<StatementList>)
requires: w(self_type) == cfw(ctype(*this, old(ctx).env())), (self_type is Int) == is_i(ctype(*this, old(ctx).env())), (self_type is UInt) == is_u(ctype(*this, old(ctx).env()))
ensures: r matches Ok(x) ==> adds(result.stmts@ + code(**operand, old(ctx).env()), x.stmts@, *this, Operator::ConstructCopyView, seq![vn(**operand, old(ctx).env())], old(ctx).env())
@*/

} // verus!
fn main() {}
