// What it means that a parser reads a text: the combinators' part of the
// argument (all proved)
pub mod sound_x {
use super::*;
use vstd::prelude::*;
verus! {
/// `r` is the end of `i`
pub open spec fn suff(i: Seq<u8>, r: Seq<u8>) -> bool { r.len() <= i.len() && r == i.subrange(i.len() - r.len(), i.len() as int) }
/// what was read when `r` is left
pub open spec fn took(i: Seq<u8>, r: Seq<u8>) -> Seq<u8> { i.subrange(0, i.len() - r.len()) }
pub proof fn lem_suff_refl(i: Seq<u8>) ensures suff(i, i), took(i, i) == Seq::<u8>::empty()
{ assert(i.subrange(0, i.len() as int) =~= i); assert(took(i, i) =~= Seq::<u8>::empty()); }
pub proof fn lem_suff_trans(i: Seq<u8>, r: Seq<u8>, s: Seq<u8>)
    requires suff(i, r), suff(r, s)
    ensures suff(i, s), took(i, s) == took(i, r) + took(r, s)
{
    assert(s =~= i.subrange(i.len() - s.len(), i.len() as int));
    assert(took(i, s) =~= took(i, r) + took(r, s));
}
pub proof fn lem_suff_skip(i: Seq<u8>, n: int)
    requires 0 <= n <= i.len()
    ensures suff(i, p_skip(i, n)), took(i, p_skip(i, n)) == i.subrange(0, n), p_skip(i, n).len() == i.len() - n
{}
pub proof fn lem_took_all(i: Seq<u8>, r: Seq<u8>)
    requires suff(i, r)
    ensures i == took(i, r) + r
{ assert(i =~= took(i, r) + r); }

pub trait XRange: Sized { spec fn x_range_incl(self, r: Self) -> Seq<Self>; }
impl XRange for int { open spec fn x_range_incl(self, r: int) -> Seq<int> { Seq::new(if r >= self { (r - self + 1) as nat } else { 0 }, |k: int| self + k) } }
impl XRange for u8 { open spec fn x_range_incl(self, r: u8) -> Seq<u8> { Seq::new(if r >= self { (r - self + 1) as nat } else { 0 }, |k: int| (self + k) as u8) } }
/// a parser leaves an end of its input
#[verifier::opaque]
pub open spec fn sfx<A>(p: Parser<A>) -> bool { forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => suff(i, r), _ => true } }
/// what a parser reads for a value is a text of that value
#[verifier::opaque]
pub open spec fn sound<A>(p: Parser<A>, s: spec_fn(A, Seq<u8>) -> bool) -> bool {
    forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => suff(i, r) && s(x, took(i, r)), _ => true }
}
/// the texts that a parser reads for a value
#[verifier::opaque]
pub open spec fn reads<A>(p: Parser<A>, x: A, t: Seq<u8>) -> bool { exists|i: Seq<u8>, r: Seq<u8>| #[trigger] p(i) == PR::Ok(x, r) && suff(i, r) && #[trigger] took(i, r) == t }

pub broadcast proof fn sfx_byte(b: u8) ensures #[trigger] sfx(p_byte(b)) { reveal(sfx);}
pub broadcast proof fn sfx_lit(s: Seq<u8>) ensures #[trigger] sfx(p_lit(s)) { reveal(sfx);}
pub broadcast proof fn sfx_one_of(f: spec_fn(u8) -> bool) ensures #[trigger] sfx(p_one_of(f)) { reveal(sfx);}
pub broadcast proof fn sfx_none_of(f: spec_fn(u8) -> bool) ensures #[trigger] sfx(p_none_of(f)) { reveal(sfx);}
pub broadcast proof fn sfx_take_while(lo: int, hi: Option<int>, f: spec_fn(u8) -> bool) requires hi is Some ==> hi->0 >= 0 ensures #[trigger] sfx(p_take_while(lo, hi, f))
{ reveal(sfx); broadcast use lem_span; assert forall|i: Seq<u8>| match #[trigger] p_take_while(lo, hi, f)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { lem_span(i, f); } }
pub broadcast proof fn sfx_take_till(lo: int, hi: Option<int>, f: spec_fn(u8) -> bool) requires hi is Some ==> hi->0 >= 0 ensures #[trigger] sfx(p_take_till(lo, hi, f))
{ reveal(sfx); sfx_take_while(lo, hi, |c: u8| !f(c)); }
pub broadcast proof fn sfx_empty() ensures #[trigger] sfx(p_empty())
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p_empty()(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { lem_suff_refl(i); } }
pub broadcast proof fn sfx_space0() ensures #[trigger] sfx(p_multispace0()) { reveal(sfx); sfx_take_while(0, None, |c: u8| is_space(c)); }
pub broadcast proof fn sfx_space1() ensures #[trigger] sfx(p_multispace1()) { reveal(sfx); sfx_take_while(1, None, |c: u8| is_space(c)); }
pub broadcast proof fn sfx_digit1() ensures #[trigger] sfx(p_digit1()) { reveal(sfx); sfx_take_while(1, None, |c: u8| is_digit(c)); }
pub broadcast proof fn sfx_map<A, B>(p: Parser<A>, f: spec_fn(A) -> B) requires sfx(p) ensures #[trigger] sfx(p_map(p, f))
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p_map(p, f)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { let _ = p(i); } }
pub broadcast proof fn sfx_value<A, B>(p: Parser<A>, v: B) requires sfx(p) ensures #[trigger] sfx(p_value(p, v)) { reveal(sfx); sfx_map(p, |x: A| v); }
pub broadcast proof fn sfx_verify<A>(p: Parser<A>, f: spec_fn(A) -> bool) requires sfx(p) ensures #[trigger] sfx(p_verify(p, f))
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p_verify(p, f)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { let _ = p(i); } }
pub broadcast proof fn sfx_verify_map<A, B>(p: Parser<A>, f: spec_fn(A) -> Option<B>) requires sfx(p) ensures #[trigger] sfx(p_verify_map(p, f))
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p_verify_map(p, f)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { let _ = p(i); } }
pub broadcast proof fn sfx_take<A>(p: Parser<A>) requires sfx(p) ensures #[trigger] sfx(p_take(p))
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p_take(p)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { let _ = p(i); } }
pub broadcast proof fn sfx_with_taken<A>(p: Parser<A>) requires sfx(p) ensures #[trigger] sfx(p_with_taken(p))
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p_with_taken(p)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { let _ = p(i); } }
pub broadcast proof fn sfx_opt<A>(p: Parser<A>) requires sfx(p) ensures #[trigger] sfx(p_opt(p))
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p_opt(p)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { let _ = p(i); lem_suff_refl(i); } }
pub broadcast proof fn sfx_backtrack<A>(p: Parser<A>) requires sfx(p) ensures #[trigger] sfx(p_backtrack(p))
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p_backtrack(p)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { let _ = p(i); } }
pub broadcast proof fn sfx_alt<A>(p: Parser<A>, q: Parser<A>) requires sfx(p), sfx(q) ensures #[trigger] sfx(p_alt(p, q))
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p_alt(p, q)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { let _ = p(i); let _ = q(i); } }
pub broadcast proof fn sfx_tup2<A, B>(p: Parser<A>, q: Parser<B>) requires sfx(p), sfx(q) ensures #[trigger] sfx(p_tup2(p, q))
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p_tup2(p, q)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by {
    match p(i) { PR::Ok(x, r) => match q(r) { PR::Ok(y, s) => { lem_suff_trans(i, r, s); } _ => {} } _ => {} } } }
pub broadcast proof fn sfx_tup3<A, B, C>(p: Parser<A>, q: Parser<B>, t: Parser<C>) requires sfx(p), sfx(q), sfx(t) ensures #[trigger] sfx(p_tup3(p, q, t))
{ reveal(sfx); sfx_tup2(q, t); sfx_tup2(p, p_tup2(q, t)); broadcast use sfx_map; assert(sfx(p_tup3(p, q, t))); }
pub broadcast proof fn sfx_tup4<A, B, C, D>(p: Parser<A>, q: Parser<B>, t: Parser<C>, u: Parser<D>) requires sfx(p), sfx(q), sfx(t), sfx(u) ensures #[trigger] sfx(p_tup4(p, q, t, u))
{ reveal(sfx); sfx_tup3(q, t, u); sfx_tup2(p, p_tup3(q, t, u)); broadcast use sfx_map; assert(sfx(p_tup4(p, q, t, u))); }
pub broadcast proof fn sfx_tup5<A, B, C, D, E>(p: Parser<A>, q: Parser<B>, t: Parser<C>, u: Parser<D>, v: Parser<E>) requires sfx(p), sfx(q), sfx(t), sfx(u), sfx(v) ensures #[trigger] sfx(p_tup5(p, q, t, u, v))
{ reveal(sfx); sfx_tup4(q, t, u, v); sfx_tup2(p, p_tup4(q, t, u, v)); broadcast use sfx_map; assert(sfx(p_tup5(p, q, t, u, v))); }
pub broadcast proof fn sfx_preceded<A, B>(p: Parser<A>, q: Parser<B>) requires sfx(p), sfx(q) ensures #[trigger] sfx(p_preceded(p, q)) { reveal(sfx); sfx_tup2(p, q); broadcast use sfx_map; assert(sfx(p_preceded(p, q))); }
pub broadcast proof fn sfx_terminated<A, B>(p: Parser<A>, q: Parser<B>) requires sfx(p), sfx(q) ensures #[trigger] sfx(p_terminated(p, q)) { reveal(sfx); sfx_tup2(p, q); broadcast use sfx_map; assert(sfx(p_terminated(p, q))); }
pub broadcast proof fn sfx_delimited<A, B, C>(p: Parser<A>, q: Parser<B>, t: Parser<C>) requires sfx(p), sfx(q), sfx(t) ensures #[trigger] sfx(p_delimited(p, q, t)) { reveal(sfx); sfx_tup2(q, t); sfx_tup2(p, p_tup2(q, t)); broadcast use sfx_map; assert(sfx(p_delimited(p, q, t))); }
pub broadcast proof fn sfx_separated_pair<A, B, C>(p: Parser<A>, q: Parser<B>, t: Parser<C>) requires sfx(p), sfx(q), sfx(t) ensures #[trigger] sfx(p_separated_pair(p, q, t)) { reveal(sfx); sfx_tup2(q, t); sfx_tup2(p, p_tup2(q, t)); broadcast use sfx_map; assert(sfx(p_separated_pair(p, q, t))); }
pub broadcast proof fn sfx_ws<A>(p: Parser<A>) requires sfx(p) ensures #[trigger] sfx(p_ws(p)) { reveal(sfx); broadcast use sfx_space0; sfx_delimited(p_multispace0(), p, p_multispace0()); }
pub proof fn lem_sfx_many<A>(i: Seq<u8>, hi: Option<int>, p: Parser<A>)
    requires sfx(p)
    ensures match p_many(i, hi, p) { PR::Ok(x, r) => suff(i, r), _ => true }
    decreases i.len()
{ reveal(sfx);
    lem_suff_refl(i);
    if !(hi is Some && hi->0 <= 0) {
        match p(i) { PR::Ok(x, r) => { if r.len() < i.len() {
            let h = match hi { Some(h) => Some(h - 1), None => None };
            lem_sfx_many(r, h, p);
            match p_many(r, h, p) { PR::Ok(xs, r2) => { lem_suff_trans(i, r, r2); } _ => {} }
        } } _ => {} }
    }
}
pub broadcast proof fn sfx_repeat<A>(lo: int, hi: Option<int>, p: Parser<A>) requires sfx(p) ensures #[trigger] sfx(p_repeat(lo, hi, p))
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] p_repeat(lo, hi, p)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { lem_sfx_many(i, hi, p); } }
pub broadcast proof fn sfx_separated<A, B>(lo: int, hi: Option<int>, p: Parser<A>, s: Parser<B>) requires sfx(p), sfx(s) ensures #[trigger] sfx(p_separated(lo, hi, p, s))
{ reveal(sfx); sfx_preceded(s, p); assert forall|i: Seq<u8>| match #[trigger] p_separated(lo, hi, p, s)(i) { PR::Ok(x, r) => suff(i, r), _ => true } by {
    lem_suff_refl(i);
    match p(i) { PR::Ok(x, r) => { let h = match hi { Some(h) => Some(h - 1), None => None };
        lem_sfx_many(r, h, p_preceded(s, p));
        match p_many(r, h, p_preceded(s, p)) { PR::Ok(xs, r2) => { lem_suff_trans(i, r, r2); } _ => {} } } _ => {} } } }
pub broadcast proof fn sfx_fold<A, S>(p: Parser<Seq<A>>, init: S, f: spec_fn(S, A) -> S) requires sfx(p) ensures #[trigger] sfx(p_fold(p, init, f)) { reveal(sfx); broadcast use sfx_map; assert(sfx(p_fold(p, init, f))); }
pub broadcast group group_sfx {
    sfx_byte, sfx_lit, sfx_one_of, sfx_none_of, sfx_take_while, sfx_take_till, sfx_empty, sfx_space0, sfx_space1, sfx_digit1,
    sfx_map, sfx_value, sfx_verify, sfx_verify_map, sfx_take, sfx_with_taken, sfx_opt, sfx_backtrack, sfx_alt, sfx_tup2, sfx_tup3, sfx_tup4, sfx_tup5,
    sfx_preceded, sfx_terminated, sfx_delimited, sfx_separated_pair, sfx_ws, sfx_repeat, sfx_separated, sfx_fold,
}

// ------------------------------------------------------------ sound
pub broadcast proof fn sound_cut<A>(s: spec_fn(A, Seq<u8>) -> bool) ensures #[trigger] sound(p_cut::<A>(), s) { reveal(sound);}
pub broadcast proof fn sound_alt<A>(p: Parser<A>, q: Parser<A>, s: spec_fn(A, Seq<u8>) -> bool)
    requires sound(p, s), sound(q, s)
    ensures #[trigger] sound(p_alt(p, q), s)
{ reveal(sound); assert forall|i: Seq<u8>| match #[trigger] p_alt(p, q)(i) { PR::Ok(x, r) => suff(i, r) && s(x, took(i, r)), _ => true } by { let _ = p(i); let _ = q(i); } }

pub open spec fn blank(t: Seq<u8>) -> bool { forall|k: int| 0 <= k < t.len() ==> is_space(#[trigger] t[k]) }
/// `t` is `u` with layout around it
pub open spec fn padded(t: Seq<u8>, u: Seq<u8>) -> bool { exists|a: Seq<u8>, b: Seq<u8>| t == #[trigger] (a + u + b) && blank(a) && blank(b) }
pub proof fn lem_padded(t: Seq<u8>, a: Seq<u8>, u: Seq<u8>, b: Seq<u8>)
    requires t == a + u + b, blank(a), blank(b)
    ensures padded(t, u)
{}
pub proof fn lem_padded_refl(t: Seq<u8>) ensures padded(t, t)
{ let e = Seq::<u8>::empty(); assert(t =~= e + t + e); lem_padded(t, e, t, e); }
pub proof fn lem_padded_trans(t: Seq<u8>, u: Seq<u8>, v: Seq<u8>)
    requires padded(t, u), padded(u, v)
    ensures padded(t, v)
{
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| t == #[trigger] (a + u + b) && blank(a) && blank(b);
    let (c, d) = choose|c: Seq<u8>, d: Seq<u8>| u == #[trigger] (c + v + d) && blank(c) && blank(d);
    assert(t =~= (a + c) + v + (d + b));
    lem_padded(t, a + c, v, d + b);
}
pub proof fn lem_space0(i: Seq<u8>)
    ensures p_multispace0()(i) is Ok, suff(i, p_multispace0()(i)->Ok_1), blank(took(i, p_multispace0()(i)->Ok_1))
{
    let f = |c: u8| is_space(c);
    lem_span(i, f);
    let n = p_span(i, f);
    assert(p_multispace0()(i) == PR::Ok(i.subrange(0, n), p_skip(i, n)));
    assert forall|k: int| 0 <= k < i.subrange(0, n).len() implies is_space(#[trigger] i.subrange(0, n)[k]) by { assert(f(i[k])); }
}
/// what `ws` leaves out is layout
pub proof fn lem_ws<A>(p: Parser<A>, i: Seq<u8>) -> (o: (Seq<u8>, Seq<u8>))
    requires sfx(p), p_ws(p)(i) is Ok
    ensures ({ let (x, r) = (p_ws(p)(i)->Ok_0, p_ws(p)(i)->Ok_1); p(o.0) == PR::Ok(x, o.1) && suff(o.0, o.1) && suff(i, r) && padded(took(i, r), took(o.0, o.1)) })
{ reveal(sfx);
    let r0 = p_multispace0()(i)->Ok_1;
    lem_space0(i);
    let r1 = p(r0)->Ok_1;
    assert(p_tup2(p, p_multispace0())(r0) is Ok);
    lem_space0(r1);
    let r2 = p_multispace0()(r1)->Ok_1;
    lem_suff_trans(i, r0, r1);
    lem_suff_trans(i, r1, r2);
    lem_padded(took(i, r2), took(i, r0), took(r0, r1), took(r1, r2));
    (r0, r1)
}
}
}
pub use sound_x::*;
