// winnow 0.7 parser combinators over complete input, as functions from the
// input to a result: the documented meaning of each combinator (definitions,
// no axioms).  `Err` is a recoverable failure (the input position is
// restored), `Cut` an unrecoverable one.
pub mod parser_x {
use super::*;
use vstd::prelude::*;
verus! {
pub enum PR<T> { Ok(T, Seq<u8>), Err, Cut }
pub type Parser<T> = spec_fn(Seq<u8>) -> PR<T>;

pub open spec fn p_skip(i: Seq<u8>, n: int) -> Seq<u8> { i.subrange(n, i.len() as int) }
pub open spec fn p_byte(b: u8) -> Parser<u8> {
    |i: Seq<u8>| if i.len() > 0 && i[0] == b { PR::Ok(b, p_skip(i, 1)) } else { PR::Err }
}
pub open spec fn p_lit(s: Seq<u8>) -> Parser<Seq<u8>> {
    |i: Seq<u8>| if sub_at(i, s, 0) { PR::Ok(s, p_skip(i, s.len() as int)) } else { PR::Err }
}
pub open spec fn p_one_of(f: spec_fn(u8) -> bool) -> Parser<u8> {
    |i: Seq<u8>| if i.len() > 0 && f(i[0]) { PR::Ok(i[0], p_skip(i, 1)) } else { PR::Err }
}
pub open spec fn p_none_of(f: spec_fn(u8) -> bool) -> Parser<u8> {
    |i: Seq<u8>| if i.len() > 0 && !f(i[0]) { PR::Ok(i[0], p_skip(i, 1)) } else { PR::Err }
}
/// length of the longest prefix of bytes in the set
pub open spec fn p_span(i: Seq<u8>, f: spec_fn(u8) -> bool) -> int
    decreases i.len()
{
    if i.len() == 0 { 0 } else if f(i[0]) { 1 + p_span(p_skip(i, 1), f) } else { 0 }
}
pub open spec fn p_take_while(lo: int, hi: Option<int>, f: spec_fn(u8) -> bool) -> Parser<Seq<u8>> {
    |i: Seq<u8>| {
        let n = p_span(i, f);
        let n = match hi { Some(h) => if n > h { h } else { n }, None => n };
        if n < lo { PR::Err } else { PR::Ok(i.subrange(0, n), p_skip(i, n)) }
    }
}
pub open spec fn p_take_till(lo: int, hi: Option<int>, f: spec_fn(u8) -> bool) -> Parser<Seq<u8>> {
    p_take_while(lo, hi, |c: u8| !f(c))
}
pub open spec fn p_empty() -> Parser<()> { |i: Seq<u8>| PR::Ok((), i) }
pub open spec fn is_space(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 13 }
pub open spec fn p_multispace0() -> Parser<Seq<u8>> { p_take_while(0, None, |c: u8| is_space(c)) }
pub open spec fn p_multispace1() -> Parser<Seq<u8>> { p_take_while(1, None, |c: u8| is_space(c)) }
pub open spec fn p_space0() -> Parser<Seq<u8>> { p_take_while(0, None, |c: u8| c == 32 || c == 9) }
pub open spec fn p_space1() -> Parser<Seq<u8>> { p_take_while(1, None, |c: u8| c == 32 || c == 9) }
pub open spec fn p_digit1() -> Parser<Seq<u8>> { p_take_while(1, None, |c: u8| is_digit(c)) }

pub open spec fn p_map<A, B>(p: Parser<A>, f: spec_fn(A) -> B) -> Parser<B> {
    |i: Seq<u8>| match p(i) { PR::Ok(x, r) => PR::Ok(f(x), r), PR::Err => PR::Err, PR::Cut => PR::Cut }
}
pub open spec fn p_verify<A>(p: Parser<A>, f: spec_fn(A) -> bool) -> Parser<A> {
    |i: Seq<u8>| match p(i) { PR::Ok(x, r) => if f(x) { PR::Ok(x, r) } else { PR::Err }, PR::Err => PR::Err, PR::Cut => PR::Cut }
}
pub open spec fn p_verify_map<A, B>(p: Parser<A>, f: spec_fn(A) -> Option<B>) -> Parser<B> {
    |i: Seq<u8>| match p(i) { PR::Ok(x, r) => match f(x) { Some(y) => PR::Ok(y, r), None => PR::Err }, PR::Err => PR::Err, PR::Cut => PR::Cut }
}
pub open spec fn p_value<A, B>(p: Parser<A>, v: B) -> Parser<B> { p_map(p, |x: A| v) }
pub open spec fn p_take<A>(p: Parser<A>) -> Parser<Seq<u8>> {
    |i: Seq<u8>| match p(i) { PR::Ok(x, r) => PR::Ok(i.subrange(0, i.len() - r.len()), r), PR::Err => PR::Err, PR::Cut => PR::Cut }
}
pub open spec fn p_with_taken<A>(p: Parser<A>) -> Parser<(A, Seq<u8>)> {
    |i: Seq<u8>| match p(i) { PR::Ok(x, r) => PR::Ok((x, i.subrange(0, i.len() - r.len())), r), PR::Err => PR::Err, PR::Cut => PR::Cut }
}
pub open spec fn p_opt<A>(p: Parser<A>) -> Parser<Option<A>> {
    |i: Seq<u8>| match p(i) { PR::Ok(x, r) => PR::Ok(Some(x), r), PR::Err => PR::Ok(None, i), PR::Cut => PR::Cut }
}
pub open spec fn p_peek<A>(p: Parser<A>) -> Parser<A> {
    |i: Seq<u8>| match p(i) { PR::Ok(x, r) => PR::Ok(x, i), PR::Err => PR::Err, PR::Cut => PR::Cut }
}
pub open spec fn p_not<A>(p: Parser<A>) -> Parser<()> {
    |i: Seq<u8>| match p(i) { PR::Ok(x, r) => PR::Err, PR::Err => PR::Ok((), i), PR::Cut => PR::Cut }
}
pub open spec fn p_cut_err<A>(p: Parser<A>) -> Parser<A> {
    |i: Seq<u8>| match p(i) { PR::Ok(x, r) => PR::Ok(x, r), PR::Err => PR::Cut, PR::Cut => PR::Cut }
}
/// errors without a mode: all of them are recoverable
pub open spec fn p_backtrack<A>(p: Parser<A>) -> Parser<A> {
    |i: Seq<u8>| match p(i) { PR::Ok(x, r) => PR::Ok(x, r), PR::Err => PR::Err, PR::Cut => PR::Err }
}
/// the bound of the recursion depth is reached
pub open spec fn p_cut<A>() -> Parser<A> { |i: Seq<u8>| PR::Cut }
pub open spec fn p_alt<A>(p: Parser<A>, q: Parser<A>) -> Parser<A> {
    |i: Seq<u8>| match p(i) { PR::Ok(x, r) => PR::Ok(x, r), PR::Err => q(i), PR::Cut => PR::Cut }
}
pub open spec fn p_tup2<A, B>(p: Parser<A>, q: Parser<B>) -> Parser<(A, B)> {
    |i: Seq<u8>| match p(i) {
        PR::Ok(x, r) => match q(r) { PR::Ok(y, s) => PR::Ok((x, y), s), PR::Err => PR::Err, PR::Cut => PR::Cut },
        PR::Err => PR::Err, PR::Cut => PR::Cut }
}
pub open spec fn p_tup3<A, B, C>(p: Parser<A>, q: Parser<B>, t: Parser<C>) -> Parser<(A, B, C)> {
    p_map(p_tup2(p, p_tup2(q, t)), |x: (A, (B, C))| (x.0, x.1.0, x.1.1))
}
pub open spec fn p_tup4<A, B, C, D>(p: Parser<A>, q: Parser<B>, t: Parser<C>, u: Parser<D>) -> Parser<(A, B, C, D)> {
    p_map(p_tup2(p, p_tup3(q, t, u)), |x: (A, (B, C, D))| (x.0, x.1.0, x.1.1, x.1.2))
}
pub open spec fn p_tup5<A, B, C, D, E>(p: Parser<A>, q: Parser<B>, t: Parser<C>, u: Parser<D>, v: Parser<E>) -> Parser<(A, B, C, D, E)> {
    p_map(p_tup2(p, p_tup4(q, t, u, v)), |x: (A, (B, C, D, E))| (x.0, x.1.0, x.1.1, x.1.2, x.1.3))
}
pub open spec fn p_tup6<A, B, C, D, E, F>(p: Parser<A>, q: Parser<B>, t: Parser<C>, u: Parser<D>, v: Parser<E>, w: Parser<F>) -> Parser<(A, B, C, D, E, F)> {
    p_map(p_tup2(p, p_tup5(q, t, u, v, w)), |x: (A, (B, C, D, E, F))| (x.0, x.1.0, x.1.1, x.1.2, x.1.3, x.1.4))
}
pub open spec fn p_preceded<A, B>(p: Parser<A>, q: Parser<B>) -> Parser<B> { p_map(p_tup2(p, q), |x: (A, B)| x.1) }
pub open spec fn p_terminated<A, B>(p: Parser<A>, q: Parser<B>) -> Parser<A> { p_map(p_tup2(p, q), |x: (A, B)| x.0) }
pub open spec fn p_delimited<A, B, C>(p: Parser<A>, q: Parser<B>, t: Parser<C>) -> Parser<B> {
    p_map(p_tup2(p, p_tup2(q, t)), |x: (A, (B, C))| x.1.0)
}
pub open spec fn p_separated_pair<A, B, C>(p: Parser<A>, q: Parser<B>, t: Parser<C>) -> Parser<(A, C)> {
    p_map(p_tup2(p, p_tup2(q, t)), |x: (A, (B, C))| (x.0, x.1.1))
}
pub open spec fn p_ws<A>(p: Parser<A>) -> Parser<A> { p_delimited(p_multispace0(), p, p_multispace0()) }

/// as many times as possible, at most `hi` times; a success that consumes
/// nothing is an error of the grammar (winnow asserts)
pub open spec fn p_many<A>(i: Seq<u8>, hi: Option<int>, p: Parser<A>) -> PR<Seq<A>>
    decreases i.len()
{
    if hi is Some && hi->0 <= 0 { PR::Ok(Seq::empty(), i) } else {
        match p(i) {
            PR::Err => PR::Ok(Seq::empty(), i),
            PR::Cut => PR::Cut,
            PR::Ok(x, r) => if r.len() >= i.len() { PR::Cut } else {
                match p_many(r, match hi { Some(h) => Some(h - 1), None => None }, p) {
                    PR::Ok(xs, r2) => PR::Ok(seq![x] + xs, r2),
                    PR::Err => PR::Err,
                    PR::Cut => PR::Cut,
                }
            }
        }
    }
}
pub open spec fn p_repeat<A>(lo: int, hi: Option<int>, p: Parser<A>) -> Parser<Seq<A>> {
    |i: Seq<u8>| match p_many(i, hi, p) {
        PR::Ok(xs, r) => if xs.len() < lo { PR::Err } else { PR::Ok(xs, r) },
        PR::Err => PR::Err, PR::Cut => PR::Cut }
}
pub open spec fn p_separated<A, B>(lo: int, hi: Option<int>, p: Parser<A>, s: Parser<B>) -> Parser<Seq<A>> {
    |i: Seq<u8>| match p(i) {
        PR::Err => if lo <= 0 { PR::Ok(Seq::empty(), i) } else { PR::Err },
        PR::Cut => PR::Cut,
        PR::Ok(x, r) => match p_many(r, match hi { Some(h) => Some(h - 1), None => None }, p_preceded(s, p)) {
            PR::Ok(xs, r2) => if xs.len() + 1 < lo { PR::Err } else { PR::Ok(seq![x] + xs, r2) },
            PR::Err => PR::Err, PR::Cut => PR::Cut }
    }
}
pub open spec fn p_fold<A, S>(p: Parser<Seq<A>>, init: S, f: spec_fn(S, A) -> S) -> Parser<S> {
    p_map(p, |xs: Seq<A>| seq_fold(xs, init, f))
}
/// `Parser::parse`: the whole input must be consumed
pub open spec fn p_parse<A>(p: Parser<A>, i: Seq<u8>) -> Result<A, XErr> {
    match p(i) { PR::Ok(x, r) => if r.len() == 0 { Ok(x) } else { Err(x_err()) }, _ => Err(x_err()) }
}

pub broadcast proof fn lem_span(i: Seq<u8>, f: spec_fn(u8) -> bool)
    ensures 0 <= #[trigger] p_span(i, f) <= i.len(),
        forall|k: int| 0 <= k < p_span(i, f) ==> f(#[trigger] i[k]),
        p_span(i, f) < i.len() ==> !f(i[p_span(i, f)]),
    decreases i.len()
{
    if i.len() > 0 && f(i[0]) {
        let t = p_skip(i, 1);
        lem_span(t, f);
        assert forall|k: int| 0 <= k < p_span(i, f) implies f(#[trigger] i[k]) by { if k > 0 { assert(t[k - 1] == i[k]); } }
        if p_span(i, f) < i.len() { assert(t[p_span(t, f)] == i[p_span(i, f)]); }
    }
}
pub proof fn lem_span_is(i: Seq<u8>, f: spec_fn(u8) -> bool, n: int)
    requires 0 <= n <= i.len(), forall|k: int| 0 <= k < n ==> f(#[trigger] i[k]), n < i.len() ==> !f(i[n])
    ensures p_span(i, f) == n
{
    lem_span(i, f);
    let m = p_span(i, f);
    if m < n { assert(f(i[m])); }
    if n < m { assert(f(i[n])); }
}
}
}
pub use parser_x::*;
