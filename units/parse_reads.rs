// What a parser's text is made of, combinator by combinator (all proved)
pub mod reads_x {
use super::*;
use vstd::prelude::*;
verus! {
pub open spec fn cat2(t: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> bool { t == a + b }
pub open spec fn cat3(t: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) -> bool { t == a + b + c }
pub open spec fn cat4(t: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>) -> bool { t == a + b + c + d }
pub proof fn lem_reads<A>(p: Parser<A>, x: A, t: Seq<u8>) -> (o: (Seq<u8>, Seq<u8>))
    requires reads(p, x, t)
    ensures p(o.0) == PR::Ok(x, o.1), suff(o.0, o.1), took(o.0, o.1) == t
{ reveal(reads); let (i, r) = choose|i: Seq<u8>, r: Seq<u8>| #[trigger] p(i) == PR::Ok(x, r) && suff(i, r) && #[trigger] took(i, r) == t; (i, r) }
pub proof fn lem_reads_is<A>(p: Parser<A>, x: A, i: Seq<u8>, r: Seq<u8>)
    requires p(i) == PR::Ok(x, r), suff(i, r)
    ensures reads(p, x, took(i, r))
{ reveal(reads); }
pub broadcast proof fn reads_byte(b: u8, x: u8, t: Seq<u8>) requires #[trigger] reads(p_byte(b), x, t) ensures t == seq![b], x == b
{ let (i, r) = lem_reads(p_byte(b), x, t); assert(t =~= seq![b]); }
pub broadcast proof fn reads_lit(s: Seq<u8>, x: Seq<u8>, t: Seq<u8>) requires #[trigger] reads(p_lit(s), x, t) ensures t == s, x == s
{ let (i, r) = lem_reads(p_lit(s), x, t); assert(t =~= s); }
pub broadcast proof fn reads_one_of(f: spec_fn(u8) -> bool, x: u8, t: Seq<u8>) requires #[trigger] reads(p_one_of(f), x, t) ensures t == seq![x], f(x)
{ let (i, r) = lem_reads(p_one_of(f), x, t); assert(t =~= seq![x]); }
pub broadcast proof fn reads_take_while(lo: int, hi: Option<int>, f: spec_fn(u8) -> bool, x: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(p_take_while(lo, hi, f), x, t), hi is Some ==> hi->0 >= 0
    ensures t == x, x.len() >= lo, hi is Some ==> x.len() <= hi->0, forall|k: int| 0 <= k < x.len() ==> f(#[trigger] x[k])
{
    let (i, r) = lem_reads(p_take_while(lo, hi, f), x, t);
    lem_span(i, f);
    assert(t =~= x);
    assert forall|k: int| 0 <= k < x.len() implies f(#[trigger] x[k]) by { assert(x[k] == i[k]); }
}
pub broadcast proof fn reads_digit1(x: Seq<u8>, t: Seq<u8>) requires #[trigger] reads(p_digit1(), x, t) ensures t == x, x.len() >= 1, forall|k: int| 0 <= k < x.len() ==> is_digit(#[trigger] x[k])
{ reads_take_while(1, None, |c: u8| is_digit(c), x, t); let f = |c: u8| is_digit(c); assert forall|k: int| 0 <= k < x.len() implies is_digit(#[trigger] x[k]) by { assert(f(x[k])); } }
pub broadcast proof fn reads_space1(x: Seq<u8>, t: Seq<u8>) requires #[trigger] reads(p_multispace1(), x, t) ensures t == x, x.len() >= 1, blank(t)
{ reads_take_while(1, None, |c: u8| is_space(c), x, t); let f = |c: u8| is_space(c); assert forall|k: int| 0 <= k < x.len() implies is_space(#[trigger] x[k]) by { assert(f(x[k])); } }
pub broadcast proof fn reads_map<A, B>(p: Parser<A>, f: spec_fn(A) -> B, y: B, t: Seq<u8>)
    requires sfx(p), #[trigger] reads(p_map(p, f), y, t)
    ensures exists|x: A| y == #[trigger] f(x) && reads(p, x, t)
{ let (i, r) = lem_reads(p_map(p, f), y, t); let x = p(i)->Ok_0; lem_reads_is(p, x, i, r); assert(y == f(x)); }
pub broadcast proof fn reads_value<A, B>(p: Parser<A>, v: B, y: B, t: Seq<u8>)
    requires sfx(p), #[trigger] reads(p_value(p, v), y, t)
    ensures y == v, exists|x: A| #[trigger] reads(p, x, t)
{ let (i, r) = lem_reads(p_value(p, v), y, t); let x = p(i)->Ok_0; lem_reads_is(p, x, i, r); }
pub broadcast proof fn reads_take<A>(p: Parser<A>, y: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(p_take(p), y, t)
    ensures y == t, exists|x: A| #[trigger] reads(p, x, t)
{ let (i, r) = lem_reads(p_take(p), y, t); let x = p(i)->Ok_0; lem_reads_is(p, x, i, r); }
pub broadcast proof fn reads_empty(x: (), t: Seq<u8>) requires #[trigger] reads(p_empty(), x, t) ensures t.len() == 0
{ let (i, r) = lem_reads(p_empty(), x, t); }
/// a whole text
pub proof fn lem_parse_reads<A>(p: Parser<A>, t: Seq<u8>)
    requires sfx(p)
    ensures p_parse(p, t) is Ok ==> reads(p, p_parse(p, t)->Ok_0, t)
{ reveal(sfx); match p(t) { PR::Ok(x, r) => { if r.len() == 0 { lem_reads_is(p, x, t, r); assert(took(t, r) =~= t); } } _ => {} } }
pub proof fn lem_fold_front<T, S>(xs: Seq<T>, init: S, f: spec_fn(S, T) -> S)
    requires xs.len() > 0
    ensures seq_fold(xs, init, f) == seq_fold(xs.subrange(1, xs.len() as int), f(init, xs[0]), f)
    decreases xs.len()
{
    let r = xs.subrange(1, xs.len() as int);
    if xs.len() == 1 { assert(seq_fold(xs.drop_last(), init, f) == init); }
    else {
        lem_fold_front(xs.drop_last(), init, f);
        assert(xs.drop_last().subrange(1, xs.len() - 1) =~= r.drop_last());
        assert(r.last() == xs.last());
    }
}
pub broadcast proof fn reads_with_taken<A>(p: Parser<A>, y: (A, Seq<u8>), t: Seq<u8>)
    requires #[trigger] reads(p_with_taken(p), y, t)
    ensures y.1 == t, reads(p, y.0, t)
{ let (i, r) = lem_reads(p_with_taken(p), y, t); lem_reads_is(p, y.0, i, r); }
pub broadcast proof fn reads_verify<A>(p: Parser<A>, f: spec_fn(A) -> bool, y: A, t: Seq<u8>)
    requires #[trigger] reads(p_verify(p, f), y, t)
    ensures f(y), reads(p, y, t)
{ let (i, r) = lem_reads(p_verify(p, f), y, t); lem_reads_is(p, y, i, r); }
pub broadcast proof fn reads_verify_map<A, B>(p: Parser<A>, f: spec_fn(A) -> Option<B>, y: B, t: Seq<u8>)
    requires #[trigger] reads(p_verify_map(p, f), y, t)
    ensures exists|x: A| #[trigger] f(x) == Some(y) && reads(p, x, t)
{ let (i, r) = lem_reads(p_verify_map(p, f), y, t); let x = p(i)->Ok_0; lem_reads_is(p, x, i, r); assert(f(x) == Some(y)); }
pub broadcast proof fn reads_backtrack<A>(p: Parser<A>, y: A, t: Seq<u8>)
    requires #[trigger] reads(p_backtrack(p), y, t)
    ensures reads(p, y, t)
{ let (i, r) = lem_reads(p_backtrack(p), y, t); lem_reads_is(p, y, i, r); }
pub broadcast proof fn reads_alt<A>(p: Parser<A>, q: Parser<A>, y: A, t: Seq<u8>)
    requires #[trigger] reads(p_alt(p, q), y, t)
    ensures reads(p, y, t) || reads(q, y, t)
{ let (i, r) = lem_reads(p_alt(p, q), y, t); if p(i) is Ok { lem_reads_is(p, y, i, r); } else { lem_reads_is(q, y, i, r); } }
pub broadcast proof fn reads_opt<A>(p: Parser<A>, y: Option<A>, t: Seq<u8>)
    requires sfx(p), #[trigger] reads(p_opt(p), y, t)
    ensures y is Some ==> reads(p, y->0, t), y is None ==> t.len() == 0
{ let (i, r) = lem_reads(p_opt(p), y, t); if p(i) is Ok { lem_reads_is(p, y->0, i, r); } }
pub broadcast proof fn reads_ws<A>(p: Parser<A>, y: A, t: Seq<u8>)
    requires sfx(p), #[trigger] reads(p_ws(p), y, t)
    ensures exists|u: Seq<u8>| #[trigger] padded(t, u) && reads(p, y, u)
{ let (i, r) = lem_reads(p_ws(p), y, t); let o = lem_ws(p, i); lem_reads_is(p, y, o.0, o.1); }
pub broadcast proof fn reads_tup2<A, B>(p: Parser<A>, q: Parser<B>, y: (A, B), t: Seq<u8>)
    requires sfx(p), sfx(q), #[trigger] reads(p_tup2(p, q), y, t)
    ensures exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, y.0, a) && reads(q, y.1, b)
{
    reveal(sfx);
    let (i, s) = lem_reads(p_tup2(p, q), y, t);
    let r = p(i)->Ok_1;
    assert(p(i) == PR::Ok(y.0, r) && q(r) == PR::Ok(y.1, s));
    lem_suff_trans(i, r, s);
    lem_reads_is(p, y.0, i, r); lem_reads_is(q, y.1, r, s);
    assert(cat2(t, took(i, r), took(r, s)));
}
pub broadcast proof fn reads_tup3<A, B, C>(p: Parser<A>, q: Parser<B>, w: Parser<C>, y: (A, B, C), t: Seq<u8>)
    requires sfx(p), sfx(q), sfx(w), #[trigger] reads(p_tup3(p, q, w), y, t)
    ensures exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && reads(p, y.0, a) && reads(q, y.1, b) && reads(w, y.2, c)
{
    broadcast use sfx_tup2;
    let g = |x: (A, (B, C))| (x.0, x.1.0, x.1.1);
    assert(sfx(p_tup2(p, p_tup2(q, w))));
    reads_map(p_tup2(p, p_tup2(q, w)), g, y, t);
    let x = choose|x: (A, (B, C))| y == #[trigger] g(x) && reads(p_tup2(p, p_tup2(q, w)), x, t);
    reads_tup2(p, p_tup2(q, w), x, t);
    let (a, d) = choose|a: Seq<u8>, d: Seq<u8>| #[trigger] cat2(t, a, d) && reads(p, x.0, a) && reads(p_tup2(q, w), x.1, d);
    reads_tup2(q, w, x.1, d);
    let (b, c) = choose|b: Seq<u8>, c: Seq<u8>| #[trigger] cat2(d, b, c) && reads(q, x.1.0, b) && reads(w, x.1.1, c);
    assert(t =~= a + b + c);
    assert(cat3(t, a, b, c));
}
pub broadcast proof fn reads_tup4<A, B, C, D>(p: Parser<A>, q: Parser<B>, w: Parser<C>, z: Parser<D>, y: (A, B, C, D), t: Seq<u8>)
    requires sfx(p), sfx(q), sfx(w), sfx(z), #[trigger] reads(p_tup4(p, q, w, z), y, t)
    ensures exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| #[trigger] cat4(t, a, b, c, d) && reads(p, y.0, a) && reads(q, y.1, b) && reads(w, y.2, c) && reads(z, y.3, d)
{
    broadcast use sfx_tup2, sfx_tup3;
    let g = |x: (A, (B, C, D))| (x.0, x.1.0, x.1.1, x.1.2);
    let m = p_tup3(q, w, z);
    assert(sfx(p_tup2(p, m)));
    reads_map(p_tup2(p, m), g, y, t);
    let x = choose|x: (A, (B, C, D))| y == #[trigger] g(x) && reads(p_tup2(p, m), x, t);
    reads_tup2(p, m, x, t);
    let (a, e) = choose|a: Seq<u8>, e: Seq<u8>| #[trigger] cat2(t, a, e) && reads(p, x.0, a) && reads(m, x.1, e);
    reads_tup3(q, w, z, x.1, e);
    let (b, c, d) = choose|b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| #[trigger] cat3(e, b, c, d) && reads(q, x.1.0, b) && reads(w, x.1.1, c) && reads(z, x.1.2, d);
    assert(t =~= a + b + c + d);
    assert(cat4(t, a, b, c, d));
}
pub open spec fn cat5(t: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>) -> bool { t == a + b + c + d + e }
pub broadcast proof fn reads_tup5<A, B, C, D, E>(p: Parser<A>, q: Parser<B>, w: Parser<C>, z: Parser<D>, v: Parser<E>, y: (A, B, C, D, E), t: Seq<u8>)
    requires sfx(p), sfx(q), sfx(w), sfx(z), sfx(v), #[trigger] reads(p_tup5(p, q, w, z, v), y, t)
    ensures exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>| #[trigger] cat5(t, a, b, c, d, e) && reads(p, y.0, a) && reads(q, y.1, b) && reads(w, y.2, c) && reads(z, y.3, d) && reads(v, y.4, e)
{
    broadcast use sfx_tup2, sfx_tup4;
    let g = |x: (A, (B, C, D, E))| (x.0, x.1.0, x.1.1, x.1.2, x.1.3);
    let m = p_tup4(q, w, z, v);
    assert(sfx(p_tup2(p, m)));
    reads_map(p_tup2(p, m), g, y, t);
    let x = choose|x: (A, (B, C, D, E))| y == #[trigger] g(x) && reads(p_tup2(p, m), x, t);
    reads_tup2(p, m, x, t);
    let (a, f) = choose|a: Seq<u8>, f: Seq<u8>| #[trigger] cat2(t, a, f) && reads(p, x.0, a) && reads(m, x.1, f);
    reads_tup4(q, w, z, v, x.1, f);
    let (b, c, d, e) = choose|b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>| #[trigger] cat4(f, b, c, d, e) && reads(q, x.1.0, b) && reads(w, x.1.1, c) && reads(z, x.1.2, d) && reads(v, x.1.3, e);
    assert(t =~= a + b + c + d + e);
    assert(cat5(t, a, b, c, d, e));
}
pub broadcast proof fn reads_preceded<A, B>(p: Parser<A>, q: Parser<B>, y: B, t: Seq<u8>)
    requires sfx(p), sfx(q), #[trigger] reads(p_preceded(p, q), y, t)
    ensures exists|x: A, a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && #[trigger] reads(p, x, a) && reads(q, y, b)
{
    broadcast use sfx_tup2;
    let g = |x: (A, B)| x.1;
    reads_map(p_tup2(p, q), g, y, t);
    let x = choose|x: (A, B)| y == #[trigger] g(x) && reads(p_tup2(p, q), x, t);
    reads_tup2(p, q, x, t);
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, x.0, a) && reads(q, x.1, b);
    assert(cat2(t, a, b) && reads(p, x.0, a) && reads(q, y, b));
}
pub broadcast proof fn reads_terminated<A, B>(p: Parser<A>, q: Parser<B>, y: A, t: Seq<u8>)
    requires sfx(p), sfx(q), #[trigger] reads(p_terminated(p, q), y, t)
    ensures exists|x: B, a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, y, a) && #[trigger] reads(q, x, b)
{
    broadcast use sfx_tup2;
    let g = |x: (A, B)| x.0;
    reads_map(p_tup2(p, q), g, y, t);
    let x = choose|x: (A, B)| y == #[trigger] g(x) && reads(p_tup2(p, q), x, t);
    reads_tup2(p, q, x, t);
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, x.0, a) && reads(q, x.1, b);
    assert(cat2(t, a, b) && reads(p, y, a) && reads(q, x.1, b));
}
pub broadcast proof fn reads_delimited<A, B, C>(p: Parser<A>, q: Parser<B>, w: Parser<C>, y: B, t: Seq<u8>)
    requires sfx(p), sfx(q), sfx(w), #[trigger] reads(p_delimited(p, q, w), y, t)
    ensures exists|x: A, z: C, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && #[trigger] reads(p, x, a) && reads(q, y, b) && #[trigger] reads(w, z, c)
{
    broadcast use sfx_tup2;
    let g = |x: (A, (B, C))| x.1.0;
    let m = p_tup2(q, w);
    assert(sfx(p_tup2(p, m)));
    reads_map(p_tup2(p, m), g, y, t);
    let x = choose|x: (A, (B, C))| y == #[trigger] g(x) && reads(p_tup2(p, m), x, t);
    reads_tup2(p, m, x, t);
    let (a, d) = choose|a: Seq<u8>, d: Seq<u8>| #[trigger] cat2(t, a, d) && reads(p, x.0, a) && reads(m, x.1, d);
    reads_tup2(q, w, x.1, d);
    let (b, c) = choose|b: Seq<u8>, c: Seq<u8>| #[trigger] cat2(d, b, c) && reads(q, x.1.0, b) && reads(w, x.1.1, c);
    assert(t =~= a + b + c);
    assert(cat3(t, a, b, c) && reads(p, x.0, a) && reads(q, y, b) && reads(w, x.1.1, c));
}
pub broadcast proof fn reads_separated_pair<A, B, C>(p: Parser<A>, q: Parser<B>, w: Parser<C>, y: (A, C), t: Seq<u8>)
    requires sfx(p), sfx(q), sfx(w), #[trigger] reads(p_separated_pair(p, q, w), y, t)
    ensures exists|z: B, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && reads(p, y.0, a) && #[trigger] reads(q, z, b) && reads(w, y.1, c)
{
    broadcast use sfx_tup2;
    let g = |x: (A, (B, C))| (x.0, x.1.1);
    let m = p_tup2(q, w);
    assert(sfx(p_tup2(p, m)));
    reads_map(p_tup2(p, m), g, y, t);
    let x = choose|x: (A, (B, C))| y == #[trigger] g(x) && reads(p_tup2(p, m), x, t);
    reads_tup2(p, m, x, t);
    let (a, d) = choose|a: Seq<u8>, d: Seq<u8>| #[trigger] cat2(t, a, d) && reads(p, x.0, a) && reads(m, x.1, d);
    reads_tup2(q, w, x.1, d);
    let (b, c) = choose|b: Seq<u8>, c: Seq<u8>| #[trigger] cat2(d, b, c) && reads(q, x.1.0, b) && reads(w, x.1.1, c);
    assert(t =~= a + b + c);
    assert(cat3(t, a, b, c) && reads(p, y.0, a) && reads(q, x.1.0, b) && reads(w, y.1, c));
}
/// one text after the other
pub open spec fn row<A>(p: Parser<A>, xs: Seq<A>, t: Seq<u8>) -> bool
    decreases xs.len()
{
    if xs.len() == 0 { t.len() == 0 } else { exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, xs[0], a) && row(p, xs.subrange(1, xs.len() as int), b) }
}
pub proof fn lem_row<A>(i: Seq<u8>, hi: Option<int>, p: Parser<A>)
    requires sfx(p)
    ensures match p_many(i, hi, p) { PR::Ok(xs, r) => suff(i, r) && row(p, xs, took(i, r)), _ => true }
    decreases i.len()
{
    reveal(sfx);
    lem_suff_refl(i);
    if !(hi is Some && hi->0 <= 0) {
        match p(i) { PR::Ok(x, r) => { if r.len() < i.len() {
            let h = match hi { Some(h) => Some(h - 1), None => None };
            lem_row(r, h, p);
            match p_many(r, h, p) { PR::Ok(xs, s) => {
                lem_suff_trans(i, r, s);
                lem_reads_is(p, x, i, r);
                let ys = seq![x] + xs;
                assert(ys.subrange(1, ys.len() as int) =~= xs);
                assert(cat2(took(i, s), took(i, r), took(r, s)));
                assert(row(p, ys, took(i, s)));
            } _ => {} }
        } } _ => {} }
    }
}
pub broadcast proof fn reads_repeat<A>(lo: int, hi: Option<int>, p: Parser<A>, y: Seq<A>, t: Seq<u8>)
    requires sfx(p), #[trigger] reads(p_repeat(lo, hi, p), y, t)
    ensures row(p, y, t), y.len() >= lo
{ let (i, r) = lem_reads(p_repeat(lo, hi, p), y, t); lem_row(i, hi, p); }
pub broadcast proof fn reads_fold<A, S>(p: Parser<Seq<A>>, init: S, f: spec_fn(S, A) -> S, y: S, t: Seq<u8>)
    requires sfx(p), #[trigger] reads(p_fold(p, init, f), y, t)
    ensures exists|x: Seq<A>| y == #[trigger] seq_fold(x, init, f) && reads(p, x, t)
{
    let g = |xs: Seq<A>| seq_fold(xs, init, f);
    reads_map(p, g, y, t);
    let x = choose|x: Seq<A>| y == #[trigger] g(x) && reads(p, x, t);
    assert(y == seq_fold(x, init, f));
}
/// the characters that the inside of `[…]` lists
pub open spec fn listed(ok: spec_fn(u8) -> bool, t: Seq<u8>) -> Option<Seq<u8>> decreases t.len() {
    if t.len() == 0 { Some(Seq::empty()) }
    else if t.len() >= 3 && t[1] == 45u8 {
        if ok(t[0]) && ok(t[2]) && t[0] < t[2] {
            match listed(ok, t.subrange(3, t.len() as int)) { Some(r) => Some(t[0].x_range_incl(t[2]) + r), None => None }
        } else { None }
    } else if ok(t[0]) { match listed(ok, t.subrange(1, t.len() as int)) { Some(r) => Some(seq![t[0]] + r), None => None } }
    else { None }
}
/// the items are characters and ranges of characters
pub open spec fn list_items(p: Parser<Seq<u8>>, ok: spec_fn(u8) -> bool) -> bool {
    forall|x: Seq<u8>, a: Seq<u8>| #[trigger] reads(p, x, a) ==> a.len() == 1 && ok(a[0]) && x == a
        || a.len() == 3 && a[1] == 45u8 && ok(a[0]) && ok(a[2]) && a[0] < a[2] && x == a[0].x_range_incl(a[2])
}
pub open spec fn appends(f: spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8>) -> bool { forall|a: Seq<u8>, b: Seq<u8>| #[trigger] f(a, b) == a + b }
pub proof fn lem_listed(p: Parser<Seq<u8>>, ok: spec_fn(u8) -> bool, xs: Seq<Seq<u8>>, t: Seq<u8>, f: spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8>, init: Seq<u8>)
    requires row(p, xs, t), !ok(45u8), appends(f), list_items(p, ok)
    ensures listed(ok, t) is Some, seq_fold(xs, init, f) == init + listed(ok, t)->0
    decreases xs.len()
{
    if xs.len() == 0 { assert(init + Seq::<u8>::empty() =~= init); } else {
        let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, xs[0], a) && row(p, xs.subrange(1, xs.len() as int), b);
        let ys = xs.subrange(1, xs.len() as int);
        lem_listed(p, ok, ys, b, f, init + xs[0]);
        lem_fold_front(xs, init, f);
        assert(t.subrange(a.len() as int, t.len() as int) =~= b);
        assert(t[0] == a[0]);
        let r = listed(ok, b)->0;
        assert(init + xs[0] + r =~= init + (xs[0] + r));
        if a.len() == 1 {
            if t.len() >= 3 && t[1] == 45u8 { assert(t[1] == b[0]); }
            assert(seq![t[0]] =~= xs[0]);
        } else { assert(t[1] == a[1] && t[2] == a[2]); }
    }
}
pub proof fn lem_brackets(p: Parser<Seq<u8>>, ok: spec_fn(u8) -> bool, f: spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8>, s: Seq<u8>, t: Seq<u8>)
    requires reads(p_fold(p_repeat(1, None, p), Seq::<u8>::empty(), f), s, t), sfx(p), !ok(45u8), appends(f), list_items(p, ok)
    ensures t.len() > 0, listed(ok, t) == Some(s)
{
    broadcast use sfx_repeat;
    let q = p_repeat(1, None, p);
    let e = Seq::<u8>::empty();
    reads_fold(q, e, f, s, t);
    let xs = choose|xs: Seq<Seq<u8>>| s == #[trigger] seq_fold(xs, e, f) && reads(q, xs, t);
    reads_repeat(1, None, p, xs, t);
    lem_listed(p, ok, xs, t, f, e);
    assert(e + listed(ok, t)->0 =~= listed(ok, t)->0);
    if t.len() == 0 {
        let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, xs[0], a) && row(p, xs.subrange(1, xs.len() as int), b);
        assert(t.len() == a.len() + b.len());
    }
}
pub proof fn lem_cat_brackets(t: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires cat3(t, a, b, c), a.len() == 1, c.len() == 1
    ensures t[0] == a[0], t.last() == c[0], t.subrange(1, t.len() - 1) == b, t.len() == b.len() + 2
{ assert(t.subrange(1, t.len() - 1) =~= b); }
pub broadcast proof fn reads_separated<A, B>(lo: int, hi: Option<int>, p: Parser<A>, s: Parser<B>, y: Seq<A>, t: Seq<u8>)
    requires sfx(p), sfx(s), lo >= 1, #[trigger] reads(p_separated(lo, hi, p, s), y, t)
    ensures y.len() >= lo, exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, y[0], a) && row(p_preceded(s, p), y.subrange(1, y.len() as int), b)
{
    let (i, z) = lem_reads(p_separated(lo, hi, p, s), y, t);
    reveal(sfx);
    match p(i) { PR::Ok(x, r) => {
        let h = match hi { Some(h) => Some(h - 1), None => None };
        assert(sfx(p_preceded(s, p))) by { sfx_preceded(s, p); }
        lem_row(r, h, p_preceded(s, p));
        match p_many(r, h, p_preceded(s, p)) { PR::Ok(xs, r2) => {
            lem_suff_trans(i, r, r2);
            lem_reads_is(p, x, i, r);
            assert(y.subrange(1, y.len() as int) =~= xs);
            assert(cat2(t, took(i, r), took(r, r2)));
        } _ => {} }
    } _ => {} }
}
pub broadcast group group_reads {
    reads_byte, reads_lit, reads_one_of, reads_take_while, reads_digit1, reads_space1, reads_map, reads_value, reads_take, reads_empty, reads_with_taken, reads_verify, reads_verify_map,
    reads_backtrack, reads_alt, reads_opt, reads_ws, reads_tup2, reads_tup3, reads_tup4, reads_tup5, reads_preceded, reads_terminated, reads_delimited, reads_separated_pair,
    reads_repeat, reads_fold, reads_separated,
}
}
}
pub use reads_x::*;
