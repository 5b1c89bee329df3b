//@fuel src/query.rs parse_fragment parse_query
pub mod query_p {
use super::*;
use super::path_p::{PicaPath, parse_path, path_text, lem_path, lem_sfx_path, lem_sfx_cut};
use super::fmt_p::{Format, parse_format, format_text, lem_format, lem_sfx_format, lem_sfx_strings, wf, lem_format_wf};
use super::sub_p::{parse_string, quoted, tok, lem_string};
verus! {
broadcast use group_x;
//@type src/query.rs Query
//@type src/query.rs Fragment
//@fn src/query.rs parse_fragment => parse_fragment parser
//@fn src/query.rs parse_query => parse_query parser
/// one column of a query: a path, a text or a format
pub open spec fn fragment_text(f: Fragment, t: Seq<u8>) -> bool {
    match f { Fragment::Path(p) => path_text(*p, t), Fragment::Literal(v) => quoted(v, t), Fragment::Format(m) => format_text(*m, t) }
}
/// the shape that the evaluation of a query relies on (C10)
pub open spec fn fragment_wf(f: Fragment) -> bool {
    match f { Fragment::Path(p) => p.codes.len() > 0, Fragment::Literal(_) => true, Fragment::Format(m) => wf(m.fragments) }
}
pub open spec fn more_fragments(xs: Seq<Fragment>, t: Seq<u8>) -> bool decreases xs.len() {
    if xs.len() == 0 { t.len() == 0 } else { exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && tok(a, 44u8) && fragment_text(xs[0], b) && more_fragments(xs.subrange(1, xs.len() as int), c) }
}
/// the columns in their order, separated by commas
pub open spec fn query_text(q: Query, t: Seq<u8>) -> bool {
    &&& utf8_ok(t) ==> q.raw_query == t
    &&& q.fragments.len() > 0
    &&& exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && fragment_text(q.fragments[0], a) && more_fragments(q.fragments.subrange(1, q.fragments.len() as int), b)
}
pub broadcast proof fn lem_format_b(n: nat, x: Format, t: Seq<u8>)
    requires #[trigger] reads(parse_format(n), x, t)
    ensures format_text(x, t), wf(x.fragments)
{ lem_format(n, x, t); lem_format_wf(x, t); }
pub proof fn lem_sfx_fragment_q(n: nat)
    ensures sfx(parse_fragment(n))
{
    hide(parse_path); hide(parse_string); hide(parse_format);
    broadcast use sfx_map, sfx_alt, lem_sfx_cut;
    if n > 0 { lem_sfx_path((n - 1) as nat); lem_sfx_format((n - 1) as nat); }
    lem_sfx_strings();
}
pub broadcast proof fn lem_fragment(n: nat, x: Fragment, t: Seq<u8>)
    requires #[trigger] reads(parse_fragment(n), x, t)
    ensures fragment_text(x, t), fragment_wf(x)
{
    hide(parse_path); hide(parse_string); hide(parse_format); hide(path_text); hide(format_text); hide(wf); hide(quoted);
    if n == 0 { let (i, r) = lem_reads(parse_fragment(n), x, t); assert(false); }
    broadcast use sfx_map, sfx_alt, reads_map, reads_alt, lem_path, lem_string, lem_format_b;
    lem_sfx_path((n - 1) as nat); lem_sfx_format((n - 1) as nat); lem_sfx_strings();
}
pub proof fn lem_more_fragments(n: nat, xs: Seq<Fragment>, t: Seq<u8>)
    requires row(p_preceded(p_ws(p_byte(44u8)), parse_fragment(n)), xs, t)
    ensures more_fragments(xs, t), forall|i: int| 0 <= i < xs.len() ==> fragment_wf(#[trigger] xs[i])
    decreases xs.len()
{
    hide(parse_fragment); hide(fragment_text); hide(fragment_wf);
    if xs.len() > 0 {
        broadcast use sfx_ws, sfx_byte, reads_ws, reads_byte;
        let p = parse_fragment(n);
        lem_sfx_fragment_q(n);
        let q = p_ws(p_byte(44u8));
        let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p_preceded(q, p), xs[0], a) && row(p_preceded(q, p), xs.subrange(1, xs.len() as int), b);
        let ys = xs.subrange(1, xs.len() as int);
        lem_more_fragments(n, ys, b);
        reads_preceded(q, p, xs[0], a);
        let (x, c, d) = choose|x: u8, c: Seq<u8>, d: Seq<u8>| #[trigger] cat2(a, c, d) && #[trigger] reads(q, x, c) && reads(p, xs[0], d);
        assert(cat2(a, c, d) && reads(q, x, c) && reads(p, xs[0], d));
        lem_fragment(n, xs[0], d);
        assert(cat3(t, c, d, b));
        assert(tok(c, 44u8));
        assert forall|i: int| 0 <= i < xs.len() implies fragment_wf(#[trigger] xs[i]) by { if i > 0 { assert(xs[i] == ys[i - 1]); } }
    }
}
pub open spec fn list_text(xs: Seq<Fragment>, t: Seq<u8>) -> bool {
    xs.len() > 0 && exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && fragment_text(xs[0], a) && more_fragments(xs.subrange(1, xs.len() as int), b)
}
pub broadcast proof fn lem_list(n: nat, xs: Seq<Fragment>, t: Seq<u8>)
    requires #[trigger] reads(p_separated(1, None, parse_fragment(n), p_ws(p_byte(44u8))), xs, t)
    ensures list_text(xs, t), forall|i: int| 0 <= i < xs.len() ==> fragment_wf(#[trigger] xs[i])
{
    hide(parse_fragment); hide(fragment_text); hide(fragment_wf);
    broadcast use sfx_ws, sfx_byte;
    let p = parse_fragment(n);
    let q = p_ws(p_byte(44u8));
    lem_sfx_fragment_q(n);
    reads_separated(1, None, p, q, xs, t);
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, xs[0], a) && row(p_preceded(q, p), xs.subrange(1, xs.len() as int), b);
    let ys = xs.subrange(1, xs.len() as int);
    lem_fragment(n, xs[0], a);
    lem_more_fragments(n, ys, b);
    assert forall|i: int| 0 <= i < xs.len() implies fragment_wf(#[trigger] xs[i]) by { if i > 0 { assert(xs[i] == ys[i - 1]); } }
}
pub open spec fn all_wf(q: Query) -> bool { forall|i: int| 0 <= i < q.fragments.len() ==> fragment_wf(#[trigger] q.fragments[i]) }
pub proof fn lem_query(n: nat, x: Query, t: Seq<u8>)
    requires reads(parse_query(n), x, t)
    ensures query_text(x, t), all_wf(x)
{
    hide(parse_fragment); hide(fragment_text); hide(fragment_wf);
    if n == 0 { let (i, r) = lem_reads(parse_query(n), x, t); assert(false); }
    broadcast use reads_map, reads_with_taken, sfx_with_taken, sfx_separated, sfx_ws, sfx_byte, lem_list;
    lem_sfx_fragment_q((n - 1) as nat);
}
/// a text that is read as a query spells this query, its columns in their
/// order, each of the shape that its evaluation relies on
pub proof fn ob_parse_query(n: nat, t: Seq<u8>)
    ensures p_parse(parse_query(n), t) is Ok ==> query_text(p_parse(parse_query(n), t)->Ok_0, t) && all_wf(p_parse(parse_query(n), t)->Ok_0)
{
    hide(parse_fragment); hide(fragment_text); hide(fragment_wf);
    broadcast use sfx_map, sfx_with_taken, sfx_separated, sfx_ws, sfx_byte, lem_sfx_cut;
    if n > 0 { lem_sfx_fragment_q((n - 1) as nat); }
    assert(sfx(parse_query(n)));
    lem_parse_reads(parse_query(n), t);
    if p_parse(parse_query(n), t) is Ok { lem_query(n, p_parse(parse_query(n), t)->Ok_0, t); }
}
}
}
