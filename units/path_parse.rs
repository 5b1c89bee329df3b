//@tymap Path = PicaPath
//@tymap SmallVec<u8> = Seq<u8>
//@fuel src/path.rs parse_path_curly parse_path
pub mod path_p {
use super::*;
use super::subfield::SubfieldMatcher;
use super::sub_p::*;
verus! {
broadcast use group_x;
//@type src/path.rs Path PicaPath
//@fn src/path.rs parse_codes => parse_codes parser
//@fn src/path.rs parse_path_simple => parse_path_simple parser
//@fn src/path.rs parse_path_curly => parse_path_curly parser
//@fn src/path.rs parse_path => parse_path parser
/// codes after a dot, or after a `$` in the notation of older versions
pub open spec fn point_codes(cs: Seq<u8>, t: Seq<u8>) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && (a == seq![46u8] && codes_text(cs, b) || tok(a, 36u8) && spaced_compat(cs, b))
}
/// one column of codes
pub open spec fn column_text(cs: Seq<u8>, t: Seq<u8>) -> bool {
    codes_text(cs, t) || exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && tok(a, 36u8) && spaced_compat(cs, b)
}
/// further columns, each after a comma
pub open spec fn more_columns(vs: Seq<Seq<u8>>, t: Seq<u8>) -> bool decreases vs.len() {
    if vs.len() == 0 { t.len() == 0 } else { exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && tok(a, 44u8) && column_text(vs[0], b) && more_columns(vs.subrange(1, vs.len() as int), c) }
}
pub open spec fn columns_text(vs: Seq<Seq<u8>>, t: Seq<u8>) -> bool { vs.len() > 0 && exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && column_text(vs[0], a) && more_columns(vs.subrange(1, vs.len() as int), b) }
/// the columns, possibly in parentheses
pub open spec fn tuple_text(vs: Seq<Seq<u8>>, t: Seq<u8>) -> bool {
    columns_text(vs, t) || exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && tok(a, 40u8) && tok(c, 41u8) && columns_text(vs, b)
}
/// the condition after `|`
pub open spec fn condition_text(m: Option<SubfieldMatcher>, t: Seq<u8>) -> bool {
    match m { None => t.len() == 0, Some(x) => exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && tok(a, 124u8) && spells(x, b) && shaped(x) }
}
pub open spec fn curly_text(vs: Seq<Seq<u8>>, m: Option<SubfieldMatcher>, t: Seq<u8>) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>| #[trigger] cat3(t, a, b, c) && #[trigger] cat2(b, d, e) && tok(a, 123u8) && tok(c, 125u8) && tuple_text(vs, d) && condition_text(m, e)
}
/// the text of a path: tag, occurrence and what is addressed in the fields
pub open spec fn path_text(p: PicaPath, t: Seq<u8>) -> bool {
    &&& utf8_ok(t) ==> p.raw_path == t
    &&& exists|u: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] padded(t, u) && #[trigger] cat3(u, a, b, c) && tag_matcher_text(p.tag_matcher, a) && occ_matcher_text(p.occurrence_matcher, b)
        && (p.subfield_matcher is None && p.codes.len() == 1 && point_codes(p.codes[0], c) || curly_text(p.codes, p.subfield_matcher, c))
}
pub proof fn lem_sfx_parts(n: nat)
    ensures sfx(parse_tag_matcher()), sfx(parse_occurrence_matcher()), sfx(parse_subfield_matcher(n)), sfx(parse_subfield_codes()), sfx(parse_subfield_codes_compat()), sfx(parse_codes())
{
    hide(p_map); hide(p_alt); hide(p_preceded); hide(p_delimited); hide(p_tup2); hide(p_tup3); hide(p_ws); hide(p_separated); hide(p_opt); hide(parse_tag_matcher); hide(parse_subfield_matcher); hide(parse_subfield_codes); hide(parse_subfield_codes_compat);
    broadcast use group_sfx;
    lem_sfx_tag(); lem_sfx_codes();
    assert(sfx(parse_occurrence_matcher()));
    lem_ih(n); reveal(sound); reveal(sfx);
}
pub broadcast proof fn lem_tag_reads(m: TagMatcher, t: Seq<u8>) requires #[trigger] reads(parse_tag_matcher(), m, t) ensures tag_matcher_text(m, t) { lem_parse_tag(m, t); }
pub broadcast proof fn lem_occ_reads(m: OccurrenceMatcher, t: Seq<u8>) requires #[trigger] reads(parse_occurrence_matcher(), m, t) ensures occ_matcher_text(m, t) { lem_parse_occ(m, t); }
pub broadcast proof fn lem_sub_reads(n: nat, m: SubfieldMatcher, t: Seq<u8>) requires #[trigger] reads(parse_subfield_matcher(n), m, t) ensures spells(m, t), shaped(m)
{
    lem_ih(n); reveal(sound);
    let (i, r) = lem_reads(parse_subfield_matcher(n), m, t);
    assert(expr(0)(m, took(i, r)));
}
pub broadcast proof fn lem_column(cs: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_codes(), cs, t)
    ensures column_text(cs, t)
{
    hide(parse_subfield_codes); hide(parse_subfield_codes_compat);
    broadcast use reads_alt, reads_ws, reads_preceded, reads_byte, sfx_ws, sfx_byte, lem_codes, lem_codes_compat;
    lem_sfx_parts(0);
}
pub proof fn lem_more_columns(vs: Seq<Seq<u8>>, t: Seq<u8>)
    requires row(p_preceded(p_ws(p_byte(44u8)), parse_codes()), vs, t)
    ensures more_columns(vs, t)
    decreases vs.len()
{
    hide(parse_codes);
    if vs.len() > 0 {
        broadcast use sfx_ws, sfx_byte, reads_ws, reads_byte;
        let p = parse_codes();
        lem_sfx_parts(0);
        let q = p_ws(p_byte(44u8));
        let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p_preceded(q, p), vs[0], a) && row(p_preceded(q, p), vs.subrange(1, vs.len() as int), b);
        lem_more_columns(vs.subrange(1, vs.len() as int), b);
        reads_preceded(q, p, vs[0], a);
        let (x, c, d) = choose|x: u8, c: Seq<u8>, d: Seq<u8>| #[trigger] cat2(a, c, d) && #[trigger] reads(q, x, c) && reads(p, vs[0], d);
        assert(cat2(a, c, d) && reads(q, x, c) && reads(p, vs[0], d));
        lem_column(vs[0], d);
        assert(cat3(t, c, d, b));
        assert(tok(c, 44u8));
    }
}
pub broadcast proof fn lem_columns(vs: Seq<Seq<u8>>, t: Seq<u8>)
    requires #[trigger] reads(p_separated(1, None, parse_codes(), p_ws(p_byte(44u8))), vs, t)
    ensures columns_text(vs, t)
{
    hide(parse_codes);
    broadcast use sfx_ws, sfx_byte;
    let p = parse_codes();
    let q = p_ws(p_byte(44u8));
    lem_sfx_parts(0);
    reads_separated(1, None, p, q, vs, t);
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, vs[0], a) && row(p_preceded(q, p), vs.subrange(1, vs.len() as int), b);
    lem_column(vs[0], a);
    lem_more_columns(vs.subrange(1, vs.len() as int), b);
}
pub broadcast proof fn lem_simple(p: PicaPath, t: Seq<u8>)
    requires #[trigger] reads(parse_path_simple(), p, t)
    ensures path_text(p, t)
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_subfield_codes); hide(parse_subfield_codes_compat);
    broadcast use group_sfx, group_reads, lem_tag_reads, lem_occ_reads, lem_codes, lem_codes_compat;
    lem_sfx_parts(0);
}
pub broadcast proof fn lem_curly(n: nat, p: PicaPath, t: Seq<u8>)
    requires #[trigger] reads(parse_path_curly(n), p, t)
    ensures path_text(p, t)
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_subfield_matcher); hide(parse_codes); hide(spells); hide(shaped); hide(columns_text);
    broadcast use group_sfx, group_reads, lem_tag_reads, lem_occ_reads, lem_columns, lem_sub_reads;
    if n == 0 { let (i, r) = lem_reads(parse_path_curly(n), p, t); assert(false); }
    lem_sfx_parts((n - 1) as nat);
}
pub proof fn lem_sfx_path(n: nat)
    ensures sfx(parse_path_simple()), sfx(parse_path_curly(n)), sfx(parse_path(n))
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_subfield_matcher); hide(parse_codes); hide(parse_subfield_codes); hide(parse_subfield_codes_compat);
    broadcast use group_sfx, lem_sfx_cut;
    lem_sfx_parts(0);
    if n > 0 { lem_sfx_parts((n - 1) as nat); }
    if n > 1 { lem_sfx_parts((n - 2) as nat); }
    assert(sfx(parse_path_simple()));
    assert(sfx(parse_path_curly(n)));
    if n > 0 { assert(sfx(parse_path_curly((n - 1) as nat))); }
}
pub broadcast proof fn lem_sfx_cut<A>() ensures #[trigger] sfx(p_cut::<A>()) { reveal(sfx); }
pub broadcast proof fn lem_path(n: nat, p: PicaPath, t: Seq<u8>)
    requires #[trigger] reads(parse_path(n), p, t)
    ensures path_text(p, t), p.codes.len() > 0
{
    hide(parse_path_simple); hide(parse_path_curly);
    broadcast use reads_alt, lem_simple, lem_curly;
    if n == 0 { let (i, r) = lem_reads(parse_path(n), p, t); assert(false); }
    lem_sfx_path((n - 1) as nat);
}
/// a text that is read as a path spells this path; a path addresses at least
/// one column
pub proof fn ob_parse_path(n: nat, t: Seq<u8>)
    ensures p_parse(parse_path(n), t) is Ok ==> path_text(p_parse(parse_path(n), t)->Ok_0, t) && p_parse(parse_path(n), t)->Ok_0.codes.len() > 0
{
    hide(parse_path);
    lem_sfx_path(n);
    lem_parse_reads(parse_path(n), t);
    if p_parse(parse_path(n), t) is Ok { lem_path(n, p_parse(parse_path(n), t)->Ok_0, t); }
}
}
}
