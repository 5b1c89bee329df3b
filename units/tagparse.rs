verus! {
//@fn src/primitives/parse.rs parse_tag_ref => parse_tag_ref parser
//@fn src/primitives/parse.rs parse_occurrence_ref => parse_occurrence_ref parser
//@fn src/matcher/tag.rs parse_tag_matcher_tag => parse_tag_matcher_tag parser
//@fn src/matcher/tag.rs parse_tag_matcher_pattern_fragment => parse_tag_matcher_pattern_fragment parser
//@fn src/matcher/tag.rs parse_tag_matcher_pattern => parse_tag_matcher_pattern parser
//@fn src/matcher/tag.rs parse_tag_matcher => parse_tag_matcher parser
//@fn src/matcher/occurrence.rs parse_occurrence_matcher_inner => parse_occurrence_matcher_inner parser
//@fn src/matcher/occurrence.rs parse_occurrence_matcher_exact => parse_occurrence_matcher_exact parser
//@fn src/matcher/occurrence.rs parse_occurrence_matcher_range => parse_occurrence_matcher_range parser
//@fn src/matcher/occurrence.rs parse_occurrence_matcher => parse_occurrence_matcher parser
// what the patterns allow at the four positions
pub open spec fn tag_first() -> Seq<u8> { seq![48u8, 49u8, 50u8] }
pub open spec fn tag_digit() -> Seq<u8> { seq![48u8, 49u8, 50u8, 51u8, 52u8, 53u8, 54u8, 55u8, 56u8, 57u8] }
pub open spec fn tag_last() -> Seq<u8> { seq![65u8, 66u8, 67u8, 68u8, 69u8, 70u8, 71u8, 72u8, 73u8, 74u8, 75u8, 76u8, 77u8, 78u8, 79u8, 80u8, 81u8, 82u8, 83u8, 84u8, 85u8, 86u8, 87u8, 88u8, 89u8, 90u8, 64u8] }
pub open spec fn within(al: Seq<u8>) -> spec_fn(u8) -> bool { |c: u8| al.contains(c) }
/// one position of a pattern: a character, `.` or `[…]`
pub open spec fn place(al: Seq<u8>, s: Seq<u8>, t: Seq<u8>) -> bool {
    ||| t.len() == 1 && al.contains(t[0]) && s == t
    ||| t == seq![46u8] && s == al
    ||| t.len() > 2 && t[0] == 91u8 && t.last() == 93u8 && listed(within(al), t.subrange(1, t.len() - 1)) == Some(s)
}
pub open spec fn is_upper_at(c: u8) -> bool { 65 <= c <= 90 || c == 64 }
pub open spec fn tag_text(t: Seq<u8>) -> bool { t.len() == 4 && 48 <= t[0] <= 50 && 48 <= t[1] <= 57 && 48 <= t[2] <= 57 && is_upper_at(t[3]) }
/// `t` is the text of the tag matcher `m`
pub open spec fn tag_matcher_text(m: TagMatcher, t: Seq<u8>) -> bool {
    match m {
        TagMatcher::Tag(x) => x == t && tag_text(t),
        TagMatcher::Pattern(p, raw) => p.len() == 4 && (utf8_ok(t) ==> raw == t) && exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| #[trigger] cat4(t, a, b, c, d)
            && place(tag_first(), p[0], a) && place(tag_digit(), p[1], b) && place(tag_digit(), p[2], c) && place(tag_last(), p[3], d),
    }
}
pub open spec fn digits(t: Seq<u8>) -> bool { forall|k: int| 0 <= k < t.len() ==> is_digit(#[trigger] t[k]) }
pub open spec fn occ_text(t: Seq<u8>) -> bool { 2 <= t.len() <= 3 && digits(t) }
pub open spec fn slash(t: Seq<u8>) -> Seq<u8> { seq![47u8] + t }
/// `t` is the text of the occurrence matcher `m`
pub open spec fn occ_matcher_text(m: OccurrenceMatcher, t: Seq<u8>) -> bool {
    match m {
        OccurrenceMatcher::None => t.len() == 0 || t == slash(seq![48u8, 48u8]),
        OccurrenceMatcher::Any => t == slash(seq![42u8]),
        OccurrenceMatcher::Exact(o) => t == slash(o) && occ_text(o) && o != seq![48u8, 48u8],
        OccurrenceMatcher::Range(lo, hi) => t == slash(lo + seq![45u8] + hi) && occ_text(lo) && occ_text(hi) && lo.len() == hi.len() && lex_lt(lo, hi),
    }
}
}
//@helpers
pub mod tag_p {
use super::*;
verus! {
pub broadcast proof fn lem_place(al: Seq<u8>, s: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_tag_matcher_pattern_fragment(al), s, t), !al.contains(45u8)
    ensures place(al, s, t)
{
    broadcast use group_sfx, group_reads;
    let ok = within(al);
    assert(!ok(45u8));
    assert forall|p: Parser<Seq<u8>>, f: spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8>, b: Seq<u8>| #[trigger] reads(p_fold(p_repeat(1, None, p), Seq::<u8>::empty(), f), s, b) && list_items(p, ok) && appends(f) && sfx(p) implies b.len() > 0 && listed(ok, b) == Some(s)
        by { lem_brackets(p, ok, f, s, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && a.len() == 1 && c.len() == 1 implies t[0] == a[0] && t.last() == c[0] && t.subrange(1, t.len() - 1) == b && t.len() == b.len() + 2
        by { lem_cat_brackets(t, a, b, c); }
}
pub proof fn lem_allowed()
    ensures !tag_first().contains(45u8), !tag_digit().contains(45u8), !tag_last().contains(45u8)
{}
pub proof fn lem_tag(t: Seq<u8>, x: Seq<u8>)
    requires reads(parse_tag_ref(), x, t)
    ensures x == t, tag_text(t)
{
    broadcast use group_sfx, group_reads;
}
pub proof fn lem_sfx_fragment(al: Seq<u8>)
    ensures sfx(parse_tag_matcher_pattern_fragment(al))
{ broadcast use group_sfx; }
pub proof fn lem_sfx_tag()
    ensures sfx(parse_tag_ref()), sfx(parse_tag_matcher_tag()), sfx(parse_tag_matcher_pattern()), sfx(parse_tag_matcher())
{
    hide(parse_tag_matcher_pattern_fragment);
    broadcast use sfx_map, sfx_take, sfx_with_taken, sfx_alt, sfx_tup4, sfx_one_of;
    lem_sfx_fragment(tag_first()); lem_sfx_fragment(tag_digit()); lem_sfx_fragment(tag_last());
}
pub broadcast proof fn lem_tag_b(x: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_tag_ref(), x, t)
    ensures x == t, tag_text(t)
{ lem_tag(t, x); }
pub proof fn lem_parse_tag(m: TagMatcher, t: Seq<u8>)
    requires reads(parse_tag_matcher(), m, t)
    ensures tag_matcher_text(m, t)
{
    hide(parse_tag_matcher_pattern_fragment); hide(parse_tag_ref);
    broadcast use reads_alt, reads_map, reads_tup4, reads_with_taken, lem_place, lem_tag_b, sfx_map, sfx_tup4, sfx_with_taken;
    lem_sfx_tag();
    lem_sfx_fragment(tag_first()); lem_sfx_fragment(tag_digit()); lem_sfx_fragment(tag_last());
    lem_allowed();
}
proof fn ob_parse_tag_matcher(t: Seq<u8>)
    ensures p_parse(parse_tag_matcher(), t) is Ok ==> tag_matcher_text(p_parse(parse_tag_matcher(), t)->Ok_0, t) && p_parse(parse_tag_matcher(), t)->Ok_0.wf()
{
    lem_sfx_tag();
    lem_parse_reads(parse_tag_matcher(), t);
    if p_parse(parse_tag_matcher(), t) is Ok { lem_parse_tag(p_parse(parse_tag_matcher(), t)->Ok_0, t); }
}
pub broadcast proof fn lem_occ(x: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_occurrence_matcher_inner(), x, t)
    ensures x == t, occ_text(t)
{
    broadcast use group_sfx, group_reads;
}
pub proof fn lem_parse_occ(m: OccurrenceMatcher, t: Seq<u8>)
    requires reads(parse_occurrence_matcher(), m, t)
    ensures occ_matcher_text(m, t)
{
    hide(parse_occurrence_matcher_inner);
    broadcast use group_sfx, group_reads, lem_occ;
    assert(sfx(parse_occurrence_matcher_inner())) by { reveal(parse_occurrence_matcher_inner); }
}
proof fn ob_parse_occurrence_matcher(t: Seq<u8>)
    ensures p_parse(parse_occurrence_matcher(), t) is Ok ==> occ_matcher_text(p_parse(parse_occurrence_matcher(), t)->Ok_0, t)
{
    broadcast use group_sfx;
    assert(sfx(parse_occurrence_matcher()));
    lem_parse_reads(parse_occurrence_matcher(), t);
    if p_parse(parse_occurrence_matcher(), t) is Ok { lem_parse_occ(p_parse(parse_occurrence_matcher(), t)->Ok_0, t); }
}
}
}
pub use tag_p::*;
