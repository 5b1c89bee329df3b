//@include model.rs
//@include tagocc_m.rs
verus! {
impl TagMatcher {
//@fn src/matcher/tag.rs TagMatcher::is_match => code_is_match
}
impl OccurrenceMatcher {
//@fn src/matcher/occurrence.rs OccurrenceMatcher::is_match => code_is_match
}
//@helpers
proof fn ob_tag_is_match(m: TagMatcher, tag: Seq<u8>)
    requires m.wf(), wf_tag(tag)
    ensures m.code_is_match(tag) == m.is_match(tag)
{
    if let TagMatcher::Pattern(p, _) = m {
        if m.code_is_match(tag) {
            assert forall|i: int| 0 <= i < 4 implies (#[trigger] p[i]).contains(tag[i]) by {
                assert(i == 0 || i == 1 || i == 2 || i == 3);
            }
        }
    }
}
proof fn ob_occurrence_is_match(m: OccurrenceMatcher, occ: Option<Seq<u8>>)
    ensures m.code_is_match(occ) == m.is_match(occ)
{
    if let Some(o) = occ { assert(seq![48u8, 48u8] =~= seq![48u8, 48u8]); }
}
}
