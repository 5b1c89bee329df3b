verus! {
//@type src/matcher/tag.rs TagMatcher
//@type src/matcher/occurrence.rs OccurrenceMatcher

// a well-formed tag has four bytes; a pattern has four byte sets
pub open spec fn wf_tag(t: Seq<u8>) -> bool { t.len() == 4 }
impl TagMatcher {
    pub open spec fn wf(self) -> bool { match self { TagMatcher::Tag(t) => wf_tag(t), TagMatcher::Pattern(p, _) => p.len() == 4 } }
    /// contract: exact tag = byte equality; pattern = position-wise membership
    pub open spec fn is_match(self, tag: Seq<u8>) -> bool {
        match self {
            TagMatcher::Tag(t) => t == tag,
            TagMatcher::Pattern(p, _) => forall|i: int| 0 <= i < 4 ==> (#[trigger] p[i]).contains(tag[i]),
        }
    }
}
impl OccurrenceMatcher {
    /// contract: no occurrence matches only `none` and `*`; `none` matches a
    /// written occurrence only when it is 00; exact = equality; a range
    /// matches the occurrences of its own width between both bounds
    pub open spec fn is_match(self, occ: Option<Seq<u8>>) -> bool {
        match occ {
            None => self is Any || self is None,
            Some(o) => match self {
                OccurrenceMatcher::Any => true,
                OccurrenceMatcher::None => o == seq![48u8, 48u8],
                OccurrenceMatcher::Exact(x) => o == x,
                OccurrenceMatcher::Range(lo, hi) => o.len() == lo.len() && !lex_lt(o, lo) && !lex_lt(hi, o),
            }
        }
    }
}
}
