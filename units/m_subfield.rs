//@include model.rs
//@include subfield_m.rs
pub mod subfield_code {
use super::*;
use super::subfield::*;
verus! {
broadcast use group_x;
impl ExistsMatcher {
//@fn src/matcher/subfield/mod.rs ExistsMatcher::is_match => code_is_match
}
impl RelationMatcher {
//@fn src/matcher/subfield/mod.rs RelationMatcher::is_match => code_is_match
}
impl ContainsMatcher {
//@fn src/matcher/subfield/mod.rs ContainsMatcher::is_match => code_is_match
}
impl RegexMatcher {
//@fn src/matcher/subfield/mod.rs RegexMatcher::is_match => code_is_match
}
impl RegexSetMatcher {
//@fn src/matcher/subfield/mod.rs RegexSetMatcher::is_match => code_is_match
}
impl InMatcher {
//@fn src/matcher/subfield/mod.rs InMatcher::is_match => code_is_match
}
impl CardinalityMatcher {
//@fn src/matcher/subfield/mod.rs CardinalityMatcher::is_match => code_is_match
}
impl SingletonMatcher {
//@fn src/matcher/subfield/mod.rs SingletonMatcher::is_match => code_is_match
}
impl SubfieldMatcher {
//@fn src/matcher/subfield/mod.rs SubfieldMatcher::is_match => code_is_match
}
//@helpers

proof fn ob_exists(m: ExistsMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
proof fn ob_relation_eq(m: RelationMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    requires m.op is Eq || m.op is Ne
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
proof fn ob_relation_prefix(m: RelationMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    requires m.op is StartsWith || m.op is StartsNotWith
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
proof fn ob_relation_suffix(m: RelationMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    requires m.op is EndsWith || m.op is EndsNotWith
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
proof fn ob_relation_similar(m: RelationMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    requires m.op is Similar
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
proof fn ob_contains(m: ContainsMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
proof fn ob_regex(m: RegexMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
proof fn ob_regex_set(m: RegexSetMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
proof fn ob_in(m: InMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
proof fn ob_cardinality(m: CardinalityMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    requires is_number_op(m.op)
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
proof fn ob_singleton(m: SingletonMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
proof fn ob_tree(m: SubfieldMatcher, ss: Seq<SubfieldRef>, o: MatcherOptions)
    ensures m.code_is_match(ss, o) == m.is_match(ss, o) { }
}
}
