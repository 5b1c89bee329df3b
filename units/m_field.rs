//@include model.rs
//@include tagocc_m.rs
//@include subfield_m.rs
//@include field_m.rs
pub mod field_code {
use super::*;
use super::field::*;
use super::subfield::SubfieldMatcher;
verus! {
broadcast use group_x;
//@type src/matcher/record.rs RecordMatcher
impl ExistsMatcher {
//@fn src/matcher/field/mod.rs ExistsMatcher::is_match => code_is_match
}
impl SubfieldsMatcher {
//@fn src/matcher/field/mod.rs SubfieldsMatcher::is_match => code_is_match
}
impl SingletonMatcher {
//@fn src/matcher/field/mod.rs SingletonMatcher::is_match => code_is_match
}
impl CardinalityMatcher {
//@fn src/matcher/field/mod.rs CardinalityMatcher::is_match => code_is_match
}
impl FieldMatcher {
//@fn src/matcher/field/mod.rs FieldMatcher::is_match => code_is_match
}
impl RecordMatcher {
    /// contract: a record matches when its fields match
    pub open spec fn is_match(self, r: RecordRef, o: MatcherOptions) -> bool { self.0.is_match(r.0, o) }
//@fn src/matcher/record.rs RecordMatcher::is_match => code_is_match
}
//@helpers
proof fn ob_field_exists(m: ExistsMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    ensures m.code_is_match(fs, o) == m.is_match(fs, o) { }
proof fn ob_field_quantified(m: SubfieldsMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    ensures m.code_is_match(fs, o) == m.is_match(fs, o) { }
proof fn ob_field_singleton(m: SingletonMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    ensures m.code_is_match(fs, o) == m.is_match(fs, o) { }
proof fn ob_field_cardinality(m: CardinalityMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    requires is_number_op(m.op)
    ensures m.code_is_match(fs, o) == m.is_match(fs, o) { }
proof fn ob_field_tree(m: FieldMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    ensures m.code_is_match(fs, o) == m.is_match(fs, o) { }
proof fn ob_record(m: RecordMatcher, r: RecordRef, o: MatcherOptions)
    ensures m.code_is_match(r, o) == m.is_match(r, o) { }
}
}
