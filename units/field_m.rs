pub mod field {
use super::*;
use super::subfield::SubfieldMatcher;
verus! {
broadcast use group_x;
//@type src/matcher/field/mod.rs ExistsMatcher
//@type src/matcher/field/mod.rs SubfieldsMatcher
//@type src/matcher/field/mod.rs SingletonMatcher
//@type src/matcher/field/mod.rs CardinalityMatcher
//@type src/matcher/field/mod.rs FieldMatcher

/// the fields a field-level predicate looks at
pub open spec fn addressed(t: TagMatcher, c: OccurrenceMatcher, f: FieldRef) -> bool {
    t.is_match(f.tag) && c.is_match(f.occurrence)
}
impl ExistsMatcher {
    pub open spec fn is_match(self, fs: Seq<FieldRef>, o: MatcherOptions) -> bool {
        exists|i: int| 0 <= i < fs.len() && addressed(self.tag_matcher, self.occ_matcher, #[trigger] fs[i])
    }
}
impl SubfieldsMatcher {
    pub open spec fn is_match(self, fs: Seq<FieldRef>, o: MatcherOptions) -> bool {
        match self.quantifier {
            Quantifier::All => forall|i: int| 0 <= i < fs.len() && addressed(self.tag_matcher, self.occurrence_matcher, #[trigger] fs[i])
                ==> self.subfield_matcher.is_match(fs[i].subfields, o),
            Quantifier::Any => exists|i: int| 0 <= i < fs.len() && addressed(self.tag_matcher, self.occurrence_matcher, #[trigger] fs[i])
                && self.subfield_matcher.is_match(fs[i].subfields, o),
        }
    }
}
impl SingletonMatcher {
    pub open spec fn is_match(self, fs: Seq<FieldRef>, o: MatcherOptions) -> bool {
        match self {
            SingletonMatcher::Subfields(m) => m.is_match(fs, o),
            SingletonMatcher::Exists(m) => m.is_match(fs, o),
        }
    }
}
impl CardinalityMatcher {
    pub open spec fn counted(self, f: FieldRef, o: MatcherOptions) -> bool {
        addressed(self.tag_matcher, self.occ_matcher, f)
            && (self.subfield_matcher is Some ==> self.subfield_matcher->0.is_match(f.subfields, o))
    }
    pub open spec fn is_match(self, fs: Seq<FieldRef>, o: MatcherOptions) -> bool {
        number_op(self.op, fs.filter(|f: FieldRef| self.counted(f, o)).len() as int, self.value)
    }
}
impl FieldMatcher {
    pub open spec fn is_match(self, fs: Seq<FieldRef>, o: MatcherOptions) -> bool
        decreases self
    {
        match self {
            FieldMatcher::Singleton(m) => m.is_match(fs, o),
            FieldMatcher::Cardinality(m) => m.is_match(fs, o),
            FieldMatcher::Group(m) => m.is_match(fs, o),
            FieldMatcher::Not(m) => !m.is_match(fs, o),
            FieldMatcher::Composite { lhs, op, rhs } => bool_op(op, lhs.is_match(fs, o), rhs.is_match(fs, o)),
        }
    }
}
}
}
