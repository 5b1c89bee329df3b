//@path std::regex = regex
verus! {
//@type src/matcher/options.rs MatcherOptions
impl MatcherOptions {
//@fn src/matcher/options.rs Default for MatcherOptions::default => x_default
//@fn src/matcher/options.rs MatcherOptions::new => new
//@fn src/matcher/options.rs MatcherOptions::case_ignore => case_ignore
//@fn src/matcher/options.rs MatcherOptions::strsim_threshold => strsim_threshold
}
//@type src/matcher/quantifier.rs Quantifier
//@type src/matcher/operator.rs RelationalOp
//@type src/matcher/operator.rs BooleanOp

// ---- trusted boundary: regex crate and Levenshtein distance are opaque
pub uninterp spec fn regex_match(re: Seq<u8>, ci: bool, v: Seq<u8>) -> bool;
pub uninterp spec fn normalized_levenshtein(a: Seq<u8>, b: Seq<u8>) -> XF64;
pub struct RegexBuilder { pub re: Seq<u8>, pub ci: bool }
pub struct Regex { pub re: Seq<u8>, pub ci: bool }
impl RegexBuilder {
    pub open spec fn new(re: Seq<u8>) -> RegexBuilder { RegexBuilder { re, ci: false } }
    pub open spec fn case_insensitive(self, yes: bool) -> RegexBuilder { RegexBuilder { ci: yes, ..self } }
    pub open spec fn build(self) -> Result<Regex, XErr> { Ok(Regex { re: self.re, ci: self.ci }) }
}
impl Regex { pub open spec fn is_match(self, v: Seq<u8>) -> bool { regex_match(self.re, self.ci, v) } }
pub open spec fn any_regex(re: Seq<Seq<u8>>, ci: bool, v: Seq<u8>) -> bool {
    exists|i: int| 0 <= i < re.len() && regex_match(#[trigger] re[i], ci, v)
}
pub struct RegexSetBuilder { pub re: Seq<Seq<u8>>, pub ci: bool }
pub struct RegexSet { pub re: Seq<Seq<u8>>, pub ci: bool }
impl RegexSetBuilder {
    pub open spec fn new(re: Seq<Seq<u8>>) -> RegexSetBuilder { RegexSetBuilder { re, ci: false } }
    pub open spec fn case_insensitive(self, yes: bool) -> RegexSetBuilder { RegexSetBuilder { ci: yes, ..self } }
    pub open spec fn build(self) -> Result<RegexSet, XErr> { Ok(RegexSet { re: self.re, ci: self.ci }) }
}
impl RegexSet {
    /// a regex set matches when one of its members matches (regex crate API)
    pub open spec fn is_match(self, v: Seq<u8>) -> bool { any_regex(self.re, self.ci, v) }
}
pub open spec fn fold_case(o: MatcherOptions, s: Seq<u8>) -> Seq<u8> { if o.case_ignore { lowercase(s) } else { s } }
/// the subfields a predicate looks at
pub open spec fn selected(codes: Seq<char>, s: SubfieldRef) -> bool { codes.contains(s.0) }
/// quantified predicate over the selected subfields
pub open spec fn quantified(q: Quantifier, codes: Seq<char>, ss: Seq<SubfieldRef>, p: spec_fn(Seq<u8>) -> bool) -> bool {
    match q {
        Quantifier::All => forall|i: int| 0 <= i < ss.len() && selected(codes, #[trigger] ss[i]) ==> p(ss[i].1),
        Quantifier::Any => exists|i: int| 0 <= i < ss.len() && selected(codes, #[trigger] ss[i]) && p(ss[i].1),
    }
}
pub open spec fn number_op(op: RelationalOp, n: int, k: int) -> bool {
    match op {
        RelationalOp::Eq => n == k, RelationalOp::Ne => n != k,
        RelationalOp::Ge => n >= k, RelationalOp::Gt => n > k,
        RelationalOp::Le => n <= k, RelationalOp::Lt => n < k,
        _ => arbitrary(),
    }
}
pub open spec fn is_number_op(op: RelationalOp) -> bool { op is Eq || op is Ne || op is Ge || op is Gt || op is Le || op is Lt }
pub open spec fn is_string_op(op: RelationalOp) -> bool {
    op is Eq || op is Ne || op is StartsWith || op is StartsNotWith || op is EndsWith || op is EndsNotWith || op is Similar
}
/// meaning of `value OP literal`
pub open spec fn string_op(op: RelationalOp, o: MatcherOptions, v: Seq<u8>, lit: Seq<u8>) -> bool {
    let a = fold_case(o, v);
    let b = fold_case(o, lit);
    match op {
        RelationalOp::Eq => a == b,
        RelationalOp::Ne => a != b,
        RelationalOp::StartsWith => sub_at(a, b, 0),
        RelationalOp::StartsNotWith => !sub_at(a, b, 0),
        RelationalOp::EndsWith => sub_at(a, b, a.len() - b.len()),
        RelationalOp::EndsNotWith => !sub_at(a, b, a.len() - b.len()),
        RelationalOp::Similar => f64_gt(normalized_levenshtein(
            if o.case_ignore { lowercase(lossy(lit)) } else { lossy(lit) },
            if o.case_ignore { lowercase(lossy(v)) } else { lossy(v) }), o.strsim_threshold),
        _ => arbitrary(),
    }
}
pub open spec fn bool_op(op: BooleanOp, a: bool, b: bool) -> bool {
    match op { BooleanOp::And => a && b, BooleanOp::Or => a || b, BooleanOp::Xor => a != b }
}
pub open spec fn occurs_in(p: Seq<u8>, s: Seq<u8>) -> bool { exists|i: int| sub_at(s, p, i) }
}
pub mod subfield {
use super::*;
verus! {
broadcast use group_x;
//@type src/matcher/subfield/mod.rs ExistsMatcher
//@type src/matcher/subfield/mod.rs RelationMatcher
//@type src/matcher/subfield/mod.rs ContainsMatcher
//@type src/matcher/subfield/mod.rs RegexMatcher
//@type src/matcher/subfield/mod.rs RegexSetMatcher
//@type src/matcher/subfield/mod.rs InMatcher
//@type src/matcher/subfield/mod.rs CardinalityMatcher
//@type src/matcher/subfield/mod.rs SingletonMatcher
//@type src/matcher/subfield/mod.rs SubfieldMatcher

impl ExistsMatcher {
    pub open spec fn is_match(self, ss: Seq<SubfieldRef>, o: MatcherOptions) -> bool {
        exists|i: int| 0 <= i < ss.len() && selected(self.codes, #[trigger] ss[i])
    }
}
impl RelationMatcher {
    pub open spec fn is_match(self, ss: Seq<SubfieldRef>, o: MatcherOptions) -> bool {
        quantified(self.quantifier, self.codes, ss, |v: Seq<u8>| string_op(self.op, o, v, self.value))
    }
}
impl ContainsMatcher {
    pub open spec fn hit(self, o: MatcherOptions, v: Seq<u8>) -> bool {
        exists|x: Seq<u8>| #[trigger] self.values.contains(x) && occurs_in(fold_case(o, x), fold_case(o, v))
    }
    pub open spec fn is_match(self, ss: Seq<SubfieldRef>, o: MatcherOptions) -> bool {
        quantified(self.quantifier, self.codes, ss, |v: Seq<u8>| self.hit(o, v))
    }
}
impl RegexMatcher {
    pub open spec fn is_match(self, ss: Seq<SubfieldRef>, o: MatcherOptions) -> bool {
        quantified(self.quantifier, self.codes, ss, |v: Seq<u8>| regex_match(self.regex, o.case_ignore, v) != self.invert)
    }
}
impl RegexSetMatcher {
    pub open spec fn hit(self, o: MatcherOptions, v: Seq<u8>) -> bool {
        any_regex(self.regex, o.case_ignore, v)
    }
    pub open spec fn is_match(self, ss: Seq<SubfieldRef>, o: MatcherOptions) -> bool {
        quantified(self.quantifier, self.codes, ss, |v: Seq<u8>| self.hit(o, v) != self.invert)
    }
}
impl InMatcher {
    pub open spec fn hit(self, o: MatcherOptions, v: Seq<u8>) -> bool {
        exists|i: int| 0 <= i < self.values.len() && fold_case(o, v) == fold_case(o, #[trigger] self.values[i])
    }
    pub open spec fn is_match(self, ss: Seq<SubfieldRef>, o: MatcherOptions) -> bool {
        quantified(self.quantifier, self.codes, ss, |v: Seq<u8>| self.hit(o, v) != self.invert)
    }
}
impl CardinalityMatcher {
    pub open spec fn is_match(self, ss: Seq<SubfieldRef>, o: MatcherOptions) -> bool {
        number_op(self.op, ss.filter(|s: SubfieldRef| selected(self.codes, s)).len() as int, self.value)
    }
}
impl SingletonMatcher {
    pub open spec fn is_match(self, ss: Seq<SubfieldRef>, o: MatcherOptions) -> bool {
        match self {
            SingletonMatcher::Cardinality(m) => m.is_match(ss, o),
            SingletonMatcher::Regex(m) => m.is_match(ss, o),
            SingletonMatcher::RegexSet(m) => m.is_match(ss, o),
            SingletonMatcher::Relation(m) => m.is_match(ss, o),
            SingletonMatcher::Contains(m) => m.is_match(ss, o),
            SingletonMatcher::Exists(m) => m.is_match(ss, o),
            SingletonMatcher::In(m) => m.is_match(ss, o),
        }
    }
}
impl SubfieldMatcher {
    /// Boolean evaluation of the matcher tree
    pub open spec fn is_match(self, ss: Seq<SubfieldRef>, o: MatcherOptions) -> bool
        decreases self
    {
        match self {
            SubfieldMatcher::Singleton(m) => m.is_match(ss, o),
            SubfieldMatcher::Group(m) => m.is_match(ss, o),
            SubfieldMatcher::Not(m) => !m.is_match(ss, o),
            SubfieldMatcher::Composite { lhs, op, rhs } => bool_op(op, lhs.is_match(ss, o), rhs.is_match(ss, o)),
        }
    }
}
}
}
