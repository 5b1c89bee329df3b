verus! {
/// meaning of the operators on matchers
pub open spec fn and_b(a: bool, b: bool) -> bool { a && b }
pub open spec fn or_b(a: bool, b: bool) -> bool { a || b }
pub open spec fn xor_b(a: bool, b: bool) -> bool { a != b }
pub open spec fn op_level(op: BooleanOp) -> int { match op { BooleanOp::Or => 0, BooleanOp::Xor => 1, BooleanOp::And => 2 } }
pub open spec fn op_text(op: BooleanOp) -> Seq<u8> { match op { BooleanOp::Or => seq![124u8, 124u8], BooleanOp::Xor => seq![94u8], BooleanOp::And => seq![38u8, 38u8] } }
impl BooleanOp {
    pub open spec fn x_display(self) -> Seq<u8> { op_text(self) }
//@fn src/matcher/operator.rs Display for BooleanOp::fmt => code_fmt
}
impl TagMatcher {
    pub open spec fn x_display(self) -> Seq<u8> { match self { TagMatcher::Tag(t) => t, TagMatcher::Pattern(_, raw) => raw } }
//@fn src/matcher/tag.rs Display for TagMatcher::fmt => code_fmt
}
impl OccurrenceMatcher {
    /// the written form: nothing, `/01`, `/01-09`, `/*`
    pub open spec fn x_display(self) -> Seq<u8> {
        match self {
            OccurrenceMatcher::Exact(o) => seq![47u8] + o,
            OccurrenceMatcher::Range(a, b) => seq![47u8] + a + seq![45u8] + b,
            OccurrenceMatcher::None => seq![],
            OccurrenceMatcher::Any => seq![47u8, 42u8],
        }
    }
//@fn src/matcher/occurrence.rs Display for OccurrenceMatcher::fmt => code_fmt
}
proof fn ob_print_boolean_op(m: BooleanOp, f: Seq<u8>) ensures m.code_fmt(f) == f + m.x_display() { }
proof fn ob_print_tag(m: TagMatcher, f: Seq<u8>) ensures m.code_fmt(f) == f + m.x_display() { }
proof fn ob_print_occurrence(m: OccurrenceMatcher, f: Seq<u8>) ensures m.code_fmt(f) =~= f + m.x_display() { }
}
