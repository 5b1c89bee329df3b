//@include model.rs
//@include tagocc_m.rs
//@include subfield_m.rs
//@include algebra_m.rs
//@include field_m.rs
pub mod subfield_algebra {
use super::*;
use super::subfield::*;
verus! {
broadcast use group_x;
impl SubfieldMatcher {
    /// binding strength of the outermost construct when printed
    pub open spec fn level(self) -> int { match self { SubfieldMatcher::Composite { lhs, op, rhs } => op_level(op), _ => 3 } }
    /// printing without parentheses of its own keeps the structure: operands
    /// bind at least as strong, `!` stands before a primary expression
    pub open spec fn prec_ok(self) -> bool decreases self {
        match self {
            SubfieldMatcher::Composite { lhs, op, rhs } => lhs.prec_ok() && rhs.prec_ok() && lhs.level() >= op_level(op) && rhs.level() >= op_level(op),
            SubfieldMatcher::Group(m) => m.prec_ok(),
            SubfieldMatcher::Not(m) => m.prec_ok() && !(*m is Composite),
            _ => true,
        }
    }
//@fn src/matcher/subfield/mod.rs BitAnd for SubfieldMatcher::bitand => code_bitand
//@fn src/matcher/subfield/mod.rs BitOr for SubfieldMatcher::bitor => code_bitor
//@fn src/matcher/subfield/mod.rs BitXor for SubfieldMatcher::bitxor => code_bitxor
//@fn src/matcher/subfield/mod.rs BitAndAssign for SubfieldMatcher::bitand_assign => code_bitand_assign
//@fn src/matcher/subfield/mod.rs BitOrAssign for SubfieldMatcher::bitor_assign => code_bitor_assign
//@fn src/matcher/subfield/mod.rs BitXorAssign for SubfieldMatcher::bitxor_assign => code_bitxor_assign
//@fn src/matcher/subfield/mod.rs Not for SubfieldMatcher::not => code_not
    pub open spec fn x_bitand(self, r: SubfieldMatcher) -> SubfieldMatcher { self.code_bitand(r) }
    pub open spec fn x_bitor(self, r: SubfieldMatcher) -> SubfieldMatcher { self.code_bitor(r) }
    pub open spec fn x_bitxor(self, r: SubfieldMatcher) -> SubfieldMatcher { self.code_bitxor(r) }
    pub open spec fn x_bitand_assign(self, r: SubfieldMatcher) -> SubfieldMatcher { self.code_bitand_assign(r) }
    pub open spec fn x_bitor_assign(self, r: SubfieldMatcher) -> SubfieldMatcher { self.code_bitor_assign(r) }
    pub open spec fn x_bitxor_assign(self, r: SubfieldMatcher) -> SubfieldMatcher { self.code_bitxor_assign(r) }
    pub open spec fn x_not(self) -> SubfieldMatcher { self.code_not() }
}
// ---- printing: the text of a matcher tree, given the texts of its leaves
impl SingletonMatcher {
    // the texts of the leaves: see unit m_leaf
    pub uninterp spec fn x_display(self) -> Seq<u8>;
}
impl SubfieldMatcher {
//@fn src/matcher/subfield/mod.rs Display for SubfieldMatcher::fmt => code_fmt
    pub open spec fn x_display(self) -> Seq<u8> decreases self {
        match self {
            SubfieldMatcher::Singleton(m) => m.x_display(),
            SubfieldMatcher::Group(m) => seq![40u8] + m.x_display() + seq![41u8],
            SubfieldMatcher::Not(m) => seq![33u8] + m.x_display(),
            SubfieldMatcher::Composite { lhs, op, rhs } => lhs.x_display() + seq![32u8] + op_text(op) + seq![32u8] + rhs.x_display(),
        }
    }
}
//@helpers
pub proof fn ob_print_subfield(m: SubfieldMatcher, f: Seq<u8>) ensures m.code_fmt(f) =~= f + m.x_display() { reveal_with_fuel(SubfieldMatcher::x_display, 2); }
proof fn ob_subfield_and(a: SubfieldMatcher, b: SubfieldMatcher, fs: Seq<SubfieldRef>, o: MatcherOptions)
    ensures a.code_bitand(b).is_match(fs, o) == and_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(SubfieldMatcher::is_match, 4); }
proof fn ob_subfield_or(a: SubfieldMatcher, b: SubfieldMatcher, fs: Seq<SubfieldRef>, o: MatcherOptions)
    ensures a.code_bitor(b).is_match(fs, o) == or_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(SubfieldMatcher::is_match, 4); }
proof fn ob_subfield_xor(a: SubfieldMatcher, b: SubfieldMatcher, fs: Seq<SubfieldRef>, o: MatcherOptions)
    ensures a.code_bitxor(b).is_match(fs, o) == xor_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(SubfieldMatcher::is_match, 4); }
proof fn ob_subfield_and_assign(a: SubfieldMatcher, b: SubfieldMatcher, fs: Seq<SubfieldRef>, o: MatcherOptions)
    ensures a.code_bitand_assign(b).is_match(fs, o) == and_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(SubfieldMatcher::is_match, 4); }
proof fn ob_subfield_or_assign(a: SubfieldMatcher, b: SubfieldMatcher, fs: Seq<SubfieldRef>, o: MatcherOptions)
    ensures a.code_bitor_assign(b).is_match(fs, o) == or_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(SubfieldMatcher::is_match, 4); }
proof fn ob_subfield_xor_assign(a: SubfieldMatcher, b: SubfieldMatcher, fs: Seq<SubfieldRef>, o: MatcherOptions)
    ensures a.code_bitxor_assign(b).is_match(fs, o) == xor_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(SubfieldMatcher::is_match, 4); }
proof fn ob_subfield_not(a: SubfieldMatcher, fs: Seq<SubfieldRef>, o: MatcherOptions)
    ensures a.code_not().is_match(fs, o) == !a.is_match(fs, o) { reveal_with_fuel(SubfieldMatcher::is_match, 4); }
proof fn ob_subfield_prec_and(a: SubfieldMatcher, b: SubfieldMatcher)
    requires a.prec_ok(), b.prec_ok()
    ensures a.code_bitand(b).prec_ok(), a.code_bitand_assign(b).prec_ok() { reveal_with_fuel(SubfieldMatcher::prec_ok, 4); }
proof fn ob_subfield_prec_or(a: SubfieldMatcher, b: SubfieldMatcher)
    requires a.prec_ok(), b.prec_ok()
    ensures a.code_bitor(b).prec_ok(), a.code_bitor_assign(b).prec_ok() { reveal_with_fuel(SubfieldMatcher::prec_ok, 4); }
proof fn ob_subfield_prec_xor(a: SubfieldMatcher, b: SubfieldMatcher)
    requires a.prec_ok(), b.prec_ok()
    ensures a.code_bitxor(b).prec_ok(), a.code_bitxor_assign(b).prec_ok() { reveal_with_fuel(SubfieldMatcher::prec_ok, 4); }
proof fn ob_subfield_prec_not(a: SubfieldMatcher)
    requires a.prec_ok()
    ensures a.code_not().prec_ok() { reveal_with_fuel(SubfieldMatcher::prec_ok, 4); }
}
}
pub mod field_algebra {
use super::*;
use super::field::*;
use super::subfield;
use super::subfield::SubfieldMatcher;
verus! {
broadcast use group_x;
impl FieldMatcher {
    /// binding strength of the outermost construct when printed
    pub open spec fn level(self) -> int { match self { FieldMatcher::Composite { lhs, op, rhs } => op_level(op), _ => 3 } }
    /// printing without parentheses of its own keeps the structure: operands
    /// bind at least as strong, `!` stands before a primary expression
    pub open spec fn prec_ok(self) -> bool decreases self {
        match self {
            FieldMatcher::Composite { lhs, op, rhs } => lhs.prec_ok() && rhs.prec_ok() && lhs.level() >= op_level(op) && rhs.level() >= op_level(op),
            FieldMatcher::Group(m) => m.prec_ok(),
            FieldMatcher::Not(m) => m.prec_ok() && !(*m is Composite) && !(*m is Cardinality),
            _ => true,
        }
    }
//@fn src/matcher/field/mod.rs BitAnd for FieldMatcher::bitand => code_bitand
//@fn src/matcher/field/mod.rs BitOr for FieldMatcher::bitor => code_bitor
//@fn src/matcher/field/mod.rs BitXor for FieldMatcher::bitxor => code_bitxor
//@fn src/matcher/field/mod.rs BitAndAssign for FieldMatcher::bitand_assign => code_bitand_assign
//@fn src/matcher/field/mod.rs BitOrAssign for FieldMatcher::bitor_assign => code_bitor_assign
//@fn src/matcher/field/mod.rs BitXorAssign for FieldMatcher::bitxor_assign => code_bitxor_assign
//@fn src/matcher/field/mod.rs Not for FieldMatcher::not => code_not
    pub open spec fn x_bitand(self, r: FieldMatcher) -> FieldMatcher { self.code_bitand(r) }
    pub open spec fn x_bitor(self, r: FieldMatcher) -> FieldMatcher { self.code_bitor(r) }
    pub open spec fn x_bitxor(self, r: FieldMatcher) -> FieldMatcher { self.code_bitxor(r) }
    pub open spec fn x_bitand_assign(self, r: FieldMatcher) -> FieldMatcher { self.code_bitand_assign(r) }
    pub open spec fn x_bitor_assign(self, r: FieldMatcher) -> FieldMatcher { self.code_bitor_assign(r) }
    pub open spec fn x_bitxor_assign(self, r: FieldMatcher) -> FieldMatcher { self.code_bitxor_assign(r) }
    pub open spec fn x_not(self) -> FieldMatcher { self.code_not() }
}
// ---- printing: the text of a matcher tree, given the texts of its leaves
impl ExistsMatcher {
//@fn src/matcher/field/mod.rs Display for ExistsMatcher::fmt => code_fmt
    pub open spec fn x_display(self) -> Seq<u8> { self.tag_matcher.x_display() + self.occ_matcher.x_display() + seq![63u8] }
}
impl SubfieldsMatcher {
//@fn src/matcher/field/mod.rs Display for SubfieldsMatcher::fmt => code_fmt
    pub open spec fn x_display(self) -> Seq<u8> { self.raw_data }
}
impl CardinalityMatcher {
//@fn src/matcher/field/mod.rs Display for CardinalityMatcher::fmt => code_fmt
    pub open spec fn x_display(self) -> Seq<u8> { self.raw_data }
}
impl SingletonMatcher {
//@fn src/matcher/field/mod.rs Display for SingletonMatcher::fmt => code_fmt
    pub open spec fn x_display(self) -> Seq<u8> { match self { SingletonMatcher::Exists(m) => m.x_display(), SingletonMatcher::Subfields(m) => m.x_display() } }
}
impl FieldMatcher {
//@fn src/matcher/field/mod.rs Display for FieldMatcher::fmt => code_fmt
    pub open spec fn x_display(self) -> Seq<u8> decreases self {
        match self {
            FieldMatcher::Singleton(m) => m.x_display(),
            FieldMatcher::Cardinality(m) => m.x_display(),
            FieldMatcher::Group(m) => seq![40u8] + m.x_display() + seq![41u8],
            FieldMatcher::Not(m) => seq![33u8] + m.x_display(),
            FieldMatcher::Composite { lhs, op, rhs } => lhs.x_display() + seq![32u8] + op_text(op) + seq![32u8] + rhs.x_display(),
        }
    }
}
//@helpers
pub proof fn ob_print_exists(m: ExistsMatcher, f: Seq<u8>) ensures m.code_fmt(f) =~= f + m.x_display() { }
pub proof fn ob_print_subfields(m: SubfieldsMatcher, f: Seq<u8>) ensures m.code_fmt(f) =~= f + m.x_display() { }
pub proof fn ob_print_cardinality(m: CardinalityMatcher, f: Seq<u8>) ensures m.code_fmt(f) =~= f + m.x_display() { }
pub proof fn ob_print_singleton(m: SingletonMatcher, f: Seq<u8>) ensures m.code_fmt(f) =~= f + m.x_display() { }
pub proof fn ob_print_field(m: FieldMatcher, f: Seq<u8>) ensures m.code_fmt(f) =~= f + m.x_display() { reveal_with_fuel(FieldMatcher::x_display, 2); }
pub proof fn ob_field_and(a: FieldMatcher, b: FieldMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    ensures a.code_bitand(b).is_match(fs, o) == and_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(FieldMatcher::is_match, 4); }
pub proof fn ob_field_or(a: FieldMatcher, b: FieldMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    ensures a.code_bitor(b).is_match(fs, o) == or_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(FieldMatcher::is_match, 4); }
pub proof fn ob_field_xor(a: FieldMatcher, b: FieldMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    ensures a.code_bitxor(b).is_match(fs, o) == xor_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(FieldMatcher::is_match, 4); }
pub proof fn ob_field_and_assign(a: FieldMatcher, b: FieldMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    ensures a.code_bitand_assign(b).is_match(fs, o) == and_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(FieldMatcher::is_match, 4); }
pub proof fn ob_field_or_assign(a: FieldMatcher, b: FieldMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    ensures a.code_bitor_assign(b).is_match(fs, o) == or_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(FieldMatcher::is_match, 4); }
pub proof fn ob_field_xor_assign(a: FieldMatcher, b: FieldMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    ensures a.code_bitxor_assign(b).is_match(fs, o) == xor_b(a.is_match(fs, o), b.is_match(fs, o)) { reveal_with_fuel(FieldMatcher::is_match, 4); }
pub proof fn ob_field_not(a: FieldMatcher, fs: Seq<FieldRef>, o: MatcherOptions)
    ensures a.code_not().is_match(fs, o) == !a.is_match(fs, o) { reveal_with_fuel(FieldMatcher::is_match, 4); }
proof fn ob_field_prec_and(a: FieldMatcher, b: FieldMatcher)
    requires a.prec_ok(), b.prec_ok()
    ensures a.code_bitand(b).prec_ok(), a.code_bitand_assign(b).prec_ok() { reveal_with_fuel(FieldMatcher::prec_ok, 4); }
proof fn ob_field_prec_or(a: FieldMatcher, b: FieldMatcher)
    requires a.prec_ok(), b.prec_ok()
    ensures a.code_bitor(b).prec_ok(), a.code_bitor_assign(b).prec_ok() { reveal_with_fuel(FieldMatcher::prec_ok, 4); }
proof fn ob_field_prec_xor(a: FieldMatcher, b: FieldMatcher)
    requires a.prec_ok(), b.prec_ok()
    ensures a.code_bitxor(b).prec_ok(), a.code_bitxor_assign(b).prec_ok() { reveal_with_fuel(FieldMatcher::prec_ok, 4); }
proof fn ob_field_prec_not(a: FieldMatcher)
    requires a.prec_ok()
    ensures a.code_not().prec_ok() { reveal_with_fuel(FieldMatcher::prec_ok, 4); }
}
}
pub mod record_algebra {
use super::*;
use super::field::*;
use super::field_algebra::*;
verus! {
broadcast use group_x;
//@type src/matcher/record.rs RecordMatcher
impl RecordMatcher {
    pub open spec fn is_match(self, r: RecordRef, o: MatcherOptions) -> bool { self.0.is_match(r.0, o) }
    /// contract of parsing: a partial function of the text (its grammar is
    /// the subject of another property)
    pub uninterp spec fn new(s: Seq<u8>) -> Result<RecordMatcher, XErr>;
//@fn src/matcher/record.rs BitAnd for RecordMatcher::bitand => code_bitand
//@fn src/matcher/record.rs BitOr for RecordMatcher::bitor => code_bitor
//@fn src/matcher/record.rs BitXor for RecordMatcher::bitxor => code_bitxor
//@fn src/matcher/record.rs BitAndAssign for RecordMatcher::bitand_assign => code_bitand_assign
//@fn src/matcher/record.rs BitOrAssign for RecordMatcher::bitor_assign => code_bitor_assign
//@fn src/matcher/record.rs BitXorAssign for RecordMatcher::bitxor_assign => code_bitxor_assign
//@fn src/matcher/record.rs Not for RecordMatcher::not => code_not use=opnot
    pub open spec fn x_bitand_assign(self, r: RecordMatcher) -> RecordMatcher { self.code_bitand_assign(r) }
    pub open spec fn x_bitor_assign(self, r: RecordMatcher) -> RecordMatcher { self.code_bitor_assign(r) }
    pub open spec fn x_not(self) -> RecordMatcher { self.code_not() }
//@fn src/matcher/record.rs Display for RecordMatcher::fmt => code_fmt
}
pub struct RecordMatcherBuilder { pub transform: spec_fn(Seq<u8>) -> Seq<u8>, pub matcher: RecordMatcher }
impl RecordMatcherBuilder {
    pub open spec fn upd_matcher(self, m: RecordMatcher) -> RecordMatcherBuilder { RecordMatcherBuilder { matcher: m, ..self } }
//@fn src/matcher/builder.rs RecordMatcherBuilder::and => code_and
//@fn src/matcher/builder.rs RecordMatcherBuilder::or => code_or
//@fn src/matcher/builder.rs RecordMatcherBuilder::not => code_not use=opnot
//@fn src/matcher/builder.rs RecordMatcherBuilder::build => code_build
}
//@helpers
proof fn ob_record_and(a: RecordMatcher, b: RecordMatcher, r: RecordRef, o: MatcherOptions)
    ensures a.code_bitand(b).is_match(r, o) == and_b(a.is_match(r, o), b.is_match(r, o)),
            a.code_bitand_assign(b).is_match(r, o) == and_b(a.is_match(r, o), b.is_match(r, o))
{ ob_field_and(a.0, b.0, r.0, o); ob_field_and_assign(a.0, b.0, r.0, o); }
proof fn ob_record_or(a: RecordMatcher, b: RecordMatcher, r: RecordRef, o: MatcherOptions)
    ensures a.code_bitor(b).is_match(r, o) == or_b(a.is_match(r, o), b.is_match(r, o)),
            a.code_bitor_assign(b).is_match(r, o) == or_b(a.is_match(r, o), b.is_match(r, o))
{ ob_field_or(a.0, b.0, r.0, o); ob_field_or_assign(a.0, b.0, r.0, o); }
proof fn ob_record_xor(a: RecordMatcher, b: RecordMatcher, r: RecordRef, o: MatcherOptions)
    ensures a.code_bitxor(b).is_match(r, o) == xor_b(a.is_match(r, o), b.is_match(r, o)),
            a.code_bitxor_assign(b).is_match(r, o) == xor_b(a.is_match(r, o), b.is_match(r, o))
{ ob_field_xor(a.0, b.0, r.0, o); ob_field_xor_assign(a.0, b.0, r.0, o); }
proof fn ob_record_not(a: RecordMatcher, r: RecordRef, o: MatcherOptions)
    ensures a.code_not().is_match(r, o) == !a.is_match(r, o) { ob_field_not(a.0, r.0, o); }
pub proof fn ob_print_record(a: RecordMatcher, f: Seq<u8>)
    ensures a.code_fmt(f) =~= f + a.0.x_display() { }

// ---- the builder: and / or / not with a list of further predicates
pub type BuilderStep = Ctl<RecordMatcherBuilder, Result<RecordMatcherBuilder, XErr>>;
pub enum How { And, Or, Not }
pub open spec fn parsed(t: spec_fn(Seq<u8>) -> Seq<u8>, p: Seq<u8>) -> Result<RecordMatcher, XErr> { RecordMatcher::new(t(p)) }
pub open spec fn all_parse(t: spec_fn(Seq<u8>) -> Seq<u8>, ps: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ps.len() ==> parsed(t, #[trigger] ps[i]) is Ok }
pub open spec fn hit(t: spec_fn(Seq<u8>) -> Seq<u8>, p: Seq<u8>, r: RecordRef, o: MatcherOptions) -> bool { parsed(t, p)->Ok_0.is_match(r, o) }
/// what the combined matcher means
pub open spec fn combined(how: How, m: bool, t: spec_fn(Seq<u8>) -> Seq<u8>, ps: Seq<Seq<u8>>, r: RecordRef, o: MatcherOptions) -> bool {
    match how {
        How::And => m && forall|i: int| 0 <= i < ps.len() ==> hit(t, #[trigger] ps[i], r, o),
        How::Or => m || exists|i: int| 0 <= i < ps.len() && hit(t, #[trigger] ps[i], r, o),
        How::Not => m && forall|i: int| 0 <= i < ps.len() ==> !hit(t, #[trigger] ps[i], r, o),
    }
}
pub open spec fn builder_post(how: How, b: RecordMatcherBuilder, ps: Seq<Seq<u8>>, res: Result<RecordMatcherBuilder, XErr>) -> bool {
    match res {
        Ok(b2) => all_parse(b.transform, ps) && b2.transform == b.transform
            && forall|r: RecordRef, o: MatcherOptions| (#[trigger] b2.matcher.is_match(r, o)) == combined(how, b.matcher.is_match(r, o), b.transform, ps, r, o),
        Err(_) => !all_parse(b.transform, ps),
    }
}
pub open spec fn ctl_post(how: How, b: RecordMatcherBuilder, ps: Seq<Seq<u8>>, c: BuilderStep) -> bool {
    match c { Ctl::Next(b2) => builder_post(how, b, ps, Ok(b2)), Ctl::Ret(r) => r is Err && builder_post(how, b, ps, r), Ctl::Brk(_) => false }
}
/// loop body contract: one predicate
pub open spec fn step_post(how: How, b: RecordMatcherBuilder, p: Seq<u8>, c: BuilderStep) -> bool {
    match c {
        Ctl::Next(b2) => parsed(b.transform, p) is Ok && b2.transform == b.transform
            && forall|r: RecordRef, o: MatcherOptions| (#[trigger] b2.matcher.is_match(r, o)) == match how {
                How::And => b.matcher.is_match(r, o) && hit(b.transform, p, r, o),
                How::Or => b.matcher.is_match(r, o) || hit(b.transform, p, r, o),
                How::Not => b.matcher.is_match(r, o) && !hit(b.transform, p, r, o),
            },
        Ctl::Ret(r) => r is Err && parsed(b.transform, p) is Err,
        Ctl::Brk(_) => false,
    }
}
pub open spec fn one_step(how: How, f: spec_fn(RecordMatcherBuilder, Seq<u8>) -> BuilderStep) -> bool {
    forall|b: RecordMatcherBuilder, p: Seq<u8>| step_post(how, b, p, #[trigger] f(b, p))
}
/// loop rule
proof fn lem_builder_loop(how: How, ps: Seq<Seq<u8>>, b: RecordMatcherBuilder, f: spec_fn(RecordMatcherBuilder, Seq<u8>) -> BuilderStep)
    requires one_step(how, f)
    ensures ctl_post(how, b, ps, seq_for(ps, b, f))
    decreases ps.len()
{
    if ps.len() > 0 {
        let rest = ps.subrange(1, ps.len() as int);
        assert(step_post(how, b, ps[0], f(b, ps[0])));
        assert forall|i: int| 0 <= i < ps.len() implies (i == 0 || #[trigger] ps[i] == rest[i - 1]) by { }
        assert forall|i: int| 0 <= i < rest.len() implies #[trigger] rest[i] == ps[i + 1] by { }
        if let Ctl::Next(b2) = f(b, ps[0]) {
            lem_builder_loop(how, rest, b2, f);
            if all_parse(b.transform, ps) {
                assert forall|i: int| 0 <= i < rest.len() implies parsed(b.transform, #[trigger] rest[i]) is Ok by { assert(rest[i] == ps[i + 1]); }
            }
            if let Ctl::Next(b3) = seq_for(rest, b2, f) {
                assert forall|i: int| 0 <= i < ps.len() implies parsed(b.transform, #[trigger] ps[i]) is Ok by { if i > 0 { assert(ps[i] == rest[i - 1]); } }
                assert forall|r: RecordRef, o: MatcherOptions| (#[trigger] b3.matcher.is_match(r, o)) == combined(how, b.matcher.is_match(r, o), b.transform, ps, r, o) by {
                    let m2 = b2.matcher.is_match(r, o);
                    assert(b3.matcher.is_match(r, o) == combined(how, m2, b.transform, rest, r, o));
                    assert forall|i: int| 0 <= i < rest.len() implies hit(b.transform, #[trigger] rest[i], r, o) == hit(b.transform, ps[i + 1], r, o) by { }
                    assert forall|i: int| 0 < i < ps.len() implies hit(b.transform, #[trigger] ps[i], r, o) == hit(b.transform, rest[i - 1], r, o) by { }
                }
            }
        } else {
            if all_parse(b.transform, ps) { assert(parsed(b.transform, ps[0]) is Ok); }
        }
    }
}
broadcast proof fn lem_builder_and(ps: Seq<Seq<u8>>, b: RecordMatcherBuilder, f: spec_fn(RecordMatcherBuilder, Seq<u8>) -> BuilderStep)
    requires one_step(How::And, f) ensures ctl_post(How::And, b, ps, #[trigger] seq_for(ps, b, f)) { lem_builder_loop(How::And, ps, b, f); }
broadcast proof fn lem_builder_or(ps: Seq<Seq<u8>>, b: RecordMatcherBuilder, f: spec_fn(RecordMatcherBuilder, Seq<u8>) -> BuilderStep)
    requires one_step(How::Or, f) ensures ctl_post(How::Or, b, ps, #[trigger] seq_for(ps, b, f)) { lem_builder_loop(How::Or, ps, b, f); }
broadcast proof fn lem_builder_not(ps: Seq<Seq<u8>>, b: RecordMatcherBuilder, f: spec_fn(RecordMatcherBuilder, Seq<u8>) -> BuilderStep)
    requires one_step(How::Not, f) ensures ctl_post(How::Not, b, ps, #[trigger] seq_for(ps, b, f)) { lem_builder_loop(How::Not, ps, b, f); }
broadcast proof fn lem_record_and(a: RecordMatcher, b: RecordMatcher, r: RecordRef, o: MatcherOptions)
    ensures (#[trigger] a.x_bitand_assign(b).is_match(r, o)) == and_b(a.is_match(r, o), b.is_match(r, o)) { ob_record_and(a, b, r, o); }
broadcast proof fn lem_record_or(a: RecordMatcher, b: RecordMatcher, r: RecordRef, o: MatcherOptions)
    ensures (#[trigger] a.x_bitor_assign(b).is_match(r, o)) == or_b(a.is_match(r, o), b.is_match(r, o)) { ob_record_or(a, b, r, o); }
broadcast proof fn lem_record_not(a: RecordMatcher, r: RecordRef, o: MatcherOptions)
    ensures (#[trigger] a.x_not().is_match(r, o)) == !a.is_match(r, o) { ob_record_not(a, r, o); }

proof fn ob_builder_and(b: RecordMatcherBuilder, ps: Seq<Seq<u8>>)
    ensures builder_post(How::And, b, ps, b.code_and(ps)) {
    hide(RecordMatcher::x_bitand_assign); hide(RecordMatcher::is_match);
    broadcast use lem_builder_and, lem_record_and;
}
proof fn ob_builder_or(b: RecordMatcherBuilder, ps: Seq<Seq<u8>>)
    ensures builder_post(How::Or, b, ps, b.code_or(ps)) {
    hide(RecordMatcher::x_bitor_assign); hide(RecordMatcher::is_match);
    broadcast use lem_builder_or, lem_record_or;
}
proof fn ob_builder_not(b: RecordMatcherBuilder, ps: Seq<Seq<u8>>)
    ensures builder_post(How::Not, b, ps, b.code_not(ps)) {
    hide(RecordMatcher::x_bitand_assign); hide(RecordMatcher::x_not); hide(RecordMatcher::is_match);
    broadcast use lem_builder_not, lem_record_and, lem_record_not;
}
proof fn ob_builder_build(b: RecordMatcherBuilder) ensures b.code_build() == b.matcher { }
}
}
