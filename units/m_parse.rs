//@include parse_sub.rs
pub mod field {
use super::*;
use super::subfield::SubfieldMatcher;
verus! {
broadcast use group_x;
//@type src/matcher/field/mod.rs ExistsMatcher
//@type src/matcher/field/mod.rs SubfieldsMatcher
//@type src/matcher/field/mod.rs SingletonMatcher
//@type src/matcher/field/mod.rs CardinalityMatcher
//@type src/matcher/field/mod.rs FieldMatcher
}
}
//@path subfield::parser::parse_exists_matcher = super::sub_p::parse_exists_matcher
//@ret subfield::parser::parse_exists_matcher = subfield::ExistsMatcher
//@fuel src/matcher/field/parser.rs parse_subfields_matcher_bracket parse_subfields_matcher parse_singleton_matcher parse_cardinality_matcher parse_field_singleton_matcher parse_field_cardinality_matcher parse_field_group_matcher parse_field_not_matcher parse_field_or_matcher parse_field_xor_matcher parse_field_and_matcher parse_field_composite_matcher parse_field_matcher
pub mod field_p {
use super::*;
use super::field::*;
use super::subfield;
use super::subfield::SubfieldMatcher;
use super::sub_p::{parse_subfield_matcher, parse_subfield_singleton_matcher, parse_quantifier, parse_relational_operator, kw, op_sym, dec_value, lem_kw, lem_op, quant_text, tok, lem_tok, lem_quant, XParseNum};
verus! {
broadcast use group_x;
impl FieldMatcher {
//@fn src/matcher/field/mod.rs BitAnd for FieldMatcher::bitand => code_bitand
//@fn src/matcher/field/mod.rs BitOr for FieldMatcher::bitor => code_bitor
//@fn src/matcher/field/mod.rs BitXor for FieldMatcher::bitxor => code_bitxor
    pub open spec fn x_bitand(self, r: FieldMatcher) -> FieldMatcher { self.code_bitand(r) }
    pub open spec fn x_bitor(self, r: FieldMatcher) -> FieldMatcher { self.code_bitor(r) }
    pub open spec fn x_bitxor(self, r: FieldMatcher) -> FieldMatcher { self.code_bitxor(r) }
}
pub open spec fn group_level_dec() -> () { () }
pub uninterp spec fn level_free(i: Seq<u8>) -> bool;
pub open spec fn group_level_inc() -> Parser<()> { |i: Seq<u8>| if level_free(i) { PR::Ok((), i) } else { PR::Err } }
//@fn src/matcher/field/parser.rs parse_exists_matcher => parse_exists_matcher parser
//@fn src/matcher/field/parser.rs parse_subfields_matcher_dot => parse_subfields_matcher_dot parser
//@fn src/matcher/field/parser.rs parse_subfields_matcher_dollar => parse_subfields_matcher_dollar parser
//@fn src/matcher/field/parser.rs parse_subfields_matcher_bracket => parse_subfields_matcher_bracket parser
//@fn src/matcher/field/parser.rs parse_subfields_matcher => parse_subfields_matcher parser
//@fn src/matcher/field/parser.rs parse_singleton_matcher => parse_singleton_matcher parser
//@fn src/matcher/field/parser.rs parse_cardinality_matcher => parse_cardinality_matcher parser
//@fn src/matcher/field/parser.rs parse_field_singleton_matcher => parse_field_singleton_matcher parser
//@fn src/matcher/field/parser.rs parse_field_cardinality_matcher => parse_field_cardinality_matcher parser
//@fn src/matcher/field/parser.rs parse_field_exists_matcher => parse_field_exists_matcher parser
//@fn src/matcher/field/parser.rs parse_field_group_matcher => parse_field_group_matcher parser
//@fn src/matcher/field/parser.rs parse_field_not_matcher => parse_field_not_matcher parser
//@fn src/matcher/field/parser.rs parse_field_or_matcher => parse_field_or_matcher parser
//@fn src/matcher/field/parser.rs parse_field_xor_matcher => parse_field_xor_matcher parser
//@fn src/matcher/field/parser.rs parse_field_and_matcher => parse_field_and_matcher parser
//@fn src/matcher/field/parser.rs parse_field_composite_matcher => parse_field_composite_matcher parser
//@fn src/matcher/field/parser.rs parse_field_matcher => parse_field_matcher parser
pub type M = FieldMatcher;
pub open spec fn op_level(op: BooleanOp) -> int { match op { BooleanOp::Or => 0, BooleanOp::Xor => 1, BooleanOp::And => 2 } }
pub open spec fn op_text(op: BooleanOp, o: Seq<u8>) -> bool {
    match op { BooleanOp::Or => o == seq![124u8, 124u8], BooleanOp::Xor => o == seq![94u8] || o == seq![88u8, 79u8, 82u8], BooleanOp::And => o == seq![38u8, 38u8] }
}
pub open spec fn braced(s: SubfieldMatcher, t: Seq<u8>) -> bool {
    exists|a: Seq<u8>, u: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, u, c) && tok(a, 123u8) && tok(c, 125u8) && super::sub_p::spells(s, u) && super::sub_p::shaped(s)
}
pub open spec fn dotted(s: SubfieldMatcher, t: Seq<u8>) -> bool {
    s is Singleton && exists|a: Seq<u8>, u: Seq<u8>| #[trigger] cat2(t, a, u) && (tok(a, 46u8) || tok(a, 36u8)) && super::sub_p::leaf(s, u)
}
/// quantifier, tag, occurrence, and what holds for the subfields
pub open spec fn subs_text(x: SubfieldsMatcher, t: Seq<u8>) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| #[trigger] cat4(t, a, b, c, d) && quant_text(x.quantifier, a) && tag_matcher_text(x.tag_matcher, b) && occ_matcher_text(x.occurrence_matcher, c)
        && (braced(x.subfield_matcher, d) || dotted(x.subfield_matcher, d))
}
pub open spec fn exists_text(x: ExistsMatcher, t: Seq<u8>) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat2(t, a, seq![63u8]) && #[trigger] padded(a, b + c) && tag_matcher_text(x.tag_matcher, b) && occ_matcher_text(x.occ_matcher, c)
}
pub open spec fn spaced_tag(m: TagMatcher, t: Seq<u8>) -> bool { exists|u: Seq<u8>| #[trigger] padded(t, u) && tag_matcher_text(m, u) }
pub open spec fn spaced_occ(m: OccurrenceMatcher, t: Seq<u8>) -> bool { exists|u: Seq<u8>| #[trigger] padded(t, u) && occ_matcher_text(m, u) }
pub open spec fn opt_braced(s: Option<SubfieldMatcher>, t: Seq<u8>) -> bool { match s { None => t.len() == 0, Some(x) => braced(x, t) } }
pub open spec fn card_text(x: CardinalityMatcher, t: Seq<u8>) -> bool {
    exists|h: Seq<u8>, w: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>| #[trigger] cat2(t, h, w) && #[trigger] cat5(w, a, b, c, d, e) && tok(h, 35u8)
        && spaced_tag(x.tag_matcher, a) && spaced_occ(x.occ_matcher, b) && opt_braced(x.subfield_matcher, c)
        && padded(d, op_sym(x.op)) && x.op.is_usize_applicable() && e.len() > 0 && digits(e) && dec_value(e) == x.value
}
pub open spec fn leaf(m: FieldMatcher, t: Seq<u8>) -> bool {
    match m {
        FieldMatcher::Singleton(s) => match s { SingletonMatcher::Exists(x) => exists_text(x, t), SingletonMatcher::Subfields(x) => subs_text(x, t) },
        FieldMatcher::Cardinality(x) => card_text(x, t),
        _ => false,
    }
}
//@include gram.rs
pub broadcast proof fn lem_leaves_reads(p: Parser<M>)
    requires sfx(p), forall|x: M, t: Seq<u8>| #[trigger] reads(p, x, t) ==> leaf(x, t) && is_leaf(x)
    ensures #[trigger] leaves(p)
{
    reveal(leaves); reveal(sfx);
    assert forall|i: Seq<u8>| match #[trigger] p(i) { PR::Ok(x, r) => suff(i, r) && leaf(x, took(i, r)) && is_leaf(x), _ => true } by {
        match p(i) { PR::Ok(x, r) => { lem_reads_is(p, x, i, r); } _ => {} }
    }
}
pub broadcast proof fn lem_tag_reads(m: TagMatcher, t: Seq<u8>) requires #[trigger] reads(parse_tag_matcher(), m, t) ensures tag_matcher_text(m, t) { lem_parse_tag(m, t); }
pub broadcast proof fn lem_occ_reads(m: OccurrenceMatcher, t: Seq<u8>) requires #[trigger] reads(parse_occurrence_matcher(), m, t) ensures occ_matcher_text(m, t) { lem_parse_occ(m, t); }
pub broadcast proof fn lem_sub_reads(n: nat, m: SubfieldMatcher, t: Seq<u8>) requires #[trigger] reads(parse_subfield_matcher(n), m, t) ensures super::sub_p::spells(m, t), super::sub_p::shaped(m)
{
    super::sub_p::lem_ih(n); reveal(sound);
    let (i, r) = lem_reads(parse_subfield_matcher(n), m, t);
    assert(super::sub_p::expr(0)(m, took(i, r)));
}
pub broadcast proof fn lem_subs_reads(m: SubfieldMatcher, t: Seq<u8>) requires #[trigger] reads(parse_subfield_singleton_matcher(), m, t) ensures super::sub_p::leaf(m, t), m is Singleton
{
    super::sub_p::lem_leaves(); reveal(super::sub_p::leaves);
    let (i, r) = lem_reads(parse_subfield_singleton_matcher(), m, t);
}
pub proof fn lem_small()
    ensures sfx(parse_occurrence_matcher()), sfx(parse_quantifier()), sfx(parse_relational_operator())
{ broadcast use group_sfx; }
pub proof fn lem_sfx_sub(n: nat)
    ensures sfx(parse_subfield_matcher(n))
{ super::sub_p::lem_ih(n); reveal(sound); reveal(sfx); }
pub proof fn lem_sfx_subs()
    ensures sfx(parse_subfield_singleton_matcher())
{ super::sub_p::lem_leaves(); reveal(sfx); reveal(super::sub_p::leaves); }
pub proof fn lem_callees(n: nat)
    ensures sfx(parse_tag_matcher()), sfx(parse_occurrence_matcher()), sfx(parse_quantifier()), sfx(parse_relational_operator()), sfx(parse_subfield_singleton_matcher()), sfx(parse_subfield_matcher(n)),
        sfx(super::sub_p::parse_exists_matcher()),
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_quantifier); hide(parse_relational_operator); hide(parse_subfield_singleton_matcher); hide(parse_subfield_matcher); hide(super::sub_p::parse_exists_matcher);
    lem_sfx_tag(); lem_small(); lem_sfx_sub(n); lem_sfx_subs();
    super::sub_p::lem_sfx_leaves();
}
pub broadcast group group_leaf { lem_tag_reads, lem_occ_reads, lem_sub_reads, lem_subs_reads, lem_kw, lem_op, lem_callees_b }
pub broadcast proof fn lem_callees_b(n: nat)
    ensures sfx(parse_tag_matcher()), sfx(parse_occurrence_matcher()), sfx(parse_quantifier()), sfx(parse_relational_operator()), sfx(parse_subfield_singleton_matcher()), #[trigger] sfx(parse_subfield_matcher(n)),
        sfx(super::sub_p::parse_exists_matcher()),
{ lem_callees(n); }
pub broadcast proof fn lem_exists_f(x: ExistsMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_exists_matcher(), x, t)
    ensures exists_text(x, t), sfx(parse_exists_matcher())
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher);
    broadcast use group_sfx, group_reads, group_leaf;
    lem_callees(0);
}
pub proof fn lem_dot(x: SubfieldsMatcher, t: Seq<u8>)
    requires reads(parse_subfields_matcher_dot(), x, t)
    ensures subs_text(x, t)
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_quantifier); hide(parse_subfield_singleton_matcher);
    hide(super::sub_p::leaf);
    broadcast use group_sfx, group_reads, group_leaf, lem_quant;
    lem_tok(46u8);
    lem_callees(0);
}
pub proof fn lem_dollar(x: SubfieldsMatcher, t: Seq<u8>)
    requires reads(parse_subfields_matcher_dollar(), x, t)
    ensures subs_text(x, t)
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_quantifier); hide(parse_subfield_singleton_matcher); hide(parse_subfield_matcher); hide(parse_relational_operator); hide(super::sub_p::parse_exists_matcher);
    hide(super::sub_p::leaf); hide(super::sub_p::spells); hide(super::sub_p::shaped);
    broadcast use group_sfx, group_reads, group_leaf, lem_quant;
    lem_tok(36u8);
    lem_callees(0);
}
pub proof fn lem_bracket(n: nat, x: SubfieldsMatcher, t: Seq<u8>)
    requires reads(parse_subfields_matcher_bracket(n), x, t)
    ensures n > 0, subs_text(x, t)
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_quantifier); hide(parse_subfield_singleton_matcher); hide(parse_subfield_matcher); hide(parse_relational_operator); hide(super::sub_p::parse_exists_matcher);
    hide(super::sub_p::leaf); hide(super::sub_p::spells); hide(super::sub_p::shaped);
    broadcast use group_sfx, group_reads, group_leaf, lem_quant;
    if n == 0 { let (i, r) = lem_reads(parse_subfields_matcher_bracket(n), x, t); assert(false); }
    let q = parse_subfield_matcher((n - 1) as nat);
    lem_callees((n - 1) as nat);
}
pub proof fn lem_card(n: nat, x: CardinalityMatcher, t: Seq<u8>)
    requires reads(parse_cardinality_matcher(n), x, t)
    ensures n > 0, card_text(x, t)
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_quantifier); hide(parse_subfield_singleton_matcher); hide(parse_subfield_matcher); hide(parse_relational_operator); hide(super::sub_p::parse_exists_matcher);
    hide(super::sub_p::leaf); hide(super::sub_p::spells); hide(super::sub_p::shaped);
    broadcast use group_sfx, group_reads, group_leaf, lem_quant;
    if n == 0 { let (i, r) = lem_reads(parse_cardinality_matcher(n), x, t); assert(false); }
    lem_callees((n - 1) as nat);
}
pub proof fn lem_field_exists(x: FieldMatcher, t: Seq<u8>)
    requires reads(parse_field_exists_matcher(), x, t)
    ensures leaf(x, t), is_leaf(x)
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_quantifier); hide(parse_subfield_singleton_matcher); hide(parse_subfield_matcher); hide(parse_relational_operator); hide(super::sub_p::parse_exists_matcher);
    hide(parse_exists_matcher); hide(super::sub_p::spells); hide(super::sub_p::shaped);
    broadcast use group_sfx, group_reads, group_leaf, lem_quant, lem_exists_f, super::sub_p::lem_has;
    lem_callees(0);
    assert(sfx(parse_exists_matcher())) by { reveal(parse_exists_matcher); }
}
pub proof fn lem_sfx_leaf_parsers(n: nat)
    ensures sfx(parse_exists_matcher()), sfx(parse_subfields_matcher_dot()), sfx(parse_subfields_matcher_dollar()), sfx(parse_subfields_matcher_bracket(n)), sfx(parse_cardinality_matcher(n)), sfx(parse_field_exists_matcher()),
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_quantifier); hide(parse_subfield_singleton_matcher); hide(parse_subfield_matcher); hide(parse_relational_operator); hide(super::sub_p::parse_exists_matcher);
    broadcast use group_sfx, sfx_cut;
    lem_callees(0);
    if n > 0 { lem_callees((n - 1) as nat); }
}
pub broadcast proof fn sfx_cut<A>() ensures #[trigger] sfx(p_cut::<A>()) { reveal(sfx); }
pub proof fn lem_sfx_leaf_alts(n: nat)
    ensures sfx(parse_subfields_matcher(n)), sfx(parse_singleton_matcher(n)), sfx(parse_field_singleton_matcher(n)), sfx(parse_field_cardinality_matcher(n)),
    decreases n
{
    hide(parse_exists_matcher); hide(parse_subfields_matcher_dot); hide(parse_subfields_matcher_dollar); hide(parse_subfields_matcher_bracket); hide(parse_cardinality_matcher);
    broadcast use sfx_map, sfx_alt, sfx_cut;
    lem_sfx_leaf_parsers(n);
    if n > 0 { lem_sfx_leaf_parsers((n - 1) as nat); lem_sfx_leaf_alts((n - 1) as nat); }
}
pub proof fn lem_subfields(n: nat, x: SubfieldsMatcher, t: Seq<u8>)
    requires reads(parse_subfields_matcher(n), x, t)
    ensures subs_text(x, t)
{
    hide(parse_subfields_matcher_dot); hide(parse_subfields_matcher_dollar); hide(parse_subfields_matcher_bracket);
    broadcast use reads_alt, reads_map;
    if n == 0 { let (i, r) = lem_reads(parse_subfields_matcher(n), x, t); assert(false); }
    if reads(parse_subfields_matcher_dot(), x, t) { lem_dot(x, t); }
    if reads(parse_subfields_matcher_dollar(), x, t) { lem_dollar(x, t); }
    if reads(parse_subfields_matcher_bracket((n - 1) as nat), x, t) { lem_bracket((n - 1) as nat, x, t); }
}
pub broadcast proof fn lem_subfields_b(n: nat, x: SubfieldsMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_subfields_matcher(n), x, t)
    ensures subs_text(x, t)
{ lem_subfields(n, x, t); }
pub broadcast proof fn lem_bracket_b(n: nat, x: SubfieldsMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_subfields_matcher_bracket(n), x, t)
    ensures subs_text(x, t)
{ lem_bracket(n, x, t); }
pub broadcast proof fn lem_card_b(n: nat, x: CardinalityMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_cardinality_matcher(n), x, t)
    ensures card_text(x, t)
{ lem_card(n, x, t); }
pub broadcast proof fn lem_single(n: nat, x: SingletonMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_singleton_matcher(n), x, t)
    ensures leaf(FieldMatcher::Singleton(x), t)
{
    hide(parse_exists_matcher); hide(parse_subfields_matcher);
    broadcast use reads_alt, reads_map, lem_exists_f, lem_subfields_b;
    if n == 0 { let (i, r) = lem_reads(parse_singleton_matcher(n), x, t); assert(false); }
    lem_sfx_leaf_parsers((n - 1) as nat); lem_sfx_leaf_alts((n - 1) as nat);
}
pub proof fn lem_leaves(n: nat)
    ensures leaves(parse_field_singleton_matcher(n)), leaves(parse_field_cardinality_matcher(n)), leaves(parse_field_exists_matcher())
{
    hide(parse_singleton_matcher); hide(parse_cardinality_matcher); hide(parse_field_exists_matcher);
    broadcast use reads_map, lem_single, lem_card_b;
    lem_sfx_leaf_parsers(n); lem_sfx_leaf_alts(n);
    if n > 0 { lem_sfx_leaf_parsers((n - 1) as nat); lem_sfx_leaf_alts((n - 1) as nat); }
    let p = parse_field_singleton_matcher(n);
    assert forall|x: M, t: Seq<u8>| #[trigger] reads(p, x, t) implies leaf(x, t) && is_leaf(x) by { if n == 0 { let (i, r) = lem_reads(p, x, t); } }
    lem_leaves_reads(p);
    let q = parse_field_cardinality_matcher(n);
    assert forall|x: M, t: Seq<u8>| #[trigger] reads(q, x, t) implies leaf(x, t) && is_leaf(x) by { if n == 0 { let (i, r) = lem_reads(q, x, t); } }
    lem_leaves_reads(q);
    let w = parse_field_exists_matcher();
    assert forall|x: M, t: Seq<u8>| #[trigger] reads(w, x, t) implies leaf(x, t) && is_leaf(x) by { lem_field_exists(x, t); }
    lem_leaves_reads(w);
}
pub broadcast proof fn leaves_bracket(n: nat, f: spec_fn(SubfieldsMatcher) -> SingletonMatcher, g: spec_fn(SingletonMatcher) -> FieldMatcher)
    requires forall|x: SubfieldsMatcher| #[trigger] f(x) == SingletonMatcher::Subfields(x), forall|x: SingletonMatcher| #[trigger] g(x) == FieldMatcher::Singleton(x)
    ensures #[trigger] leaves(p_map(p_map(parse_subfields_matcher_bracket(n), f), g))
{
    hide(parse_subfields_matcher_bracket);
    broadcast use reads_map, lem_bracket_b, sfx_map;
    lem_sfx_leaf_parsers(n);
    let p = p_map(p_map(parse_subfields_matcher_bracket(n), f), g);
    assert forall|x: M, t: Seq<u8>| #[trigger] reads(p, x, t) implies leaf(x, t) && is_leaf(x) by {}
    lem_leaves_reads(p);
}
/// what the induction on the depth shows
pub open spec fn ih(n: nat) -> bool {
    &&& forall|k: int| k <= 0 ==> #[trigger] sound(parse_field_or_matcher(n), expr(k))
    &&& forall|k: int| k <= 1 ==> #[trigger] sound(parse_field_xor_matcher(n), expr(k))
    &&& forall|k: int| k <= 2 ==> #[trigger] sound(parse_field_and_matcher(n), expr(k))
    &&& forall|k: int| k <= 3 ==> #[trigger] sound(parse_field_group_matcher(n), expr(k))
    &&& forall|k: int| k <= 3 ==> #[trigger] sound(parse_field_not_matcher(n), expr(k))
    &&& sound(parse_field_composite_matcher(n), expr(0))
    &&& sound(parse_field_matcher(n), expr(0))
}
pub broadcast proof fn still_level() ensures #[trigger] still(group_level_inc()) { reveal(still); }
/// the parsers of depth `m`, at each level
pub proof fn lem_at(m: nat)
    requires ih(m)
    ensures
        sound(parse_field_or_matcher(m), expr(0)),
        sound(parse_field_xor_matcher(m), expr(0)), sound(parse_field_xor_matcher(m), expr(1)),
        sound(parse_field_and_matcher(m), expr(0)), sound(parse_field_and_matcher(m), expr(1)), sound(parse_field_and_matcher(m), expr(2)),
        sound(parse_field_group_matcher(m), expr(0)), sound(parse_field_group_matcher(m), expr(1)), sound(parse_field_group_matcher(m), expr(2)), sound(parse_field_group_matcher(m), expr(3)),
        sound(parse_field_not_matcher(m), expr(0)), sound(parse_field_not_matcher(m), expr(1)), sound(parse_field_not_matcher(m), expr(2)), sound(parse_field_not_matcher(m), expr(3)),
        sound(parse_field_composite_matcher(m), expr(0)),
        sound(parse_field_singleton_matcher(m), expr(0)), sound(parse_field_singleton_matcher(m), expr(1)), sound(parse_field_singleton_matcher(m), expr(2)), sound(parse_field_singleton_matcher(m), expr(3)),
        sound(parse_field_cardinality_matcher(m), expr(0)), sound(parse_field_cardinality_matcher(m), expr(1)), sound(parse_field_cardinality_matcher(m), expr(2)), sound(parse_field_cardinality_matcher(m), expr(3)),
        sound(parse_field_exists_matcher(), expr(0)), sound(parse_field_exists_matcher(), expr(1)), sound(parse_field_exists_matcher(), expr(2)), sound(parse_field_exists_matcher(), expr(3)),
{
    hide(parse_field_singleton_matcher); hide(parse_field_cardinality_matcher); hide(parse_field_exists_matcher);
    broadcast use sound_leaves;
    lem_leaves(m);
}
pub proof fn step_or(n: nat, k: int)
    requires n > 0, ih((n - 1) as nat), k <= 0
    ensures sound(parse_field_or_matcher(n), expr(k))
{
    hide(parse_field_singleton_matcher); hide(parse_field_cardinality_matcher); hide(parse_field_exists_matcher); hide(parse_subfields_matcher_bracket);
    broadcast use group_gram; broadcast use still_level; lem_at((n - 1) as nat);
}
pub proof fn step_xor(n: nat, k: int)
    requires n > 0, ih((n - 1) as nat), k <= 1
    ensures sound(parse_field_xor_matcher(n), expr(k))
{
    hide(parse_field_singleton_matcher); hide(parse_field_cardinality_matcher); hide(parse_field_exists_matcher); hide(parse_subfields_matcher_bracket);
    broadcast use group_gram; broadcast use still_level; lem_at((n - 1) as nat);
}
pub proof fn step_and(n: nat, k: int)
    requires n > 0, ih((n - 1) as nat), k <= 2
    ensures sound(parse_field_and_matcher(n), expr(k))
{
    hide(parse_field_singleton_matcher); hide(parse_field_cardinality_matcher); hide(parse_field_exists_matcher); hide(parse_subfields_matcher_bracket);
    broadcast use group_gram; broadcast use still_level; lem_at((n - 1) as nat);
}
pub proof fn step_group(n: nat, k: int)
    requires n > 0, ih((n - 1) as nat), k <= 3
    ensures sound(parse_field_group_matcher(n), expr(k))
{
    hide(parse_field_singleton_matcher); hide(parse_field_cardinality_matcher); hide(parse_field_exists_matcher); hide(parse_subfields_matcher_bracket);
    broadcast use group_gram; broadcast use still_level; lem_at((n - 1) as nat);
}
pub proof fn step_not(n: nat, k: int)
    requires n > 0, ih((n - 1) as nat), k <= 3
    ensures sound(parse_field_not_matcher(n), expr(k))
{
    hide(parse_field_singleton_matcher); hide(parse_field_cardinality_matcher); hide(parse_field_exists_matcher); hide(parse_subfields_matcher_bracket);
    broadcast use group_gram; broadcast use still_level; broadcast use leaves_bracket; lem_at((n - 1) as nat);
}
pub proof fn step_top(n: nat)
    requires n > 0, ih((n - 1) as nat)
    ensures sound(parse_field_composite_matcher(n), expr(0)), sound(parse_field_matcher(n), expr(0))
{
    hide(parse_field_singleton_matcher); hide(parse_field_cardinality_matcher); hide(parse_field_exists_matcher); hide(parse_subfields_matcher_bracket);
    broadcast use group_gram; broadcast use still_level; lem_at((n - 1) as nat);
}
pub proof fn lem_ih(n: nat)
    ensures ih(n)
    decreases n
{
    broadcast use sound_cut;
    if n > 0 {
        lem_ih((n - 1) as nat);
        assert forall|k: int| k <= 0 implies #[trigger] sound(parse_field_or_matcher(n), expr(k)) by { step_or(n, k); }
        assert forall|k: int| k <= 1 implies #[trigger] sound(parse_field_xor_matcher(n), expr(k)) by { step_xor(n, k); }
        assert forall|k: int| k <= 2 implies #[trigger] sound(parse_field_and_matcher(n), expr(k)) by { step_and(n, k); }
        assert forall|k: int| k <= 3 implies #[trigger] sound(parse_field_group_matcher(n), expr(k)) by { step_group(n, k); }
        assert forall|k: int| k <= 3 implies #[trigger] sound(parse_field_not_matcher(n), expr(k)) by { step_not(n, k); }
        step_top(n);
    }
}
/// a whole text that is read as a field matcher spells this matcher with the
/// documented precedence and grouping, for every depth of nesting
pub proof fn ob_field_expression(n: nat, t: Seq<u8>)
    ensures p_parse(parse_field_matcher(n), t) is Ok ==> spells(p_parse(parse_field_matcher(n), t)->Ok_0, t) && shaped(p_parse(parse_field_matcher(n), t)->Ok_0)
{
    lem_ih(n);
    reveal(sound);
    let p = parse_field_matcher(n);
    match p(t) { PR::Ok(x, r) => { if r.len() == 0 { assert(expr(0)(x, took(t, r))); assert(took(t, r) =~= t); } } _ => {} }
}
pub proof fn ob_field_operators(l: FieldMatcher, r: FieldMatcher)
    ensures l.x_bitor(r) == comp(l, BooleanOp::Or, r),
        level(l) >= 1 && level(r) >= 1 ==> l.x_bitxor(r) == comp(l, BooleanOp::Xor, r),
        level(l) >= 2 && level(r) >= 2 ==> l.x_bitand(r) == comp(l, BooleanOp::And, r),
{}
}
}
