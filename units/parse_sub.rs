//@include prelude.rs
//@include parser.rs
//@include parse_sound.rs
//@include parse_reads.rs
//@newtype TagRef = Seq<u8>
//@newtype Tag = Seq<u8>
//@newtype OccurrenceRef = Seq<u8>
//@newtype Occurrence = Seq<u8>
//@newtype SubfieldCode = u8
//@tymap char = u8
//@tymap Stream::Slice = Seq<u8>
//@ret String::from_utf8 = Result<Seq<u8>, XErr>
//@ret std::str::from_utf8 = Result<Seq<u8>, XErr>
//@ret HashSet::from_iter = Set<Seq<u8>>
//@path String::from_utf8 = bytes_str
//@path std::str::from_utf8 = bytes_str
verus! {
broadcast use group_x;
//@type src/matcher/quantifier.rs Quantifier
//@type src/matcher/operator.rs RelationalOp
impl RelationalOp {
//@fn src/matcher/operator.rs RelationalOp::is_usize_applicable => is_usize_applicable
//@fn src/matcher/operator.rs RelationalOp::is_str_applicable => is_str_applicable
}
/// text of a byte sequence, if it is UTF-8
pub uninterp spec fn utf8_ok(s: Seq<u8>) -> bool;
pub open spec fn bytes_str(s: Seq<u8>) -> Result<Seq<u8>, XErr> { if utf8_ok(s) { Ok(s) } else { Err(x_err()) } }
pub trait XText { spec fn to_str(self) -> Result<Seq<u8>, XErr>; spec fn chars(self) -> Seq<char>; spec fn trim_end(self) -> Seq<u8>; }
impl XText for Seq<u8> {
    uninterp spec fn trim_end(self) -> Seq<u8>;
    open spec fn to_str(self) -> Result<Seq<u8>, XErr> { bytes_str(self) }
    uninterp spec fn chars(self) -> Seq<char>;
}
pub trait XCharStr { spec fn to_string(self) -> Seq<u8>; }
impl XCharStr for char { open spec fn to_string(self) -> Seq<u8> { char_utf8(self) } }
impl XCharStr for Seq<u8> { open spec fn to_string(self) -> Seq<u8> { self } }
//@type src/matcher/operator.rs BooleanOp
}
//@include tagocc_m.rs
//@include tagparse.rs
pub mod subfield {
use super::*;
verus! {
broadcast use group_x;
//@type src/matcher/subfield/mod.rs ExistsMatcher
//@type src/matcher/subfield/mod.rs RelationMatcher
//@type src/matcher/subfield/mod.rs ContainsMatcher
//@type src/matcher/subfield/mod.rs RegexMatcher
//@type src/matcher/subfield/mod.rs RegexSetMatcher
//@type src/matcher/subfield/mod.rs InMatcher
//@type src/matcher/subfield/mod.rs CardinalityMatcher
//@type src/matcher/subfield/mod.rs SingletonMatcher
//@type src/matcher/subfield/mod.rs SubfieldMatcher
}
}
//@noop group_level_inc group_level_dec group_level_reset
//@fuel src/matcher/subfield/parser.rs parse_subfield_group_matcher parse_subfield_not_matcher parse_subfield_or_matcher parse_subfield_xor_matcher parse_subfield_and_matcher parse_subfield_composite_matcher parse_subfield_matcher
pub mod sub_p {
use super::*;
use super::subfield::*;
verus! {
broadcast use group_x;
impl SubfieldMatcher {
//@fn src/matcher/subfield/mod.rs BitAnd for SubfieldMatcher::bitand => code_bitand
//@fn src/matcher/subfield/mod.rs BitOr for SubfieldMatcher::bitor => code_bitor
//@fn src/matcher/subfield/mod.rs BitXor for SubfieldMatcher::bitxor => code_bitxor
    pub open spec fn x_bitand(self, r: SubfieldMatcher) -> SubfieldMatcher { self.code_bitand(r) }
    pub open spec fn x_bitor(self, r: SubfieldMatcher) -> SubfieldMatcher { self.code_bitor(r) }
    pub open spec fn x_bitxor(self, r: SubfieldMatcher) -> SubfieldMatcher { self.code_bitxor(r) }
}
/// decimal numbers
pub open spec fn dec_value(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { 10 * dec_value(s.drop_last()) + (s.last() - 48) }
}
pub trait XParseNum { spec fn parse(self) -> Result<int, XErr>; }
impl XParseNum for Seq<u8> {
    open spec fn parse(self) -> Result<int, XErr> { if dec_value(self) < 0x1_0000_0000_0000_0000 { Ok(dec_value(self)) } else { Err(x_err()) } }
}
pub trait XCode { spec fn as_byte(self) -> int; }
impl XCode for u8 { open spec fn as_byte(self) -> int { self as int } }
pub struct SmallVec { pub x: int }
impl SmallVec { pub open spec fn from_vec(s: Seq<u8>) -> Seq<u8> { s } }
pub struct HashSet { pub x: int }
impl HashSet { pub open spec fn from_iter(s: Seq<Seq<u8>>) -> Set<Seq<u8>> { s.to_set() } }
pub struct Regex { pub re: Seq<u8> }
pub uninterp spec fn regex_ok(s: Seq<u8>) -> bool;
impl Regex { pub open spec fn new(s: Seq<u8>) -> Result<Regex, XErr> { if regex_ok(s) { Ok(Regex { re: s }) } else { Err(x_err()) } } }
/// the counter of the nesting depth: any set of positions may be refused
pub open spec fn group_level_dec() -> () { () }
pub uninterp spec fn level_free(i: Seq<u8>) -> bool;
pub open spec fn group_level_inc() -> Parser<()> { |i: Seq<u8>| if level_free(i) { PR::Ok((), i) } else { PR::Err } }
//@fn src/matcher/operator.rs parse_relational_operator => parse_relational_operator parser
//@fn src/matcher/quantifier.rs parse_quantifier => parse_quantifier parser
//@fn src/primitives/parse.rs parse_subfield_code => parse_subfield_code parser
//@fn src/parser.rs parse_subfield_code_range => parse_subfield_code_range parser
//@fn src/parser.rs parse_subfield_code_list => parse_subfield_code_list parser
//@fn src/parser.rs parse_subfield_code_all => parse_subfield_code_all parser
//@fn src/parser.rs parse_subfield_codes => parse_subfield_codes parser
//@fn src/parser.rs parse_subfield_code_list_compat => parse_subfield_code_list_compat parser
//@fn src/parser.rs parse_subfield_codes_compat => parse_subfield_codes_compat parser
//@type src/parser.rs Quotes
//@type src/parser.rs StringFragment
//@fn src/parser.rs parse_literal => parse_literal parser
//@fn src/parser.rs parse_escaped_char => parse_escaped_char parser
//@fn src/parser.rs parse_quoted_fragment => parse_quoted_fragment parser
//@fn src/parser.rs parse_quoted_string => parse_quoted_string parser
//@fn src/parser.rs parse_string_single_quoted => parse_string_single_quoted parser
//@fn src/parser.rs parse_string_double_quoted => parse_string_double_quoted parser
//@fn src/parser.rs parse_string => parse_string parser
//@fn src/matcher/subfield/parser.rs parse_exists_matcher => parse_exists_matcher parser
//@fn src/matcher/subfield/parser.rs parse_relation_matcher => parse_relation_matcher parser
//@fn src/matcher/subfield/parser.rs parse_contains_matcher => parse_contains_matcher parser
//@fn src/matcher/subfield/parser.rs parse_regex_matcher => parse_regex_matcher parser
//@fn src/matcher/subfield/parser.rs parse_regex_set_matcher => parse_regex_set_matcher parser
//@fn src/matcher/subfield/parser.rs parse_in_matcher => parse_in_matcher parser
//@fn src/matcher/subfield/parser.rs parse_cardinality_matcher => parse_cardinality_matcher parser
//@fn src/matcher/subfield/parser.rs parse_singleton_matcher => parse_singleton_matcher parser
//@fn src/matcher/subfield/parser.rs parse_subfield_singleton_matcher => parse_subfield_singleton_matcher parser
//@fn src/matcher/subfield/parser.rs parse_subfield_group_matcher => parse_subfield_group_matcher parser
//@fn src/matcher/subfield/parser.rs parse_subfield_exists_matcher => parse_subfield_exists_matcher parser
//@fn src/matcher/subfield/parser.rs parse_subfield_not_matcher => parse_subfield_not_matcher parser
//@fn src/matcher/subfield/parser.rs parse_subfield_or_matcher => parse_subfield_or_matcher parser
//@fn src/matcher/subfield/parser.rs parse_subfield_xor_matcher => parse_subfield_xor_matcher parser
//@fn src/matcher/subfield/parser.rs parse_subfield_and_matcher => parse_subfield_and_matcher parser
//@fn src/matcher/subfield/parser.rs parse_subfield_composite_matcher => parse_subfield_composite_matcher parser
//@fn src/matcher/subfield/parser.rs parse_subfield_matcher => parse_subfield_matcher parser
pub type M = SubfieldMatcher;
pub open spec fn op_level(op: BooleanOp) -> int { match op { BooleanOp::Or => 0, BooleanOp::Xor => 1, BooleanOp::And => 2 } }
pub open spec fn op_text(op: BooleanOp, o: Seq<u8>) -> bool {
    match op { BooleanOp::Or => o == seq![124u8, 124u8], BooleanOp::Xor => o == seq![94u8] || o == seq![88u8, 79u8, 82u8], BooleanOp::And => o == seq![38u8, 38u8] }
}
/// the text of a comparison (parse_cmp.rs)
pub open spec fn leaf(m: SubfieldMatcher, t: Seq<u8>) -> bool {
    match m {
        SubfieldMatcher::Singleton(s) => match s {
            SingletonMatcher::Relation(x) => relation_text(x, t),
            SingletonMatcher::Contains(x) => contains_text(x, t),
            SingletonMatcher::In(x) => in_text(x, t),
            SingletonMatcher::Exists(x) => has_text(x, t),
            SingletonMatcher::Cardinality(x) => count_text(x, t),
            SingletonMatcher::RegexSet(x) => regex_set_text(x, t),
            SingletonMatcher::Regex(x) => regex_text(x, t),
        },
        _ => false,
    }
}
//@include gram.rs
pub proof fn lem_sfx_leaves()
    ensures sfx(parse_relation_matcher()), sfx(parse_contains_matcher()), sfx(parse_in_matcher()), sfx(parse_exists_matcher()), sfx(parse_cardinality_matcher()), sfx(parse_regex_set_matcher()), sfx(parse_regex_matcher())
{
    broadcast use group_sfx;
    assert(sfx(parse_quantifier()));
    assert(sfx(parse_relational_operator()));
    assert(sfx(parse_subfield_code()));
    assert(sfx(parse_subfield_code_range()));
    assert(sfx(parse_subfield_code_list()));
    assert(sfx(parse_subfield_code_all()));
    assert(sfx(parse_subfield_codes()));
    assert(sfx(parse_subfield_codes_compat()));
    assert(sfx(parse_literal(Quotes::Single)));
    assert(sfx(parse_literal(Quotes::Double)));
    assert(sfx(parse_escaped_char(Quotes::Single)));
    assert(sfx(parse_escaped_char(Quotes::Double)));
    assert(sfx(parse_quoted_fragment(Quotes::Single)));
    assert(sfx(parse_quoted_fragment(Quotes::Double)));
    assert(sfx(parse_quoted_string(Quotes::Single)));
    assert(sfx(parse_quoted_string(Quotes::Double)));
    assert(sfx(parse_string()));
}
/// the text of a comparison
pub open spec fn single() -> spec_fn(SingletonMatcher, Seq<u8>) -> bool { |x: SingletonMatcher, t: Seq<u8>| leaf(SubfieldMatcher::Singleton(x), t) }
pub broadcast proof fn sound_single<A>(p: Parser<A>, f: spec_fn(A) -> SingletonMatcher)
    requires sfx(p), forall|x: A, t: Seq<u8>| #[trigger] reads(p, x, t) ==> single()(f(x), t)
    ensures #[trigger] sound(p_map(p, f), single())
{
    reveal(sfx); reveal(sound); reveal(reads);
    let q = p_map(p, f);
    assert forall|i: Seq<u8>| match #[trigger] q(i) { PR::Ok(x, r) => suff(i, r) && single()(x, took(i, r)), _ => true } by {
        match p(i) { PR::Ok(x, r) => { assert(reads(p, x, took(i, r))); } _ => {} }
    }
}
pub broadcast proof fn leaves_single(p: Parser<SingletonMatcher>, f: spec_fn(SingletonMatcher) -> M)
    requires sound(p, single()), forall|x: SingletonMatcher| #[trigger] f(x) == SubfieldMatcher::Singleton(x)
    ensures #[trigger] leaves(p_map(p, f))
{
    reveal(sound); reveal(leaves);
    let q = p_map(p, f);
    assert forall|i: Seq<u8>| match #[trigger] q(i) { PR::Ok(x, r) => suff(i, r) && leaf(x, took(i, r)) && is_leaf(x), _ => true } by {
        match p(i) { PR::Ok(x, r) => { assert(single()(x, took(i, r))); } _ => {} }
    }
}
/// what the induction on the depth shows
pub open spec fn ih(n: nat) -> bool {
    &&& forall|k: int| k <= 0 ==> #[trigger] sound(parse_subfield_or_matcher(n), expr(k))
    &&& forall|k: int| k <= 1 ==> #[trigger] sound(parse_subfield_xor_matcher(n), expr(k))
    &&& forall|k: int| k <= 2 ==> #[trigger] sound(parse_subfield_and_matcher(n), expr(k))
    &&& forall|k: int| k <= 3 ==> #[trigger] sound(parse_subfield_group_matcher(n), expr(k))
    &&& forall|k: int| k <= 3 ==> #[trigger] sound(parse_subfield_not_matcher(n), expr(k))
    &&& sound(parse_subfield_composite_matcher(n), expr(0))
    &&& sound(parse_subfield_matcher(n), expr(0))
}
pub proof fn lem_leaves()
    ensures leaves(parse_subfield_singleton_matcher()), leaves(parse_subfield_exists_matcher())
{
    hide(parse_relation_matcher); hide(parse_contains_matcher); hide(parse_in_matcher); hide(parse_exists_matcher); hide(parse_cardinality_matcher); hide(parse_regex_set_matcher); hide(parse_regex_matcher);
    lem_sfx_leaves();
    broadcast use sound_single, leaves_single, sound_alt, lem_relation, lem_contains, lem_in, lem_has, lem_count, lem_regex_set, lem_regex;
}
pub broadcast proof fn still_level() ensures #[trigger] still(group_level_inc()) { reveal(still); }
/// the parsers of depth `m`, at each level
pub proof fn lem_at(m: nat)
    requires ih(m)
    ensures
        sound(parse_subfield_or_matcher(m), expr(0)),
        sound(parse_subfield_xor_matcher(m), expr(0)), sound(parse_subfield_xor_matcher(m), expr(1)),
        sound(parse_subfield_and_matcher(m), expr(0)), sound(parse_subfield_and_matcher(m), expr(1)), sound(parse_subfield_and_matcher(m), expr(2)),
        sound(parse_subfield_group_matcher(m), expr(0)), sound(parse_subfield_group_matcher(m), expr(1)), sound(parse_subfield_group_matcher(m), expr(2)), sound(parse_subfield_group_matcher(m), expr(3)),
        sound(parse_subfield_not_matcher(m), expr(0)), sound(parse_subfield_not_matcher(m), expr(1)), sound(parse_subfield_not_matcher(m), expr(2)), sound(parse_subfield_not_matcher(m), expr(3)),
        sound(parse_subfield_composite_matcher(m), expr(0)),
        sound(parse_subfield_singleton_matcher(), expr(0)), sound(parse_subfield_singleton_matcher(), expr(1)), sound(parse_subfield_singleton_matcher(), expr(2)), sound(parse_subfield_singleton_matcher(), expr(3)),
        sound(parse_subfield_exists_matcher(), expr(0)), sound(parse_subfield_exists_matcher(), expr(1)), sound(parse_subfield_exists_matcher(), expr(2)), sound(parse_subfield_exists_matcher(), expr(3)),
{
    broadcast use sound_leaves;
    lem_leaves();
}
pub proof fn step_group(n: nat, k: int)
    requires n > 0, ih((n - 1) as nat), k <= 3
    ensures sound(parse_subfield_group_matcher(n), expr(k))
{ broadcast use group_gram; broadcast use still_level; lem_at((n - 1) as nat); }
pub proof fn step_not(n: nat, k: int)
    requires n > 0, ih((n - 1) as nat), k <= 3
    ensures sound(parse_subfield_not_matcher(n), expr(k))
{ broadcast use group_gram; broadcast use still_level; lem_at((n - 1) as nat); }
pub proof fn step_and(n: nat, k: int)
    requires n > 0, ih((n - 1) as nat), k <= 2
    ensures sound(parse_subfield_and_matcher(n), expr(k))
{ broadcast use group_gram; broadcast use still_level; lem_at((n - 1) as nat); }
pub proof fn step_xor(n: nat, k: int)
    requires n > 0, ih((n - 1) as nat), k <= 1
    ensures sound(parse_subfield_xor_matcher(n), expr(k))
{ broadcast use group_gram; broadcast use still_level; lem_at((n - 1) as nat); }
pub proof fn step_or(n: nat, k: int)
    requires n > 0, ih((n - 1) as nat), k <= 0
    ensures sound(parse_subfield_or_matcher(n), expr(k))
{ broadcast use group_gram; broadcast use still_level; lem_at((n - 1) as nat); }
pub proof fn step_top(n: nat)
    requires n > 0, ih((n - 1) as nat)
    ensures sound(parse_subfield_composite_matcher(n), expr(0)), sound(parse_subfield_matcher(n), expr(0))
{ broadcast use group_gram; broadcast use still_level; lem_at((n - 1) as nat); }
pub proof fn lem_ih(n: nat)
    ensures ih(n)
    decreases n
{
    broadcast use sound_cut;
    if n > 0 {
        lem_ih((n - 1) as nat);
        assert forall|k: int| k <= 0 implies #[trigger] sound(parse_subfield_or_matcher(n), expr(k)) by { step_or(n, k); }
        assert forall|k: int| k <= 1 implies #[trigger] sound(parse_subfield_xor_matcher(n), expr(k)) by { step_xor(n, k); }
        assert forall|k: int| k <= 2 implies #[trigger] sound(parse_subfield_and_matcher(n), expr(k)) by { step_and(n, k); }
        assert forall|k: int| k <= 3 implies #[trigger] sound(parse_subfield_group_matcher(n), expr(k)) by { step_group(n, k); }
        assert forall|k: int| k <= 3 implies #[trigger] sound(parse_subfield_not_matcher(n), expr(k)) by { step_not(n, k); }
        step_top(n);
    }
}
/// a whole text that is read as a matcher spells this matcher with the
/// documented precedence and grouping, for every depth of nesting
pub proof fn ob_subfield_expression(n: nat, t: Seq<u8>)
    ensures p_parse(parse_subfield_matcher(n), t) is Ok ==> spells(p_parse(parse_subfield_matcher(n), t)->Ok_0, t) && shaped(p_parse(parse_subfield_matcher(n), t)->Ok_0)
{
    lem_ih(n);
    reveal(sound);
    let p = parse_subfield_matcher(n);
    match p(t) { PR::Ok(x, r) => { if r.len() == 0 { assert(expr(0)(x, took(t, r))); assert(took(t, r) =~= t); } } _ => {} }
}
// ------------------------------------------------------------- comparisons
/// how an operator is written
pub open spec fn op_sym(o: RelationalOp) -> Seq<u8> {
    match o {
        RelationalOp::Eq => seq![61u8, 61u8], RelationalOp::Ne => seq![33u8, 61u8],
        RelationalOp::StartsWith => seq![61u8, 94u8], RelationalOp::StartsNotWith => seq![33u8, 94u8],
        RelationalOp::EndsWith => seq![61u8, 36u8], RelationalOp::EndsNotWith => seq![33u8, 36u8],
        RelationalOp::Similar => seq![61u8, 42u8],
        RelationalOp::Ge => seq![62u8, 61u8], RelationalOp::Gt => seq![62u8],
        RelationalOp::Le => seq![60u8, 61u8], RelationalOp::Lt => seq![60u8],
    }
}
pub open spec fn kw(q: Quantifier) -> Seq<u8> { match q { Quantifier::All => seq![65u8, 76u8, 76u8], Quantifier::Any => seq![65u8, 78u8, 89u8] } }
//@include parse_str.rs
//@include parse_codes.rs
/// every operator is written in one way only
pub proof fn ob_operators(o: RelationalOp, t: Seq<u8>)
    ensures p_parse(parse_relational_operator(), t) == Ok::<RelationalOp, XErr>(o) ==> t == op_sym(o)
{
    broadcast use group_sfx;
    assert(sfx(parse_relational_operator()));
    lem_parse_reads(parse_relational_operator(), t);
    if p_parse(parse_relational_operator(), t) is Ok { lem_op(p_parse(parse_relational_operator(), t)->Ok_0, t); }
}
pub broadcast proof fn lem_op(o: RelationalOp, t: Seq<u8>)
    requires #[trigger] reads(parse_relational_operator(), o, t)
    ensures t == op_sym(o)
{ broadcast use group_sfx, group_reads; }
pub broadcast proof fn lem_kw(q: Quantifier, t: Seq<u8>)
    requires #[trigger] reads(parse_quantifier(), q, t)
    ensures t == kw(q)
{ broadcast use group_sfx, group_reads; }
//@include parse_cmp.rs
/// composing with an operator never regroups the operands of the parser
pub proof fn ob_subfield_operators(l: SubfieldMatcher, r: SubfieldMatcher)
    ensures l.x_bitor(r) == comp(l, BooleanOp::Or, r),
        level(l) >= 1 && level(r) >= 1 ==> l.x_bitxor(r) == comp(l, BooleanOp::Xor, r),
        level(l) >= 2 && level(r) >= 2 ==> l.x_bitand(r) == comp(l, BooleanOp::And, r),
{}
}
}

