// The texts of the comparisons
/// no quantifier stands for ANY
pub open spec fn quant_text(q: Quantifier, t: Seq<u8>) -> bool { t.len() == 0 && q == Quantifier::Any || padded(t, kw(q)) }
pub open spec fn tok(t: Seq<u8>, b: u8) -> bool { padded(t, seq![b]) }
pub open spec fn spaced_codes(cs: Seq<u8>, t: Seq<u8>) -> bool { exists|u: Seq<u8>| #[trigger] padded(t, u) && codes_text(cs, u) }
pub open spec fn spaced_compat(cs: Seq<u8>, t: Seq<u8>) -> bool { exists|u: Seq<u8>| #[trigger] padded(t, u) && codes_compat(cs, u) }
pub open spec fn any_codes(cs: Seq<u8>, t: Seq<u8>) -> bool { spaced_codes(cs, t) || exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && tok(a, 36u8) && spaced_compat(cs, b) }
pub open spec fn spaced_string(v: Seq<u8>, t: Seq<u8>) -> bool { exists|u: Seq<u8>| #[trigger] padded(t, u) && quoted(v, u) }
/// further values, each after a comma
pub open spec fn more(vs: Seq<Seq<u8>>, t: Seq<u8>) -> bool decreases vs.len() {
    if vs.len() == 0 { t.len() == 0 } else { exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && tok(a, 44u8) && quoted(vs[0], b) && more(vs.subrange(1, vs.len() as int), c) }
}
pub open spec fn values_text(vs: Seq<Seq<u8>>, t: Seq<u8>) -> bool { vs.len() > 0 && exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && quoted(vs[0], a) && more(vs.subrange(1, vs.len() as int), b) }
pub open spec fn maybe_comma(t: Seq<u8>) -> bool { t.len() == 0 || tok(t, 44u8) }
/// a list of values between brackets, a comma may follow the last one
pub open spec fn list_text(vs: Seq<Seq<u8>>, t: Seq<u8>) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>| #[trigger] cat3(t, a, b, c) && #[trigger] cat2(b, d, e) && tok(a, 91u8) && tok(c, 93u8) && values_text(vs, d) && maybe_comma(e)
}
pub open spec fn relation_text(x: RelationMatcher, t: Seq<u8>) -> bool {
    x.op.is_str_applicable() && exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| #[trigger] cat4(t, a, b, c, d) && quant_text(x.quantifier, a) && any_codes(x.codes, b) && padded(c, op_sym(x.op)) && spaced_string(x.value, d)
}
pub open spec fn contains_text(x: ContainsMatcher, t: Seq<u8>) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, vs: Seq<Seq<u8>>| #[trigger] cat4(t, a, b, c, d) && quant_text(x.quantifier, a) && any_codes(x.codes, b) && padded(c, seq![61u8, 63u8])
        && x.values == #[trigger] vs.to_set() && (list_text(vs, d) || vs.len() == 1 && spaced_string(vs[0], d))
}
pub open spec fn regex_sign(invert: bool) -> Seq<u8> { if invert { seq![33u8, 126u8] } else { seq![61u8, 126u8] } }
pub open spec fn regex_text(x: RegexMatcher, t: Seq<u8>) -> bool {
    regex_ok(x.regex) && exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| #[trigger] cat4(t, a, b, c, d) && quant_text(x.quantifier, a) && spaced_codes(x.codes, b) && padded(c, regex_sign(x.invert)) && quoted(x.regex, d)
}
pub open spec fn regex_set_text(x: RegexSetMatcher, t: Seq<u8>) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>| #[trigger] cat4(t, a, b, c, d) && quant_text(x.quantifier, a) && spaced_codes(x.codes, b) && padded(c, regex_sign(x.invert)) && list_text(x.regex, d)
}
pub open spec fn not_word(invert: bool, t: Seq<u8>) -> bool { if invert { padded(t, seq![110u8, 111u8, 116u8]) } else { t.len() == 0 } }
pub open spec fn characters(v: Seq<u8>) -> Seq<Seq<u8>> { v.chars().map_values(|c: char| c.to_string()) }
pub open spec fn in_values(vs: Seq<Seq<u8>>, t: Seq<u8>) -> bool { list_text(vs, t) || exists|v: Seq<u8>| #[trigger] quoted(v, t) && vs == characters(v) && vs.len() > 1 }
pub open spec fn in_text(x: InMatcher, t: Seq<u8>) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>, f: Seq<u8>| #[trigger] cat4(t, a, b, c, d) && #[trigger] cat2(d, e, f) && quant_text(x.quantifier, a) && spaced_codes(x.codes, b) && not_word(x.invert, c)
        && padded(e, seq![105u8, 110u8]) && in_values(x.values, f)
}
pub open spec fn has_text(x: ExistsMatcher, t: Seq<u8>) -> bool { exists|a: Seq<u8>| #[trigger] cat2(t, a, seq![63u8]) && codes_text(x.codes, a) }
pub open spec fn count_text(x: CardinalityMatcher, t: Seq<u8>) -> bool {
    x.op.is_usize_applicable() && exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>| #[trigger] cat2(t, a, b) && #[trigger] cat3(b, c, d, e) && tok(a, 35u8) && spaced_codes(x.codes, c) && padded(d, op_sym(x.op))
        && e.len() > 0 && digits(e) && dec_value(e) == x.value
}

pub broadcast proof fn lem_tok(b: u8)
    ensures #[trigger] tok(seq![b], b)
{ lem_padded_refl(seq![b]); }
pub proof fn lem_sfx_words()
    ensures sfx(parse_quantifier()), sfx(parse_relational_operator()), sfx(parse_string()), sfx(parse_subfield_codes()), sfx(parse_subfield_codes_compat())
{
    hide(parse_string); hide(parse_subfield_codes); hide(parse_subfield_codes_compat);
    broadcast use group_sfx;
    lem_sfx_inside(Quotes::Single); lem_sfx_codes();
    assert(sfx(parse_quantifier())); assert(sfx(parse_relational_operator()));
}
pub broadcast proof fn lem_quant(f: spec_fn(Option<Quantifier>) -> Quantifier, q: Quantifier, t: Seq<u8>)
    requires #[trigger] reads(p_map(p_opt(p_ws(parse_quantifier())), f), q, t), forall|o: Option<Quantifier>| #[trigger] f(o) == match o { Some(d) => d, None => Quantifier::Any }
    ensures quant_text(q, t)
{
    hide(parse_quantifier);
    broadcast use reads_map, reads_opt, reads_ws, sfx_opt, sfx_ws, lem_kw;
    lem_sfx_words();
}
/// a keyword that layout has to follow
pub broadcast proof fn lem_quant_space(f: spec_fn(Option<Quantifier>) -> Quantifier, q: Quantifier, t: Seq<u8>)
    requires #[trigger] reads(p_map(p_opt(p_ws(p_terminated(parse_quantifier(), p_multispace1()))), f), q, t), forall|o: Option<Quantifier>| #[trigger] f(o) == match o { Some(d) => d, None => Quantifier::Any }
    ensures quant_text(q, t)
{
    hide(parse_quantifier);
    broadcast use reads_map, reads_opt, reads_ws, reads_terminated, reads_space1, sfx_opt, sfx_ws, sfx_terminated, sfx_space1, lem_kw;
    lem_sfx_words();
    assert forall|u: Seq<u8>, a: Seq<u8>, b: Seq<u8>| padded(t, u) && #[trigger] cat2(u, a, b) && blank(b) implies padded(t, a) by {
        let e = Seq::<u8>::empty();
        assert(e + a + b =~= u);
        lem_padded(u, e, a, b);
        lem_padded_trans(t, u, a);
    }
}
pub broadcast proof fn lem_any_codes(cs: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(p_alt(p_ws(parse_subfield_codes()), p_preceded(p_ws(p_byte(36u8)), p_ws(parse_subfield_codes_compat()))), cs, t)
    ensures any_codes(cs, t)
{
    hide(parse_subfield_codes); hide(parse_subfield_codes_compat);
    broadcast use reads_alt, reads_ws, reads_preceded, reads_byte, sfx_ws, sfx_byte, lem_codes, lem_codes_compat;
    lem_sfx_words();
}
pub broadcast proof fn lem_relation(x: RelationMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_relation_matcher(), x, t)
    ensures relation_text(x, t)
{
    hide(parse_quantifier); hide(parse_relational_operator); hide(parse_string); hide(parse_subfield_codes); hide(parse_subfield_codes_compat);
    broadcast use group_sfx, group_reads, lem_quant_space, lem_any_codes, lem_op, lem_string;
    lem_sfx_words();
}
pub broadcast proof fn lem_has(x: ExistsMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_exists_matcher(), x, t)
    ensures has_text(x, t)
{
    hide(parse_subfield_codes);
    broadcast use group_sfx, group_reads, lem_codes;
    lem_sfx_words();
}
pub broadcast proof fn lem_count(x: CardinalityMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_cardinality_matcher(), x, t)
    ensures count_text(x, t)
{
    hide(parse_subfield_codes); hide(parse_relational_operator);
    broadcast use group_sfx, group_reads, lem_codes, lem_op;
    lem_sfx_words();
}
pub broadcast proof fn lem_regex(x: RegexMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_regex_matcher(), x, t)
    ensures regex_text(x, t)
{
    hide(parse_subfield_codes); hide(parse_quantifier); hide(parse_string);
    broadcast use group_sfx, group_reads, lem_codes, lem_quant, lem_string;
    lem_sfx_words();
}
pub open spec fn strings(p: Parser<Seq<u8>>) -> bool { sfx(p) && forall|v: Seq<u8>, t: Seq<u8>| #[trigger] reads(p, v, t) ==> quoted(v, t) }
pub proof fn lem_more(p: Parser<Seq<u8>>, vs: Seq<Seq<u8>>, t: Seq<u8>)
    requires row(p_preceded(p_ws(p_byte(44u8)), p), vs, t), strings(p)
    ensures more(vs, t)
    decreases vs.len()
{
    if vs.len() > 0 {
        broadcast use sfx_ws, sfx_byte, reads_ws, reads_byte;
        let q = p_ws(p_byte(44u8));
        let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p_preceded(q, p), vs[0], a) && row(p_preceded(q, p), vs.subrange(1, vs.len() as int), b);
        lem_more(p, vs.subrange(1, vs.len() as int), b);
        reads_preceded(q, p, vs[0], a);
        let (x, c, d) = choose|x: u8, c: Seq<u8>, d: Seq<u8>| #[trigger] cat2(a, c, d) && #[trigger] reads(q, x, c) && reads(p, vs[0], d);
        assert(cat2(a, c, d) && reads(q, x, c) && reads(p, vs[0], d));
        assert(cat3(t, c, d, b));
        assert(tok(c, 44u8));
    }
}
pub broadcast proof fn lem_values(p: Parser<Seq<u8>>, vs: Seq<Seq<u8>>, t: Seq<u8>)
    requires #[trigger] reads(p_separated(1, None, p, p_ws(p_byte(44u8))), vs, t), strings(p)
    ensures values_text(vs, t)
{
    broadcast use sfx_ws, sfx_byte;
    let q = p_ws(p_byte(44u8));
    reads_separated(1, None, p, q, vs, t);
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, vs[0], a) && row(p_preceded(q, p), vs.subrange(1, vs.len() as int), b);
    lem_more(p, vs.subrange(1, vs.len() as int), b);
}
pub broadcast proof fn lem_list(p: Parser<Seq<u8>>, vs: Seq<Seq<u8>>, t: Seq<u8>)
    requires #[trigger] reads(p_delimited(p_ws(p_byte(91u8)), p_terminated(p_separated(1, None, p, p_ws(p_byte(44u8))), p_opt(p_ws(p_byte(44u8)))), p_ws(p_byte(93u8))), vs, t), strings(p)
    ensures list_text(vs, t)
{
    broadcast use sfx_ws, sfx_byte, sfx_opt, sfx_separated, sfx_terminated, sfx_delimited, reads_ws, reads_byte, reads_opt, reads_terminated, reads_delimited, lem_values;
}
pub broadcast proof fn lem_set_list(p: Parser<Seq<u8>>, g: spec_fn(Seq<Seq<u8>>) -> Set<Seq<u8>>, s: Set<Seq<u8>>, t: Seq<u8>)
    requires #[trigger] reads(p_delimited(p_ws(p_byte(91u8)), p_terminated(p_map(p_separated(1, None, p, p_ws(p_byte(44u8))), g), p_opt(p_ws(p_byte(44u8)))), p_ws(p_byte(93u8))), s, t), strings(p),
        forall|vs: Seq<Seq<u8>>| #[trigger] g(vs) == vs.to_set()
    ensures exists|vs: Seq<Seq<u8>>| s == #[trigger] vs.to_set() && list_text(vs, t)
{
    broadcast use sfx_ws, sfx_byte, sfx_opt, sfx_separated, sfx_map, sfx_terminated, sfx_delimited, reads_ws, reads_byte, reads_opt, reads_map, reads_terminated, reads_delimited, lem_values;
}
pub proof fn lem_strings()
    ensures strings(parse_string())
{ hide(parse_string); broadcast use lem_string; lem_sfx_words(); }
pub broadcast proof fn lem_strings_map(f: spec_fn(Seq<u8>) -> Option<Seq<u8>>)
    requires forall|s: Seq<u8>| (#[trigger] f(s)) is Some ==> f(s)->0 == s
    ensures #[trigger] strings(p_verify_map(parse_string(), f))
{ hide(parse_string); broadcast use lem_string, sfx_verify_map, reads_verify_map; lem_sfx_words(); }
pub broadcast proof fn lem_contains(x: ContainsMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_contains_matcher(), x, t)
    ensures contains_text(x, t)
{
    hide(parse_quantifier); hide(parse_string); hide(parse_subfield_codes); hide(parse_subfield_codes_compat);
    broadcast use group_sfx, reads_map, reads_with_taken, reads_alt, reads_tup4, reads_ws, reads_lit, lem_quant, lem_any_codes, lem_set_list, lem_string;
    lem_sfx_words(); lem_strings();
}
pub broadcast proof fn lem_regex_set(x: RegexSetMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_regex_set_matcher(), x, t)
    ensures regex_set_text(x, t)
{
    hide(parse_quantifier); hide(parse_string); hide(parse_subfield_codes);
    broadcast use group_sfx, reads_map, reads_with_taken, reads_alt, reads_value, reads_tup4, reads_ws, reads_lit, lem_quant, lem_codes, lem_list, lem_strings_map;
    lem_sfx_words();
}
pub broadcast proof fn lem_in(x: InMatcher, t: Seq<u8>)
    requires #[trigger] reads(parse_in_matcher(), x, t)
    ensures in_text(x, t)
{
    hide(parse_quantifier); hide(parse_string); hide(parse_subfield_codes);
    broadcast use group_sfx, reads_map, reads_with_taken, reads_alt, reads_opt, reads_tup4, reads_preceded, reads_verify_map, reads_ws, reads_lit, lem_quant, lem_codes, lem_list, lem_string;
    lem_sfx_words(); lem_strings();
}
