//@tymap RangeTo<usize> = XRangeTo
//@tymap RangeTo = XRangeTo
//@mut lowercase self
//@mut uppercase self
//@mut remove_ws self
//@mut strip_overread_char self
//@mut trim self
//@fuel src/fmt/parser.rs parse_group parse_list parse_list_cons parse_list_and_then parse_fragments parse_format
pub mod fmt_p {
use super::*;
use super::subfield::SubfieldMatcher;
use super::sub_p::{parse_subfield_matcher, parse_subfield_codes, parse_string, codes_text, quoted, spaced_string, tok, XParseNum, dec_value, spells, shaped};
verus! {
broadcast use group_x;
pub struct XRangeTo { pub end: int }
//@type src/fmt/mod.rs Format
//@type src/fmt/mod.rs Fragments
//@type src/fmt/mod.rs Group
//@type src/fmt/mod.rs Value
//@type src/fmt/mod.rs List
//@type src/fmt/mod.rs Modifier
impl Modifier {
//@fn src/fmt/mod.rs Modifier::strip_overread_char => strip_overread_char
//@fn src/fmt/mod.rs Modifier::lowercase => lowercase
//@fn src/fmt/mod.rs Modifier::uppercase => uppercase
//@fn src/fmt/mod.rs Modifier::remove_ws => remove_ws
//@fn src/fmt/mod.rs Modifier::trim => trim
}
pub open spec fn group_level_dec() -> () { () }
pub uninterp spec fn level_free(i: Seq<u8>) -> bool;
pub open spec fn group_level_inc() -> Parser<()> { |i: Seq<u8>| if level_free(i) { PR::Ok((), i) } else { PR::Err } }
//@fn src/fmt/parser.rs parse_modifier => parse_modifier parser
//@fn src/fmt/parser.rs parse_value => parse_value parser
//@fn src/fmt/parser.rs parse_group => parse_group parser
//@fn src/fmt/parser.rs parse_list_and_then => parse_list_and_then parser
//@fn src/fmt/parser.rs parse_list_cons => parse_list_cons parser
//@fn src/fmt/parser.rs parse_list => parse_list parser
//@fn src/fmt/parser.rs parse_fragments => parse_fragments parser
//@fn src/fmt/parser.rs parse_format => parse_format parser
// ------------------------------------------------------ what a text stands for
pub open spec fn flag(c: u8) -> bool { c == 108 || c == 117 || c == 116 || c == 119 || c == 111 }
pub open spec fn flags_text(m: Modifier, w: Seq<u8>) -> bool {
    &&& w.len() > 0 && forall|k: int| 0 <= k < w.len() ==> flag(#[trigger] w[k])
    &&& m.lowercase == w.contains(108u8) && m.uppercase == w.contains(117u8) && m.trim == w.contains(116u8) && m.remove_ws == w.contains(119u8) && m.strip_overread_char == w.contains(111u8)
}
pub open spec fn plain() -> Modifier { Modifier { lowercase: false, uppercase: false, remove_ws: false, trim: false, strip_overread_char: false } }
/// `?` and flags; nothing leaves the value as it is
pub open spec fn modifier_text(m: Modifier, t: Seq<u8>) -> bool {
    t.len() == 0 && m == plain() || exists|w: Seq<u8>| #[trigger] cat2(t, seq![63u8], w) && flags_text(m, w)
}
pub open spec fn spaced_modifier(m: Modifier, t: Seq<u8>) -> bool { exists|u: Seq<u8>| #[trigger] padded(t, u) && modifier_text(m, u) }
pub open spec fn dots() -> Seq<u8> { seq![46u8, 46u8] }
/// `..3`: at most three; `..`: all of them
pub open spec fn bound_text(end: int, none: int, t: Seq<u8>) -> bool {
    t.len() == 0 && end == none || t == dots() && end == 0xFFFF_FFFF_FFFF_FFFF
        || exists|d: Seq<u8>| #[trigger] cat2(t, dots(), d) && d.len() > 0 && digits(d) && dec_value(d) == end && end <= 0xFFFF_FFFF_FFFF_FFFF
}
pub open spec fn affix_text(s: Option<Seq<u8>>, t: Seq<u8>) -> bool {
    match s { None => t.len() == 0, Some(x) => spaced_string(x, t) }
}
/// modifier, prefix, codes, bound, suffix
pub open spec fn value_text(v: Value, t: Seq<u8>) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>| #[trigger] cat5(t, a, b, c, d, e) && spaced_modifier(v.modifier, a) && affix_text(v.prefix, b) && codes_text(v.codes, c) && bound_text(v.bounds.end, 1, d) && affix_text(v.suffix, e)
}
pub open spec fn and_sign() -> Seq<u8> { seq![60u8, 36u8, 62u8] }
pub open spec fn cons_sign() -> Seq<u8> { seq![60u8, 42u8, 62u8] }
/// the parts of `… <$> …` are values and groups, those of `… <*> …` may also
/// be lists of the first kind, and a group holds a list or a value
pub open spec fn and_part(f: Fragments) -> bool { !(f is List) }
pub open spec fn cons_part(f: Fragments) -> bool { match f { Fragments::List(l) => l is AndThen, _ => true } }
pub open spec fn frag_text(f: Fragments, t: Seq<u8>) -> bool decreases f {
    match f {
        Fragments::Value(v) => value_text(v, t),
        Fragments::Group(g) => !(*g.fragments is Group) && exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>, u: Seq<u8>| #[trigger] cat5(t, a, b, c, d, e) && #[trigger] padded(c, u)
            && tok(a, 40u8) && modifier_text(g.modifier, b) && frag_text(*g.fragments, u) && tok(d, 41u8) && bound_text(g.bounds.end, 0xFFFF_FFFF_FFFF_FFFF, e),
        Fragments::List(List::AndThen(xs)) => xs.len() >= 2 && (forall|i: int| 0 <= i < xs.len() ==> and_part(#[trigger] xs[i])) && parts_text(xs, and_sign(), t),
        Fragments::List(List::Cons(xs)) => xs.len() >= 2 && (forall|i: int| 0 <= i < xs.len() ==> cons_part(#[trigger] xs[i])) && parts_text(xs, cons_sign(), t),
    }
}
pub open spec fn parts_text(xs: Seq<Fragments>, sign: Seq<u8>, t: Seq<u8>) -> bool decreases xs {
    xs.len() > 0 && if xs.len() == 1 { frag_text(xs[0], t) } else { exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && frag_text(xs[0], a) && padded(b, sign) && parts_text(xs.subrange(1, xs.len() as int), sign, c) }
}
pub open spec fn spaced_frag(f: Fragments, t: Seq<u8>) -> bool { exists|u: Seq<u8>| #[trigger] padded(t, u) && frag_text(f, u) }
pub open spec fn condition_text(m: Option<SubfieldMatcher>, t: Seq<u8>) -> bool {
    match m { None => t.len() == 0, Some(x) => exists|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && tok(a, 124u8) && spells(x, b) && shaped(x) }
}
pub open spec fn body_text(f: Fragments, m: Option<SubfieldMatcher>, t: Seq<u8>) -> bool {
    exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>| #[trigger] cat3(t, a, b, c) && #[trigger] cat2(b, d, e) && tok(a, 123u8) && tok(c, 125u8) && spaced_frag(f, d) && condition_text(m, e)
}
/// the text of a format: tag, occurrence and what is printed of the fields
pub open spec fn format_text(p: Format, t: Seq<u8>) -> bool {
    &&& utf8_ok(t) ==> p.raw_format == t.x_trim()
    &&& exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && tag_matcher_text(p.tag_matcher, a) && occ_matcher_text(p.occurrence_matcher, b) && body_text(p.fragments, p.subfield_matcher, c)
}
/// the shape the printing of formats relies on (C11)
pub open spec fn wf(f: Fragments) -> bool decreases f {
    match f {
        Fragments::Value(_) => true,
        Fragments::List(List::AndThen(l)) => forall|i: int| 0 <= i < l.len() ==> wf(#[trigger] l[i]),
        Fragments::List(List::Cons(l)) => forall|i: int| 0 <= i < l.len() ==> wf(#[trigger] l[i]),
        Fragments::Group(g) => !(*g.fragments is Group) && wf(*g.fragments),
    }
}
// -------------------------------------------------------------------- proofs
pub proof fn lem_sfx_modifier()
    ensures sfx(parse_modifier())
{ broadcast use sfx_opt, sfx_preceded, sfx_byte, sfx_map, sfx_repeat, sfx_alt; }
pub proof fn lem_sfx_strings()
    ensures sfx(parse_string()), sfx(parse_subfield_codes())
{ hide(parse_string); hide(parse_subfield_codes); super::sub_p::lem_sfx_codes(); super::sub_p::lem_sfx_inside(super::sub_p::Quotes::Single); }
pub proof fn lem_sfx_value()
    ensures sfx(parse_value())
{
    hide(parse_string); hide(parse_subfield_codes); hide(parse_modifier);
    broadcast use sfx_map, sfx_tup5, sfx_opt, sfx_ws, sfx_bound;
    lem_sfx_modifier(); lem_sfx_strings();
}
pub proof fn lem_sfx_occ()
    ensures sfx(parse_occurrence_matcher())
{ broadcast use group_sfx; }
pub proof fn lem_sfx_small()
    ensures sfx(parse_modifier()), sfx(parse_value()), sfx(parse_string()), sfx(parse_subfield_codes()), sfx(parse_tag_matcher()), sfx(parse_occurrence_matcher()), sfx(group_level_inc())
{
    hide(parse_string); hide(parse_subfield_codes); hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_value); hide(parse_modifier); hide(group_level_inc);
    lem_sfx_tag(); lem_sfx_strings(); lem_sfx_occ(); lem_sfx_modifier(); lem_sfx_value(); lem_level();
}
pub proof fn lem_level()
    ensures sfx(group_level_inc())
{ reveal(sfx); assert forall|i: Seq<u8>| match #[trigger] group_level_inc()(i) { PR::Ok(x, r) => suff(i, r), _ => true } by { lem_suff_refl(i); } }
pub open spec fn bytes(p: Parser<u8>) -> bool { forall|x: u8, a: Seq<u8>| #[trigger] reads(p, x, a) ==> a == seq![x] && flag(x) }
pub proof fn lem_bytes(p: Parser<u8>, xs: Seq<u8>, t: Seq<u8>)
    requires row(p, xs, t), bytes(p)
    ensures xs == t, forall|k: int| 0 <= k < t.len() ==> flag(#[trigger] t[k])
    decreases xs.len()
{
    if xs.len() == 0 { assert(xs =~= t); } else {
        let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, xs[0], a) && row(p, xs.subrange(1, xs.len() as int), b);
        lem_bytes(p, xs.subrange(1, xs.len() as int), b);
        assert(xs =~= seq![xs[0]] + xs.subrange(1, xs.len() as int));
        assert forall|k: int| 0 <= k < t.len() implies flag(#[trigger] t[k]) by { if k > 0 { assert(t[k] == b[k - 1]); } else { assert(t[0] == a[0]); } }
    }
}
pub broadcast proof fn lem_flags(p: Parser<u8>, xs: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(p_repeat(1, None, p), xs, t), sfx(p), bytes(p)
    ensures xs == t, t.len() > 0, forall|k: int| 0 <= k < t.len() ==> flag(#[trigger] t[k])
{
    reads_repeat(1, None, p, xs, t);
    lem_bytes(p, xs, t);
}
pub open spec fn mod_of(m: Option<Modifier>) -> Modifier { match m { Some(d) => d, None => plain() } }
pub broadcast proof fn lem_modifier(m: Option<Modifier>, t: Seq<u8>)
    requires #[trigger] reads(parse_modifier(), m, t)
    ensures modifier_text(mod_of(m), t)
{
    broadcast use sfx_map, sfx_alt, sfx_byte, sfx_repeat, sfx_preceded, reads_opt, reads_preceded, reads_map, reads_alt, reads_byte, lem_flags;
}
pub open spec fn ends(p: Parser<int>, none: int) -> bool { sfx(p) && forall|e: int, t: Seq<u8>| #[trigger] reads(p, e, t) ==> bound_text(e, none, t) }
pub broadcast proof fn lem_bound(dd: Seq<u8>, f: spec_fn(Seq<u8>) -> Option<Seq<u8>>, g: spec_fn(Seq<u8>) -> Option<int>, none: int, e: int, t: Seq<u8>)
    requires dd == dots(), #[trigger] reads(p_alt(p_preceded(p_lit(dd), p_verify_map(p_verify_map(p_digit1(), f), g)), p_alt(p_value(p_lit(dd), 0xFFFF_FFFF_FFFF_FFFF), p_value(p_empty(), none))), e, t),
        forall|s: Seq<u8>| #[trigger] f(s) == s.to_str().x_ok(), forall|s: Seq<u8>| #[trigger] g(s) == s.parse().x_ok(),
    ensures bound_text(e, none, t)
{ broadcast use group_sfx, group_reads; }
pub broadcast proof fn lem_affix(f: spec_fn(Seq<u8>) -> Seq<u8>, s: Option<Seq<u8>>, t: Seq<u8>)
    requires #[trigger] reads(p_opt(p_map(p_ws(parse_string()), f)), s, t), forall|v: Seq<u8>| #[trigger] f(v) == v.to_str().x_unwrap()
    ensures affix_text(s, t)
{
    hide(parse_string);
    broadcast use sfx_map, sfx_ws, super::sub_p::lem_string;
    lem_sfx_small();
    let p = p_ws(parse_string());
    reads_opt(p_map(p, f), s, t);
    if s is Some {
        reads_map(p, f, s->0, t);
        let v = choose|v: Seq<u8>| s->0 == #[trigger] f(v) && reads(p, v, t);
        reads_ws(parse_string(), v, t);
        let u = choose|u: Seq<u8>| #[trigger] padded(t, u) && reads(parse_string(), v, u);
        assert(quoted(v, u));
        assert(spaced_string(v, t));
    }
}
pub broadcast proof fn lem_value(v: Value, t: Seq<u8>)
    requires #[trigger] reads(parse_value(), v, t)
    ensures value_text(v, t)
{
    hide(p_map); hide(p_alt); hide(p_tup5); hide(p_ws); hide(p_opt); hide(parse_string); hide(parse_subfield_codes); hide(parse_modifier); hide(modifier_text); hide(affix_text); hide(bound_text);
    broadcast use sfx_map, sfx_tup5, sfx_opt, sfx_ws, sfx_bound, reads_map, reads_tup5, reads_ws, lem_modifier, lem_bound, lem_affix, super::sub_p::lem_codes;
    lem_sfx_small();
}
pub broadcast proof fn lem_sfx_cut<A>() ensures #[trigger] sfx(p_cut::<A>()) { reveal(sfx); }
pub broadcast proof fn sfx_bound(dd: Seq<u8>, f: spec_fn(Seq<u8>) -> Option<Seq<u8>>, g: spec_fn(Seq<u8>) -> Option<int>, none: int)
    ensures #[trigger] sfx(p_alt(p_preceded(p_lit(dd), p_verify_map(p_verify_map(p_digit1(), f), g)), p_alt(p_value(p_lit(dd), 0xFFFF_FFFF_FFFF_FFFF), p_value(p_empty(), none))))
{ broadcast use group_sfx; }
pub proof fn lem_sfx_group(n: nat)
    requires n > 0 ==> sfx(parse_list((n - 1) as nat))
    ensures sfx(parse_group(n))
{
    hide(p_map); hide(p_alt); hide(p_tup5); hide(p_terminated); hide(p_ws); hide(p_separated); hide(parse_value); hide(parse_modifier); hide(group_level_inc);
    broadcast use sfx_map, sfx_tup5, sfx_terminated, sfx_ws, sfx_byte, sfx_alt, sfx_bound, lem_sfx_cut;
    lem_sfx_small();
}
pub proof fn lem_sfx_and(n: nat)
    requires n > 0 ==> sfx(parse_group((n - 1) as nat))
    ensures sfx(parse_list_and_then(n))
{
    hide(p_map); hide(p_alt); hide(p_tup5); hide(p_terminated); hide(p_ws); hide(p_separated); hide(parse_value);
    broadcast use sfx_map, sfx_alt, sfx_separated, sfx_ws, sfx_lit, lem_sfx_cut;
    lem_sfx_small();
}
pub proof fn lem_sfx_cons(n: nat)
    requires n > 0 ==> sfx(parse_group((n - 1) as nat)) && sfx(parse_list_and_then((n - 1) as nat))
    ensures sfx(parse_list_cons(n))
{
    hide(p_map); hide(p_alt); hide(p_tup5); hide(p_terminated); hide(p_ws); hide(p_separated); hide(parse_value);
    broadcast use sfx_map, sfx_alt, sfx_separated, sfx_ws, sfx_lit, lem_sfx_cut;
    lem_sfx_small();
}
pub proof fn lem_sfx_list(n: nat)
    requires n > 0 ==> sfx(parse_list_and_then((n - 1) as nat)) && sfx(parse_list_cons((n - 1) as nat))
    ensures sfx(parse_list(n))
{
    broadcast use sfx_alt, lem_sfx_cut;
}
pub proof fn lem_sfx_fuel(n: nat)
    ensures sfx(parse_group(n)), sfx(parse_list_and_then(n)), sfx(parse_list_cons(n)), sfx(parse_list(n))
    decreases n
{
    if n > 0 { lem_sfx_fuel((n - 1) as nat); }
    lem_sfx_group(n); lem_sfx_and(n); lem_sfx_cons(n); lem_sfx_list(n);
}
pub open spec fn and_ok() -> spec_fn(Fragments) -> bool { |x: Fragments| and_part(x) }
pub open spec fn cons_ok() -> spec_fn(Fragments) -> bool { |x: Fragments| cons_part(x) }
pub open spec fn part_parser(p: Parser<Fragments>, ok: spec_fn(Fragments) -> bool) -> bool { sfx(p) && forall|x: Fragments, a: Seq<u8>| #[trigger] reads(p, x, a) ==> ok(x) && frag_text(x, a) }
pub proof fn lem_parts_row(p: Parser<Fragments>, ok: spec_fn(Fragments) -> bool, sign: Seq<u8>, y: Fragments, h: Seq<u8>, xs: Seq<Fragments>, t: Seq<u8>, w: Seq<u8>)
    requires row(p_preceded(p_ws(p_lit(sign)), p), xs, t), part_parser(p, ok), ok(y), frag_text(y, h), cat2(w, h, t)
    ensures parts_text(seq![y] + xs, sign, w), forall|i: int| 0 <= i < xs.len() + 1 ==> ok(#[trigger] (seq![y] + xs)[i])
    decreases xs.len()
{
    let ys = seq![y] + xs;
    if xs.len() == 0 { assert(w =~= h); assert(ys.len() == 1 && ys[0] == y); } else {
        broadcast use sfx_ws, sfx_lit, reads_ws, reads_lit;
        let q = p_ws(p_lit(sign));
        let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p_preceded(q, p), xs[0], a) && row(p_preceded(q, p), xs.subrange(1, xs.len() as int), b);
        let zs = xs.subrange(1, xs.len() as int);
        reads_preceded(q, p, xs[0], a);
        let (x, c, d) = choose|x: Seq<u8>, c: Seq<u8>, d: Seq<u8>| #[trigger] cat2(a, c, d) && #[trigger] reads(q, x, c) && reads(p, xs[0], d);
        assert(cat2(a, c, d) && reads(q, x, c) && reads(p, xs[0], d));
        assert(cat2(d + b, d, b));
        lem_parts_row(p, ok, sign, xs[0], d, zs, b, d + b);
        assert(seq![xs[0]] + zs =~= xs);
        assert(ys.subrange(1, ys.len() as int) =~= xs);
        assert(w =~= h + c + (d + b));
        assert(cat3(w, h, c, d + b));
        assert(padded(c, sign));
        assert forall|i: int| 0 <= i < xs.len() + 1 implies ok(#[trigger] ys[i]) by { if i > 0 { assert(ys[i] == (seq![xs[0]] + zs)[i - 1]); } }
    }
}
pub proof fn lem_parts(p: Parser<Fragments>, ok: spec_fn(Fragments) -> bool, sign: Seq<u8>, xs: Seq<Fragments>, t: Seq<u8>)
    requires reads(p_separated(2, None, p, p_ws(p_lit(sign))), xs, t), part_parser(p, ok)
    ensures xs.len() >= 2, parts_text(xs, sign, t), forall|i: int| 0 <= i < xs.len() ==> ok(#[trigger] xs[i])
{
    broadcast use sfx_ws, sfx_lit;
    let q = p_ws(p_lit(sign));
    reads_separated(2, None, p, q, xs, t);
    let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, xs[0], a) && row(p_preceded(q, p), xs.subrange(1, xs.len() as int), b);
    let zs = xs.subrange(1, xs.len() as int);
    lem_parts_row(p, ok, sign, xs[0], a, zs, b, t);
    assert(seq![xs[0]] + zs =~= xs);
}
pub open spec fn okf(n: nat) -> bool {
    &&& forall|x: Group, t: Seq<u8>| #[trigger] reads(parse_group(n), x, t) ==> frag_text(Fragments::Group(x), t)
    &&& forall|x: List, t: Seq<u8>| #[trigger] reads(parse_list_and_then(n), x, t) ==> x is AndThen && frag_text(Fragments::List(x), t)
    &&& forall|x: List, t: Seq<u8>| #[trigger] reads(parse_list_cons(n), x, t) ==> frag_text(Fragments::List(x), t)
    &&& forall|x: List, t: Seq<u8>| #[trigger] reads(parse_list(n), x, t) ==> frag_text(Fragments::List(x), t)
}
pub open spec fn group_parts(y: (u8, Option<Modifier>, Fragments, (), int), t: Seq<u8>) -> bool {
    !(y.2 is Group) && exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>, u: Seq<u8>| #[trigger] cat5(t, a, b, c, d, e) && #[trigger] padded(c, u)
        && tok(a, 40u8) && modifier_text(mod_of(y.1), b) && frag_text(y.2, u) && tok(d, 41u8) && bound_text(y.4, 0xFFFF_FFFF_FFFF_FFFF, e)
}
pub open spec fn insides(p: Parser<Fragments>) -> bool {
    sfx(p) && forall|y: Fragments, t: Seq<u8>| #[trigger] reads(p, y, t) ==> !(y is Group) && exists|u: Seq<u8>| #[trigger] padded(t, u) && frag_text(y, u)
}
pub open spec fn closes(p: Parser<()>) -> bool { sfx(p) && forall|y: (), t: Seq<u8>| #[trigger] reads(p, y, t) ==> tok(t, 41u8) }
pub broadcast proof fn lem_group_parts(p: Parser<Fragments>, q: Parser<()>, w: Parser<int>, y: (u8, Option<Modifier>, Fragments, (), int), t: Seq<u8>)
    requires #[trigger] reads(p_tup5(p_terminated(p_ws(p_byte(40u8)), group_level_inc()), parse_modifier(), p, q, w), y, t), insides(p), closes(q), ends(w, 0xFFFF_FFFF_FFFF_FFFF)
    ensures group_parts(y, t)
{
    hide(parse_modifier); hide(group_level_inc); hide(frag_text); hide(modifier_text); hide(bound_text);
    lem_sfx_small();
    assert(sfx(p_terminated(p_ws(p_byte(40u8)), group_level_inc()))) by { broadcast use sfx_terminated, sfx_ws, sfx_byte; }
    reads_tup5(p_terminated(p_ws(p_byte(40u8)), group_level_inc()), parse_modifier(), p, q, w, y, t);
    broadcast use lem_modifier, lem_open;
}
pub broadcast proof fn lem_insides(n: nat, f: spec_fn(List) -> Fragments, g: spec_fn(Value) -> Fragments)
    requires okf(n), forall|x: List| #[trigger] f(x) == Fragments::List(x), forall|x: Value| #[trigger] g(x) == Fragments::Value(x)
    ensures insides(#[trigger] p_alt(p_map(p_ws(parse_list(n)), f), p_map(p_ws(parse_value()), g)))
{
    hide(parse_value); hide(value_text); hide(parse_list); hide(frag_text);
    broadcast use sfx_map, sfx_ws, sfx_alt, lem_inner;
    lem_sfx_small(); lem_sfx_fuel(n);
}
pub broadcast proof fn lem_closes(f: spec_fn(u8) -> ())
    ensures closes(#[trigger] p_map(p_ws(p_byte(41u8)), f))
{ broadcast use sfx_map, sfx_ws, sfx_byte, lem_dec; }
pub broadcast proof fn lem_group_end(dd: Seq<u8>, f: spec_fn(Seq<u8>) -> Option<Seq<u8>>, g: spec_fn(Seq<u8>) -> Option<int>, none: int)
    requires dd == dots(), forall|s: Seq<u8>| #[trigger] f(s) == s.to_str().x_ok(), forall|s: Seq<u8>| #[trigger] g(s) == s.parse().x_ok(),
    ensures ends(#[trigger] p_alt(p_preceded(p_lit(dd), p_verify_map(p_verify_map(p_digit1(), f), g)), p_alt(p_value(p_lit(dd), 0xFFFF_FFFF_FFFF_FFFF), p_value(p_empty(), none))), none)
{ hide(bound_text); broadcast use group_sfx, lem_bound; }
pub open spec fn grouping(p: Parser<(u8, Option<Modifier>, Fragments, (), int)>) -> bool { sfx(p) && forall|y: (u8, Option<Modifier>, Fragments, (), int), t: Seq<u8>| #[trigger] reads(p, y, t) ==> group_parts(y, t) }
pub broadcast proof fn lem_grouping(p: Parser<Fragments>, q: Parser<()>, w: Parser<int>)
    requires insides(p), closes(q), ends(w, 0xFFFF_FFFF_FFFF_FFFF)
    ensures grouping(#[trigger] p_tup5(p_terminated(p_ws(p_byte(40u8)), group_level_inc()), parse_modifier(), p, q, w))
{
    hide(parse_modifier); hide(group_level_inc); hide(group_parts);
    lem_sfx_small();
    broadcast use sfx_tup5, sfx_terminated, sfx_ws, sfx_byte, lem_group_parts;
}
pub broadcast proof fn lem_group_shape(p: Parser<(u8, Option<Modifier>, Fragments, (), int)>, f: spec_fn((u8, Option<Modifier>, Fragments, (), int)) -> Group, x: Group, t: Seq<u8>)
    requires #[trigger] reads(p_map(p, f), x, t), grouping(p),
        forall|y: (u8, Option<Modifier>, Fragments, (), int)| #[trigger] f(y) == (Group { fragments: Box::new(y.2), bounds: XRangeTo { end: y.4 }, modifier: mod_of(y.1) })
    ensures frag_text(Fragments::Group(x), t)
{
    hide(modifier_text); hide(bound_text);
    broadcast use reads_map;
}
pub proof fn step_group(n: nat, x: Group, t: Seq<u8>)
    requires n > 0, okf((n - 1) as nat), reads(parse_group(n), x, t)
    ensures frag_text(Fragments::Group(x), t)
{
    hide(parse_value); hide(parse_modifier); hide(value_text); hide(modifier_text); hide(bound_text); hide(group_level_inc); hide(frag_text); hide(grouping); hide(insides); hide(closes); hide(ends);
    lem_sfx_fuel((n - 1) as nat);
    broadcast use lem_group_shape, lem_grouping, lem_closes, lem_insides, lem_group_end;
}
pub broadcast proof fn lem_dec(f: spec_fn(u8) -> (), y: (), t: Seq<u8>)
    requires #[trigger] reads(p_map(p_ws(p_byte(41u8)), f), y, t)
    ensures tok(t, 41u8)
{ broadcast use sfx_ws, sfx_byte, reads_map, reads_ws, reads_byte; }
pub broadcast proof fn lem_level_reads(y: (), t: Seq<u8>)
    requires #[trigger] reads(group_level_inc(), y, t)
    ensures t.len() == 0
{ let (i, r) = lem_reads(group_level_inc(), y, t); }
pub broadcast proof fn lem_open(y: u8, t: Seq<u8>)
    requires #[trigger] reads(p_terminated(p_ws(p_byte(40u8)), group_level_inc()), y, t)
    ensures tok(t, 40u8)
{
    hide(group_level_inc);
    broadcast use sfx_ws, sfx_byte, reads_ws, reads_byte, lem_level_reads;
    lem_sfx_small();
    reads_terminated(p_ws(p_byte(40u8)), group_level_inc(), y, t);
    let (x, a, b) = choose|x: (), a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p_ws(p_byte(40u8)), y, a) && #[trigger] reads(group_level_inc(), x, b);
    assert(t =~= a);
}
/// the inside of a group
pub broadcast proof fn lem_inner(n: nat, f: spec_fn(List) -> Fragments, g: spec_fn(Value) -> Fragments, y: Fragments, t: Seq<u8>)
    requires #[trigger] reads(p_alt(p_map(p_ws(parse_list(n)), f), p_map(p_ws(parse_value()), g)), y, t), okf(n),
        forall|x: List| #[trigger] f(x) == Fragments::List(x), forall|x: Value| #[trigger] g(x) == Fragments::Value(x)
    ensures !(y is Group), exists|u: Seq<u8>| #[trigger] padded(t, u) && frag_text(y, u)
{
    hide(parse_value); hide(value_text); hide(parse_list);
    broadcast use sfx_map, sfx_ws, reads_ws, reads_map, reads_alt, lem_value;
    lem_sfx_small(); lem_sfx_fuel(n);
}
pub broadcast proof fn lem_and_parts(n: nat, f: spec_fn(Group) -> Fragments, g: spec_fn(Value) -> Fragments)
    requires okf(n), forall|x: Group| #[trigger] f(x) == Fragments::Group(x), forall|x: Value| #[trigger] g(x) == Fragments::Value(x)
    ensures #[trigger] part_parser(p_alt(p_map(parse_group(n), f), p_map(parse_value(), g)), and_ok())
{
    hide(parse_value); hide(value_text); hide(parse_group);
    broadcast use sfx_map, sfx_alt, reads_map, reads_alt, lem_value;
    lem_sfx_small(); lem_sfx_fuel(n);
}
pub broadcast proof fn lem_cons_parts(n: nat, h: spec_fn(List) -> Fragments, f: spec_fn(Group) -> Fragments, g: spec_fn(Value) -> Fragments)
    requires okf(n), forall|x: Group| #[trigger] f(x) == Fragments::Group(x), forall|x: Value| #[trigger] g(x) == Fragments::Value(x), forall|x: List| #[trigger] h(x) == Fragments::List(x)
    ensures #[trigger] part_parser(p_alt(p_map(parse_list_and_then(n), h), p_alt(p_map(parse_group(n), f), p_map(parse_value(), g))), cons_ok())
{
    hide(parse_value); hide(value_text); hide(parse_group); hide(parse_list_and_then);
    broadcast use sfx_map, sfx_alt, reads_map, reads_alt, lem_value;
    lem_sfx_small(); lem_sfx_fuel(n);
}
pub broadcast proof fn lem_and(n: nat, e: spec_fn(Group) -> Fragments, g: spec_fn(Value) -> Fragments, sign: Seq<u8>, f: spec_fn(Seq<Fragments>) -> List, x: List, t: Seq<u8>)
    requires #[trigger] reads(p_map(p_separated(2, None, p_alt(p_map(parse_group(n), e), p_map(parse_value(), g)), p_ws(p_lit(sign))), f), x, t), okf(n),
        forall|x: Group| #[trigger] e(x) == Fragments::Group(x), forall|x: Value| #[trigger] g(x) == Fragments::Value(x),
        sign == and_sign(), forall|xs: Seq<Fragments>| #[trigger] f(xs) == List::AndThen(xs)
    ensures x is AndThen, frag_text(Fragments::List(x), t)
{
    broadcast use sfx_separated, sfx_ws, sfx_lit;
    let p = p_alt(p_map(parse_group(n), e), p_map(parse_value(), g));
    let q = p_separated(2, None, p, p_ws(p_lit(sign)));
    lem_and_parts(n, e, g);
    reads_map(q, f, x, t);
    let xs = choose|xs: Seq<Fragments>| x == #[trigger] f(xs) && reads(q, xs, t);
    let ok = and_ok();
    lem_parts(p, ok, sign, xs, t);
    assert forall|i: int| 0 <= i < xs.len() implies and_part(#[trigger] xs[i]) by { assert(ok(xs[i])); }
}
pub broadcast proof fn lem_cons(n: nat, h: spec_fn(List) -> Fragments, e: spec_fn(Group) -> Fragments, g: spec_fn(Value) -> Fragments, sign: Seq<u8>, f: spec_fn(Seq<Fragments>) -> List, x: List, t: Seq<u8>)
    requires #[trigger] reads(p_map(p_separated(2, None, p_alt(p_map(parse_list_and_then(n), h), p_alt(p_map(parse_group(n), e), p_map(parse_value(), g))), p_ws(p_lit(sign))), f), x, t), okf(n),
        forall|x: Group| #[trigger] e(x) == Fragments::Group(x), forall|x: Value| #[trigger] g(x) == Fragments::Value(x), forall|x: List| #[trigger] h(x) == Fragments::List(x),
        sign == cons_sign(), forall|xs: Seq<Fragments>| #[trigger] f(xs) == List::Cons(xs)
    ensures frag_text(Fragments::List(x), t)
{
    broadcast use sfx_separated, sfx_ws, sfx_lit;
    let p = p_alt(p_map(parse_list_and_then(n), h), p_alt(p_map(parse_group(n), e), p_map(parse_value(), g)));
    let q = p_separated(2, None, p, p_ws(p_lit(sign)));
    lem_cons_parts(n, h, e, g);
    reads_map(q, f, x, t);
    let xs = choose|xs: Seq<Fragments>| x == #[trigger] f(xs) && reads(q, xs, t);
    let ok = cons_ok();
    lem_parts(p, ok, sign, xs, t);
    assert forall|i: int| 0 <= i < xs.len() implies cons_part(#[trigger] xs[i]) by { assert(ok(xs[i])); }
}
pub proof fn step_and(n: nat, x: List, t: Seq<u8>)
    requires n > 0, okf((n - 1) as nat), reads(parse_list_and_then(n), x, t)
    ensures x is AndThen, frag_text(Fragments::List(x), t)
{
    hide(parse_value); hide(okf);
    lem_sfx_fuel((n - 1) as nat);
    broadcast use lem_and;
}
pub proof fn step_cons(n: nat, x: List, t: Seq<u8>)
    requires n > 0, okf((n - 1) as nat), reads(parse_list_cons(n), x, t)
    ensures frag_text(Fragments::List(x), t)
{
    hide(parse_value); hide(okf);
    lem_sfx_fuel((n - 1) as nat);
    broadcast use lem_cons;
}
pub proof fn step_list(n: nat, x: List, t: Seq<u8>)
    requires n > 0, okf((n - 1) as nat), reads(parse_list(n), x, t)
    ensures frag_text(Fragments::List(x), t)
{ broadcast use reads_alt; lem_sfx_fuel((n - 1) as nat); }
pub proof fn lem_okf(n: nat)
    ensures okf(n)
    decreases n
{
    if n == 0 {
        assert forall|x: Group, t: Seq<u8>| !(#[trigger] reads(parse_group(n), x, t)) by { if reads(parse_group(n), x, t) { let (i, r) = lem_reads(parse_group(n), x, t); } }
        assert forall|x: List, t: Seq<u8>| !(#[trigger] reads(parse_list_and_then(n), x, t)) by { if reads(parse_list_and_then(n), x, t) { let (i, r) = lem_reads(parse_list_and_then(n), x, t); } }
        assert forall|x: List, t: Seq<u8>| !(#[trigger] reads(parse_list_cons(n), x, t)) by { if reads(parse_list_cons(n), x, t) { let (i, r) = lem_reads(parse_list_cons(n), x, t); } }
        assert forall|x: List, t: Seq<u8>| !(#[trigger] reads(parse_list(n), x, t)) by { if reads(parse_list(n), x, t) { let (i, r) = lem_reads(parse_list(n), x, t); } }
    } else {
        lem_okf((n - 1) as nat);
        assert forall|x: Group, t: Seq<u8>| #[trigger] reads(parse_group(n), x, t) implies frag_text(Fragments::Group(x), t) by { step_group(n, x, t); }
        assert forall|x: List, t: Seq<u8>| #[trigger] reads(parse_list_and_then(n), x, t) implies x is AndThen && frag_text(Fragments::List(x), t) by { step_and(n, x, t); }
        assert forall|x: List, t: Seq<u8>| #[trigger] reads(parse_list_cons(n), x, t) implies frag_text(Fragments::List(x), t) by { step_cons(n, x, t); }
        assert forall|x: List, t: Seq<u8>| #[trigger] reads(parse_list(n), x, t) implies frag_text(Fragments::List(x), t) by { step_list(n, x, t); }
    }
}
pub broadcast proof fn lem_fragments(n: nat, x: Fragments, t: Seq<u8>)
    requires #[trigger] reads(parse_fragments(n), x, t)
    ensures spaced_frag(x, t)
{
    hide(parse_value); hide(parse_group); hide(parse_list); hide(value_text);
    if n == 0 { let (i, r) = lem_reads(parse_fragments(n), x, t); assert(false); }
    lem_okf((n - 1) as nat); lem_sfx_fuel((n - 1) as nat); lem_sfx_small();
    broadcast use sfx_map, sfx_ws, sfx_alt, reads_alt, reads_map, reads_ws, lem_value;
}
pub proof fn lem_sfx_fragments(n: nat)
    ensures sfx(parse_fragments(n))
{
    hide(parse_value); hide(parse_group); hide(parse_list);
    if n > 0 { lem_sfx_fuel((n - 1) as nat); } lem_sfx_small();
    broadcast use sfx_map, sfx_ws, sfx_alt, lem_sfx_cut;
}
pub proof fn lem_sfx_format(n: nat)
    ensures sfx(parse_format(n))
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_subfield_matcher); hide(parse_fragments);
    if n > 0 { lem_sfx_fragments((n - 1) as nat); super::sub_p::lem_ih((n - 1) as nat); lem_sfx_sub((n - 1) as nat); }
    lem_sfx_small();
    broadcast use group_sfx, lem_sfx_cut;
}
pub proof fn lem_sfx_sub(n: nat)
    ensures sfx(parse_subfield_matcher(n))
{ super::sub_p::lem_ih(n); reveal(sound); reveal(sfx); }
pub broadcast proof fn lem_tag_reads(m: TagMatcher, t: Seq<u8>) requires #[trigger] reads(parse_tag_matcher(), m, t) ensures tag_matcher_text(m, t) { lem_parse_tag(m, t); }
pub broadcast proof fn lem_occ_reads(m: OccurrenceMatcher, t: Seq<u8>) requires #[trigger] reads(parse_occurrence_matcher(), m, t) ensures occ_matcher_text(m, t) { lem_parse_occ(m, t); }
pub broadcast proof fn lem_sub_reads(n: nat, m: SubfieldMatcher, t: Seq<u8>) requires #[trigger] reads(parse_subfield_matcher(n), m, t) ensures spells(m, t), shaped(m)
{
    super::sub_p::lem_ih(n); reveal(sound);
    let (i, r) = lem_reads(parse_subfield_matcher(n), m, t);
    assert(super::sub_p::expr(0)(m, took(i, r)));
}
pub broadcast proof fn lem_format(n: nat, x: Format, t: Seq<u8>)
    requires #[trigger] reads(parse_format(n), x, t)
    ensures format_text(x, t)
{
    hide(parse_tag_matcher); hide(parse_occurrence_matcher); hide(parse_subfield_matcher); hide(parse_fragments); hide(frag_text); hide(spells); hide(shaped);
    hide(tag_matcher_text); hide(occ_matcher_text); hide(spaced_frag);
    if n == 0 { let (i, r) = lem_reads(parse_format(n), x, t); assert(false); }
    lem_sfx_fragments((n - 1) as nat); lem_sfx_sub((n - 1) as nat); lem_sfx_small();
    broadcast use group_sfx, group_reads, lem_tag_reads, lem_occ_reads, lem_sub_reads, lem_fragments;
}
pub proof fn lem_parts_wf(xs: Seq<Fragments>, sign: Seq<u8>, t: Seq<u8>)
    requires parts_text(xs, sign, t)
    ensures forall|i: int| 0 <= i < xs.len() ==> wf(#[trigger] xs[i])
    decreases xs
{
    if xs.len() == 1 { lem_wf(xs[0], t); } else {
        let (a, b, c) = choose|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && frag_text(xs[0], a) && padded(b, sign) && parts_text(xs.subrange(1, xs.len() as int), sign, c);
        lem_wf(xs[0], a);
        let ys = xs.subrange(1, xs.len() as int);
        lem_parts_wf(ys, sign, c);
        assert forall|i: int| 0 <= i < xs.len() implies wf(#[trigger] xs[i]) by { if i > 0 { assert(xs[i] == ys[i - 1]); } }
    }
}
pub proof fn lem_wf(f: Fragments, t: Seq<u8>)
    requires frag_text(f, t)
    ensures wf(f)
    decreases f
{
    match f {
        Fragments::Value(_) => {}
        Fragments::Group(g) => {
            let (a, b, c, d, e, u) = choose|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>, u: Seq<u8>| #[trigger] cat5(t, a, b, c, d, e) && #[trigger] padded(c, u)
                && tok(a, 40u8) && modifier_text(g.modifier, b) && frag_text(*g.fragments, u) && tok(d, 41u8) && bound_text(g.bounds.end, 0xFFFF_FFFF_FFFF_FFFF, e);
            lem_wf(*g.fragments, u);
        }
        Fragments::List(List::AndThen(xs)) => { lem_parts_wf(xs, and_sign(), t); }
        Fragments::List(List::Cons(xs)) => { lem_parts_wf(xs, cons_sign(), t); }
    }
}
pub proof fn lem_format_wf(x: Format, t: Seq<u8>)
    requires format_text(x, t)
    ensures wf(x.fragments)
{
    hide(tag_matcher_text); hide(occ_matcher_text); hide(condition_text);
    let (a, b, c) = choose|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && tag_matcher_text(x.tag_matcher, a) && occ_matcher_text(x.occurrence_matcher, b) && body_text(x.fragments, x.subfield_matcher, c);
    let (o, m, q, d, e) = choose|a: Seq<u8>, b: Seq<u8>, y: Seq<u8>, d: Seq<u8>, e: Seq<u8>| #[trigger] cat3(c, a, b, y) && #[trigger] cat2(b, d, e) && tok(a, 123u8) && tok(y, 125u8) && spaced_frag(x.fragments, d) && condition_text(x.subfield_matcher, e);
    let u = choose|u: Seq<u8>| #[trigger] padded(d, u) && frag_text(x.fragments, u);
    lem_wf(x.fragments, u);
}
/// a text that is read as a format spells this format, and the format has the
/// shape that its printing relies on
pub proof fn ob_parse_format(n: nat, t: Seq<u8>)
    ensures p_parse(parse_format(n), t) is Ok ==> format_text(p_parse(parse_format(n), t)->Ok_0, t) && wf(p_parse(parse_format(n), t)->Ok_0.fragments)
{
    hide(parse_format); hide(format_text);
    lem_sfx_format(n);
    lem_parse_reads(parse_format(n), t);
    if p_parse(parse_format(n), t) is Ok { lem_format(n, p_parse(parse_format(n), t)->Ok_0, t); lem_format_wf(p_parse(parse_format(n), t)->Ok_0, t); }
}
}
}
