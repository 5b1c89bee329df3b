// What a list of subfield codes stands for
pub open spec fn is_code(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 122 || 65 <= c <= 90 }
pub open spec fn code_ok() -> spec_fn(u8) -> bool { |c: u8| is_code(c) }
pub open spec fn all_codes() -> Seq<u8> {
    48u8.x_range_incl(57u8) + 97u8.x_range_incl(122u8) + 65u8.x_range_incl(90u8)
}
pub open spec fn codes_text(cs: Seq<u8>, t: Seq<u8>) -> bool {
    ||| t.len() == 1 && is_code(t[0]) && cs == t
    ||| t == seq![42u8] && cs == all_codes()
    ||| t.len() > 2 && t[0] == 91u8 && t.last() == 93u8 && listed(code_ok(), t.subrange(1, t.len() - 1)) == Some(cs)
}
/// the notation of older versions, after a `$`
pub open spec fn codes_compat(cs: Seq<u8>, t: Seq<u8>) -> bool {
    ||| t == seq![42u8] && cs == all_codes()
    ||| t.len() > 0 && cs == t && forall|k: int| 0 <= k < t.len() ==> is_code(#[trigger] t[k])
}
pub broadcast proof fn lem_code(c: u8, t: Seq<u8>) requires #[trigger] reads(parse_subfield_code(), c, t) ensures t == seq![c], is_code(c)
{ broadcast use group_sfx, group_reads; }
pub proof fn lem_range_map(a: u8, b: u8)
    ensures (a as int).x_range_incl(b as int).map_values(|z: int| z as u8) == a.x_range_incl(b)
{ assert((a as int).x_range_incl(b as int).map_values(|z: int| z as u8) =~= a.x_range_incl(b)); }
pub broadcast proof fn lem_code_range(x: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_subfield_code_range(), x, t)
    ensures t.len() == 3, t[1] == 45u8, is_code(t[0]), is_code(t[2]), t[0] < t[2], x == t[0].x_range_incl(t[2])
{
    hide(parse_subfield_code);
    broadcast use group_reads, sfx_byte, sfx_separated_pair, sfx_verify, sfx_map, lem_code;
    lem_sfx_codes();
    assert(x =~= t[0].x_range_incl(t[2]));
}
pub proof fn lem_sfx_codes()
    ensures sfx(parse_subfield_code()), sfx(parse_subfield_code_range()), sfx(parse_subfield_code_list()), sfx(parse_subfield_code_all()), sfx(parse_subfield_codes()), sfx(parse_subfield_code_list_compat()), sfx(parse_subfield_codes_compat())
{ broadcast use group_sfx;
    assert(sfx(parse_subfield_code())); assert(sfx(parse_subfield_code_range())); assert(sfx(parse_subfield_code_list())); assert(sfx(parse_subfield_code_all())); }
pub broadcast proof fn lem_code_list(cs: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_subfield_code_list(), cs, t)
    ensures t.len() > 2, t[0] == 91u8, t.last() == 93u8, listed(code_ok(), t.subrange(1, t.len() - 1)) == Some(cs)
{
    hide(parse_subfield_code); hide(parse_subfield_code_range);
    broadcast use sfx_byte, sfx_map, sfx_alt, sfx_repeat, sfx_fold, reads_delimited, reads_byte, reads_alt, reads_map, lem_code, lem_code_range;
    lem_sfx_codes();
    let ok = code_ok();
    assert(!ok(45u8));
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && a.len() == 1 && c.len() == 1 implies t[0] == a[0] && t.last() == c[0] && t.subrange(1, t.len() - 1) == b && t.len() == b.len() + 2
        by { lem_cat_brackets(t, a, b, c); }
    assert forall|p: Parser<Seq<u8>>, f: spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8>, b: Seq<u8>| #[trigger] reads(p_fold(p_repeat(1, None, p), Seq::<u8>::empty(), f), cs, b) && list_items(p, ok) && appends(f) && sfx(p) implies b.len() > 0 && listed(ok, b) == Some(cs)
        by { lem_brackets(p, ok, f, cs, b); }
}
pub broadcast proof fn lem_code_all(cs: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_subfield_code_all(), cs, t)
    ensures t == seq![42u8], cs == all_codes()
{
    broadcast use sfx_byte, reads_value, reads_byte;
    assert(cs =~= all_codes());
}
pub broadcast proof fn lem_codes(cs: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_subfield_codes(), cs, t)
    ensures codes_text(cs, t)
{
    hide(parse_subfield_code); hide(parse_subfield_code_list); hide(parse_subfield_code_all);
    broadcast use sfx_map, sfx_alt, reads_map, reads_alt, lem_code, lem_code_list, lem_code_all;
    lem_sfx_codes();
}
pub open spec fn single_items(p: Parser<Seq<u8>>) -> bool { forall|x: Seq<u8>, a: Seq<u8>| #[trigger] reads(p, x, a) ==> a.len() == 1 && is_code(a[0]) && x == a }
pub proof fn lem_singles(p: Parser<Seq<u8>>, xs: Seq<Seq<u8>>, t: Seq<u8>, f: spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8>, init: Seq<u8>)
    requires row(p, xs, t), appends(f), single_items(p)
    ensures seq_fold(xs, init, f) == init + t, t.len() == xs.len(), forall|k: int| 0 <= k < t.len() ==> is_code(#[trigger] t[k])
    decreases xs.len()
{
    if xs.len() == 0 { assert(init + t =~= init); } else {
        let (a, b) = choose|a: Seq<u8>, b: Seq<u8>| #[trigger] cat2(t, a, b) && reads(p, xs[0], a) && row(p, xs.subrange(1, xs.len() as int), b);
        lem_singles(p, xs.subrange(1, xs.len() as int), b, f, init + xs[0]);
        lem_fold_front(xs, init, f);
        assert(init + xs[0] + b =~= init + t);
        assert forall|k: int| 0 <= k < t.len() implies is_code(#[trigger] t[k]) by { if k > 0 { assert(t[k] == b[k - 1]); } else { assert(t[0] == a[0]); } }
    }
}
pub broadcast proof fn lem_code_list_compat(cs: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_subfield_code_list_compat(), cs, t)
    ensures codes_compat(cs, t)
{
    hide(parse_subfield_code);
    broadcast use sfx_map, sfx_repeat, reads_map, lem_code;
    lem_sfx_codes();
    let e = Seq::<u8>::empty();
    assert forall|p: Parser<Seq<u8>>, f: spec_fn(Seq<u8>, Seq<u8>) -> Seq<u8>| #[trigger] reads(p_fold(p_repeat(1, None, p), e, f), cs, t) && single_items(p) && appends(f) && sfx(p) implies codes_compat(cs, t)
    by {
        let q = p_repeat(1, None, p);
        reads_fold(q, e, f, cs, t);
        let xs = choose|xs: Seq<Seq<u8>>| cs == #[trigger] seq_fold(xs, e, f) && reads(q, xs, t);
        reads_repeat(1, None, p, xs, t);
        lem_singles(p, xs, t, f, e);
        assert(e + t =~= t);
    }
}
pub broadcast proof fn lem_codes_compat(cs: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_subfield_codes_compat(), cs, t)
    ensures codes_compat(cs, t)
{
    hide(parse_subfield_code_list_compat); hide(parse_subfield_code_all);
    broadcast use sfx_map, sfx_alt, reads_map, reads_alt, lem_code_list_compat, lem_code_all;
    lem_sfx_codes();
}
/// a list of subfield codes stands for the codes it names, in their order
pub proof fn ob_codes(t: Seq<u8>)
    ensures p_parse(parse_subfield_codes(), t) is Ok ==> codes_text(p_parse(parse_subfield_codes(), t)->Ok_0, t),
        p_parse(parse_subfield_codes_compat(), t) is Ok ==> codes_compat(p_parse(parse_subfield_codes_compat(), t)->Ok_0, t)
{
    hide(parse_subfield_codes); hide(parse_subfield_codes_compat);
    lem_sfx_codes();
    lem_parse_reads(parse_subfield_codes(), t);
    lem_parse_reads(parse_subfield_codes_compat(), t);
    if p_parse(parse_subfield_codes(), t) is Ok { lem_codes(p_parse(parse_subfield_codes(), t)->Ok_0, t); }
    if p_parse(parse_subfield_codes_compat(), t) is Ok { lem_codes_compat(p_parse(parse_subfield_codes_compat(), t)->Ok_0, t); }
}
