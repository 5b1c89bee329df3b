// What a quoted text stands for (the including module has the parsers)
pub open spec fn quote(q: Quotes) -> u8 { match q { Quotes::Single => 39u8, Quotes::Double => 34u8 } }
/// the character an escape stands for
pub open spec fn escape(q: Quotes, c: u8) -> Option<u8> {
    if c == 110u8 { Some(10u8) } else if c == 114u8 { Some(13u8) } else if c == 116u8 { Some(9u8) } else if c == 98u8 { Some(8u8) } else if c == 102u8 { Some(12u8) }
    else if c == 92u8 || c == 47u8 || c == quote(q) { Some(c) } else { None }
}
pub open spec fn skip_blank(t: Seq<u8>) -> Seq<u8> decreases t.len() { if t.len() > 0 && is_space(t[0]) { skip_blank(t.subrange(1, t.len() as int)) } else { t } }
pub proof fn lem_skip_len(t: Seq<u8>) ensures skip_blank(t).len() <= t.len() decreases t.len() { if t.len() > 0 && is_space(t[0]) { lem_skip_len(t.subrange(1, t.len() as int)); } }
/// the text between the quotes: escapes stand for their character, an escaped
/// piece of layout for nothing
pub open spec fn unesc(q: Quotes, t: Seq<u8>) -> Option<Seq<u8>> decreases t.len() via unesc_dec {
    if t.len() == 0 { Some(Seq::empty()) }
    else if t[0] == quote(q) { None }
    else if t[0] == 92u8 {
        if t.len() < 2 { None }
        else if is_space(t[1]) { unesc(q, skip_blank(t.subrange(1, t.len() as int))) }
        else { match escape(q, t[1]) { Some(c) => match unesc(q, t.subrange(2, t.len() as int)) { Some(r) => Some(seq![c] + r), None => None }, None => None } }
    } else { match unesc(q, t.subrange(1, t.len() as int)) { Some(r) => Some(seq![t[0]] + r), None => None } }
}
#[via_fn]
proof fn unesc_dec(q: Quotes, t: Seq<u8>) { if t.len() >= 1 { lem_skip_len(t.subrange(1, t.len() as int)); } }
pub open spec fn piece(x: StringFragment) -> Seq<u8> { match x { StringFragment::Literal(s) => s, StringFragment::EscapedChar(c) => seq![c], StringFragment::EscapedWs => Seq::empty() } }
pub open spec fn plain(q: Quotes, c: u8) -> bool { c != quote(q) && c != 92u8 }
pub proof fn lem_unesc_plain(q: Quotes, a: Seq<u8>, b: Seq<u8>)
    requires forall|k: int| 0 <= k < a.len() ==> plain(q, #[trigger] a[k]), unesc(q, b) is Some
    ensures unesc(q, a + b) == Some(a + unesc(q, b)->0)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(a + unesc(q, b)->0 =~= unesc(q, b)->0); }
    else {
        let c = a.subrange(1, a.len() as int);
        assert forall|k: int| 0 <= k < c.len() implies plain(q, #[trigger] c[k]) by { assert(c[k] == a[k + 1]); }
        lem_unesc_plain(q, c, b);
        assert((a + b).subrange(1, (a + b).len() as int) =~= c + b);
        assert((a + b)[0] == a[0]);
        assert(plain(q, a[0]));
        assert(seq![a[0]] + (c + unesc(q, b)->0) =~= a + unesc(q, b)->0);
    }
}
pub proof fn lem_skip_blank(a: Seq<u8>, b: Seq<u8>)
    requires blank(a), b.len() > 0 ==> !is_space(b[0])
    ensures skip_blank(a + b) == b
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let c = a.subrange(1, a.len() as int);
        assert forall|k: int| 0 <= k < c.len() implies is_space(#[trigger] c[k]) by { assert(c[k] == a[k + 1]); }
        lem_skip_blank(c, b);
        assert((a + b).subrange(1, (a + b).len() as int) =~= c + b);
        assert((a + b)[0] == a[0]);
    }
}
pub proof fn lem_literal(q: Quotes, i: Seq<u8>)
    ensures match parse_literal(q)(i) { PR::Ok(s, r) => suff(i, r) && took(i, r) == s && s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> plain(q, #[trigger] s[k]), _ => i.len() == 0 || !plain(q, i[0]) }
{
    let f = match q { Quotes::Single => (|c: u8| ((|c: u8| c == 39u8))(c) || ((|c: u8| c == 92u8))(c)), Quotes::Double => (|c: u8| ((|c: u8| c == 34u8))(c) || ((|c: u8| c == 92u8))(c)) };
    let g = |c: u8| !f(c);
    lem_span(i, g);
    assert forall|c: u8| #[trigger] g(c) == plain(q, c) by {}
    assert(parse_literal(q)(i) == p_take_while(1, None, g)(i));
    match parse_literal(q)(i) { PR::Ok(s, r) => {
        assert forall|k: int| 0 <= k < s.len() implies plain(q, #[trigger] s[k]) by { assert(g(i[k])); }
        assert(took(i, r) =~= s);
    } _ => {} }
}
pub proof fn lem_escaped(q: Quotes, i: Seq<u8>)
    ensures match parse_escaped_char(q)(i) { PR::Ok(c, r) => i.len() >= 2 && suff(i, r) && r.len() == i.len() - 2 && i[0] == 92u8 && escape(q, i[1]) == Some(c), _ => i.len() < 2 || i[0] != 92u8 || escape(q, i[1]) is None }
{
    if i.len() > 0 {
        let j = p_skip(i, 1);
        assert(j.len() > 0 ==> j[0] == i[1]);
        assert(i.len() >= 2 ==> p_skip(j, 1) =~= p_skip(i, 2));
    }
}
/// one fragment
pub proof fn lem_fragment(q: Quotes, i: Seq<u8>, b: Seq<u8>)
    ensures match parse_quoted_fragment(q)(i) {
        PR::Ok(x, r) => suff(i, r) && r.len() < i.len() && ((b.len() > 0 ==> r.len() > 0 && b[0] == r[0]) && unesc(q, b) is Some ==> unesc(q, took(i, r) + b) == Some(piece(x) + unesc(q, b)->0)),
        _ => true }
{
    lem_literal(q, i); lem_escaped(q, i);
    match parse_quoted_fragment(q)(i) { PR::Ok(x, r) => {
        match x {
            StringFragment::Literal(s) => { assert(parse_literal(q)(i) == PR::Ok(s, r)); if unesc(q, b) is Some { lem_unesc_plain(q, s, b); } }
            StringFragment::EscapedChar(c) => {
                assert(parse_escaped_char(q)(i) == PR::Ok(c, r));
                let t = took(i, r) + b;
                assert(t[0] == i[0] && t[1] == i[1]);
                assert(t.subrange(2, t.len() as int) =~= b);
            }
            StringFragment::EscapedWs => {
                let j = p_skip(i, 1);
                let f = |c: u8| is_space(c);
                lem_span(j, f);
                let n = p_span(j, f);
                assert(p_multispace1()(j) == PR::Ok(j.subrange(0, n), p_skip(j, n)));
                assert(r == p_skip(j, n));
                assert(r =~= i.subrange(n + 1, i.len() as int));
                let a = j.subrange(0, n);
                assert forall|k: int| 0 <= k < a.len() implies is_space(#[trigger] a[k]) by { assert(f(j[k])); }
                let t = took(i, r) + b;
                assert(took(i, r) =~= seq![92u8] + a);
                assert(t.subrange(1, t.len() as int) =~= a + b);
                assert(t[0] == 92u8 && t[1] == a[0]);
                if b.len() > 0 && r.len() > 0 && b[0] == r[0] { assert(!f(j[n])); }
                if b.len() > 0 ==> r.len() > 0 && b[0] == r[0] { lem_skip_blank(a, b); }
                if unesc(q, b) is Some { assert(Seq::<u8>::empty() + unesc(q, b)->0 =~= unesc(q, b)->0); }
            }
        }
    } _ => {} }
}
pub proof fn lem_pieces(q: Quotes, i: Seq<u8>, f: spec_fn(Seq<u8>, StringFragment) -> Seq<u8>, init: Seq<u8>)
    requires forall|a: Seq<u8>, x: StringFragment| #[trigger] f(a, x) == a + piece(x)
    ensures match p_many(i, None, parse_quoted_fragment(q)) { PR::Ok(xs, r) => suff(i, r) && unesc(q, took(i, r)) is Some && seq_fold(xs, init, f) == init + unesc(q, took(i, r))->0, _ => true }
    decreases i.len()
{
    hide(parse_quoted_fragment);
    let p = parse_quoted_fragment(q);
    lem_suff_refl(i);
    assert(init + Seq::<u8>::empty() =~= init);
    match p(i) { PR::Ok(x, r) => { if r.len() < i.len() {
        lem_pieces(q, r, f, init + piece(x));
        match p_many(r, None, p) { PR::Ok(xs, s) => {
            let b = took(r, s);
            lem_fragment(q, i, b);
            lem_suff_trans(i, r, s);
            let ys = seq![x] + xs;
            assert(ys.subrange(1, ys.len() as int) =~= xs);
            lem_fold_front(ys, init, f);
            assert(init + piece(x) + unesc(q, b)->0 =~= init + (piece(x) + unesc(q, b)->0));
        } _ => {} }
    } } _ => {} }
}
pub broadcast proof fn lem_push_cat(a: Seq<u8>, c: u8) ensures #[trigger] a.push(c) == a + seq![c] { assert(a.push(c) =~= a + seq![c]); }
pub broadcast proof fn lem_cat_none(a: Seq<u8>, x: StringFragment) ensures x is EscapedWs ==> #[trigger] (a + piece(x)) == a { if x is EscapedWs { assert(a + piece(x) =~= a); } }
/// `t` is a quoted text that stands for `v`
pub open spec fn quoted(v: Seq<u8>, t: Seq<u8>) -> bool {
    exists|q: Quotes| t.len() >= 2 && t[0] == quote(q) && t.last() == quote(q) && #[trigger] unesc(q, t.subrange(1, t.len() - 1)) == Some(v)
}
pub broadcast proof fn lem_inside(q: Quotes, f: spec_fn(Seq<u8>, StringFragment) -> Seq<u8>, v: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(p_fold(p_repeat(0, None, parse_quoted_fragment(q)), Seq::<u8>::empty(), f), v, t), forall|a: Seq<u8>, x: StringFragment| #[trigger] f(a, x) == a + piece(x)
    ensures unesc(q, t) == Some(v)
{
    hide(parse_quoted_fragment);
    let e = Seq::<u8>::empty();
    let p = p_fold(p_repeat(0, None, parse_quoted_fragment(q)), e, f);
    let (i, r) = lem_reads(p, v, t);
    lem_pieces(q, i, f, e);
    assert(e + unesc(q, t)->0 =~= unesc(q, t)->0);
}
pub proof fn lem_sfx_inside(q: Quotes)
    ensures sfx(parse_quoted_fragment(q)), sfx(parse_quoted_string(q)), sfx(parse_string())
{
    broadcast use group_sfx;
    assert(sfx(parse_literal(Quotes::Single))); assert(sfx(parse_literal(Quotes::Double)));
    assert(sfx(parse_escaped_char(Quotes::Single))); assert(sfx(parse_escaped_char(Quotes::Double)));
    assert(sfx(parse_quoted_fragment(Quotes::Single))); assert(sfx(parse_quoted_fragment(Quotes::Double)));
    assert(sfx(parse_quoted_string(Quotes::Single))); assert(sfx(parse_quoted_string(Quotes::Double)));
}
pub broadcast proof fn lem_quoted(q: Quotes, v: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_quoted_string(q), v, t)
    ensures quoted(v, t)
{
    hide(parse_quoted_fragment);
    broadcast use sfx_byte, sfx_fold, sfx_repeat, reads_delimited, reads_byte, lem_inside, lem_push_cat, lem_cat_none;
    lem_sfx_inside(q);
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] cat3(t, a, b, c) && a.len() == 1 && c.len() == 1 implies t.len() >= 2 && t[0] == a[0] && t.last() == c[0] && t.subrange(1, t.len() - 1) == b
        by { assert(t.subrange(1, t.len() - 1) =~= b); }
    assert(Seq::<u8>::empty().len() == 0);
}
pub broadcast proof fn lem_string(v: Seq<u8>, t: Seq<u8>)
    requires #[trigger] reads(parse_string(), v, t)
    ensures quoted(v, t), utf8_ok(v)
{
    hide(parse_quoted_string);
    broadcast use reads_verify, reads_alt, reads_backtrack, lem_quoted;
}
/// a quoted text stands for what its characters and escapes say
pub proof fn ob_string(t: Seq<u8>)
    ensures p_parse(parse_string(), t) is Ok ==> quoted(p_parse(parse_string(), t)->Ok_0, t) && utf8_ok(p_parse(parse_string(), t)->Ok_0)
{
    hide(parse_string);
    lem_sfx_inside(Quotes::Single);
    lem_parse_reads(parse_string(), t);
    if p_parse(parse_string(), t) is Ok { lem_string(p_parse(parse_string(), t)->Ok_0, t); }
}
