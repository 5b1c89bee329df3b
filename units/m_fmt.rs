//@include model.rs
//@include tagocc_m.rs
//@include subfield_m.rs
//@include seqlem_m.rs
//@include fmt_m.rs
pub mod fmt_code {
use super::*;
use super::fmt::*;
use super::seqlem::*;
verus! {
broadcast use group_x;
impl MatcherOptions {
    pub open spec fn x_from_FormatOptions(o: FormatOptions) -> MatcherOptions { matcher_options(o) }
//@fn src/fmt/mod.rs From<&FormatOptions> for MatcherOptions::from => code_from_fmt
}
impl Modifier {
//@fn src/fmt/mod.rs Modifier::modify => code_modify
}
impl Value {
//@fn src/fmt/mod.rs Value::fmt_field => code_fmt_field
}
impl List {
//@fn src/fmt/mod.rs List::fmt_field => code_fmt_field
}
impl Group {
//@fn src/fmt/mod.rs Group::fmt_field => code_fmt_field
}
impl Fragments {
//@fn src/fmt/mod.rs Fragments::fmt_field => code_fmt_field
}
impl Format {
//@fn src/fmt/mod.rs Format::fmt_field => code_fmt_field
}
impl RecordRef {
//@fn src/fmt/mod.rs FormatExt for RecordRef::format => code_format
}
//@helpers
proof fn lem_replacen(s: Seq<u8>)
    ensures replacen_byte(s, 64, Seq::empty(), 1) == without_at(s)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        lem_replacen(t);
        if s[0] == 64 { assert(replacen_byte(t, 64, Seq::empty(), 0) == t); assert(Seq::<u8>::empty() + t =~= t); }
    }
}
spec fn nosp() -> spec_fn(u8) -> Seq<u8> { |c: u8| if c == 32 { Seq::<u8>::empty() } else { seq![c] } }
proof fn lem_replace_spaces(s: Seq<u8>)
    ensures seq_flat(s.map_values(nosp())) == without_spaces(s)
    decreases s.len()
{
    let g = nosp();
    if s.len() == 0 { assert(s.map_values(g) =~= Seq::empty()); assert(without_spaces(s) =~= Seq::empty()) by { reveal(Seq::filter); } }
    else {
        lem_map_cons(s, g); lem_flat_cons(s.map_values(g)); lem_filter_cons(s, |c: u8| c != 32);
        assert(rest(s.map_values(g)) =~= rest(s).map_values(g));
        lem_replace_spaces(rest(s));
        assert(Seq::<u8>::empty() + without_spaces(rest(s)) =~= without_spaces(rest(s)));
    }
}
proof fn lem_replace(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires a =~= seq![32u8], b.len() == 0
    ensures s.x_replace(a, b) == without_spaces(s)
{
    lem_replace_spaces(s);
    assert(b =~= Seq::<u8>::empty());
    assert(a.len() == 1 && a[0] == 32);
    assert(s.map_values(replace_byte(32, b)) =~= s.map_values(nosp()));
}
proof fn ob_options(o: FormatOptions)
    ensures MatcherOptions::code_from_fmt(o) == matcher_options(o) { }
/// modifiers, in the documented order
proof fn ob_modify(m: Modifier, v: Seq<u8>)
    ensures m.code_modify(v) == m.modify(v)
{
    broadcast use {lem_modify_parts, lem_strip_parts};
}
pub broadcast proof fn lem_modify_parts(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures a =~= seq![32u8] && b.len() == 0 ==> (#[trigger] s.x_replace(a, b)) == without_spaces(s),
{ if a =~= seq![32u8] && b.len() == 0 { lem_replace(s, a, b); } }
pub broadcast proof fn lem_strip_parts(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>, n: int)
    ensures a =~= seq![64u8] && b.len() == 0 && n == 1 ==> (#[trigger] s.x_replacen(a, b, n)) == without_at(s),
{ if a =~= seq![64u8] && b.len() == 0 && n == 1 { lem_replacen(s); assert(b =~= Seq::<u8>::empty()); } }
type VS = (int, Seq<u8>);
spec fn vstep(v: Value, o: FormatOptions) -> spec_fn(VS, SubfieldRef) -> Ctl<VS, Seq<u8>> {
    |st: VS, x: SubfieldRef| if st.0 >= v.bounds.end { Ctl::Brk(st) } else if !v.codes.contains(x.0) { Ctl::Next(st) } else { Ctl::Next((st.0 + 1, st.1 + v.piece(x, o))) }
}
proof fn lem_value(v: Value, o: FormatOptions, ss: Seq<SubfieldRef>, f: spec_fn(VS, SubfieldRef) -> Ctl<VS, Seq<u8>>, cnt: int, acc: Seq<u8>)
    requires forall|st: VS, x: SubfieldRef| #[trigger] f(st, x) == vstep(v, o)(st, x)
    ensures match seq_for(ss, (cnt, acc), f) { Ctl::Next(s) => s.1 == acc + v.pieces(ss, v.bounds.end - cnt, o), Ctl::Brk(s) => s.1 == acc + v.pieces(ss, v.bounds.end - cnt, o), Ctl::Ret(_) => false }
    decreases ss.len()
{
    assert(acc + Seq::<u8>::empty() =~= acc);
    if ss.len() > 0 {
        let x = ss[0];
        assert(f((cnt, acc), x) == vstep(v, o)((cnt, acc), x));
        if cnt < v.bounds.end {
            if v.codes.contains(x.0) {
                lem_value(v, o, rest(ss), f, cnt + 1, acc + v.piece(x, o));
                assert(acc + v.piece(x, o) + v.pieces(rest(ss), v.bounds.end - (cnt + 1), o) =~= acc + (v.piece(x, o) + v.pieces(rest(ss), v.bounds.end - cnt - 1, o)));
            } else { lem_value(v, o, rest(ss), f, cnt, acc); }
        }
    }
}
proof fn lem_value_all(v: Value, o: FormatOptions, ss: Seq<SubfieldRef>)
    ensures forall|f: spec_fn(VS, SubfieldRef) -> Ctl<VS, Seq<u8>>| (forall|st: VS, x: SubfieldRef| #[trigger] f(st, x) == vstep(v, o)(st, x))
        ==> match #[trigger] seq_for(ss, (0int, Seq::<u8>::empty()), f) { Ctl::Next(s) => s.1 == v.pieces(ss, v.bounds.end, o), Ctl::Brk(s) => s.1 == v.pieces(ss, v.bounds.end, o), Ctl::Ret(_) => false }
{
    assert forall|f: spec_fn(VS, SubfieldRef) -> Ctl<VS, Seq<u8>>| (forall|st: VS, x: SubfieldRef| #[trigger] f(st, x) == vstep(v, o)(st, x))
        implies match #[trigger] seq_for(ss, (0int, Seq::<u8>::empty()), f) { Ctl::Next(s) => s.1 == v.pieces(ss, v.bounds.end, o), Ctl::Brk(s) => s.1 == v.pieces(ss, v.bounds.end, o), Ctl::Ret(_) => false } by {
        lem_value(v, o, ss, f, 0, Seq::empty());
        assert(Seq::<u8>::empty() + v.pieces(ss, v.bounds.end, o) =~= v.pieces(ss, v.bounds.end, o));
    }
}
/// the first N selected subfields, each with prefix and suffix
proof fn ob_value(v: Value, f: FieldRef, o: FormatOptions)
    ensures v.code_fmt_field(f, o) == v.fmt_field(f, o)
{
    broadcast use lem_strip_parts;
    lem_value_all(v, o, f.subfields);
    assert forall|a: Seq<u8>, x: SubfieldRef| #[trigger] (a + v.piece(x, o)) == a + opt_text(v.prefix) + (if o.strip_overread_char { without_at(x.1) } else { x.1 }) + opt_text(v.suffix) by {
        assert(a + v.piece(x, o) =~= a + opt_text(v.prefix) + (if o.strip_overread_char { without_at(x.1) } else { x.1 }) + opt_text(v.suffix));
    }
    assert forall|a: Seq<u8>| #[trigger] (a + Seq::<u8>::empty()) == a by { assert(a + Seq::<u8>::empty() =~= a); }
}
proof fn lem_concat_snoc(p: Seq<Seq<u8>>, x: Seq<u8>)
    ensures concat(p.push(x)) == concat(p) + x
    decreases p.len()
{
    reveal_with_fuel(concat, 3);
    if p.len() == 0 { assert(p.push(x).subrange(1, 1) =~= Seq::empty()); assert(x + Seq::<u8>::empty() =~= Seq::<u8>::empty() + x); }
    else {
        lem_concat_snoc(rest(p), x);
        assert(rest(p.push(x)) =~= rest(p).push(x));
        assert(p[0] + (concat(rest(p)) + x) =~= (p[0] + concat(rest(p))) + x);
    }
}
proof fn lem_parts(l: Seq<Fragments>, f: FieldRef, o: FormatOptions)
    ensures parts(l, f, o) =~= l.map_values(|x: Fragments| x.fmt_field(f, o)) { }
proof fn lem_cons(l: Seq<Fragments>, f: FieldRef, o: FormatOptions, g: spec_fn(Seq<u8>, Fragments) -> Seq<u8>)
    requires forall|a: Seq<u8>, x: Fragments| #[trigger] g(a, x) == a + x.fmt_field(f, o)
    ensures seq_fold(l, Seq::empty(), g) == concat(parts(l, f, o))
    decreases l.len()
{
    if l.len() > 0 {
        lem_cons(l.drop_last(), f, o, g);
        lem_concat_snoc(parts(l.drop_last(), f, o), l.last().fmt_field(f, o));
        assert(parts(l, f, o) =~= parts(l.drop_last(), f, o).push(l.last().fmt_field(f, o)));
    }
}
proof fn lem_until(l: Seq<Fragments>, f: FieldRef, o: FormatOptions, g: spec_fn(Seq<u8>, Fragments) -> Ctl<Seq<u8>, Seq<u8>>, acc: Seq<u8>)
    requires forall|a: Seq<u8>, x: Fragments| #[trigger] g(a, x) == (if x.fmt_field(f, o).len() == 0 { Ctl::Brk(a) } else { Ctl::Next(a + x.fmt_field(f, o)) })
    ensures match seq_for(l, acc, g) { Ctl::Next(s) => s == acc + concat_until_empty(parts(l, f, o)), Ctl::Brk(s) => s == acc + concat_until_empty(parts(l, f, o)), Ctl::Ret(_) => false }
    decreases l.len()
{
    assert(acc + Seq::<u8>::empty() =~= acc);
    if l.len() > 0 {
        let p = parts(l, f, o);
        assert(rest(p) =~= parts(rest(l), f, o));
        assert(p[0] == l[0].fmt_field(f, o));
        assert(g(acc, l[0]) == (if l[0].fmt_field(f, o).len() == 0 { Ctl::Brk(acc) } else { Ctl::Next(acc + l[0].fmt_field(f, o)) }));
        if p[0].len() > 0 {
            lem_until(rest(l), f, o, g, acc + p[0]);
            assert(acc + p[0] + concat_until_empty(rest(p)) =~= acc + (p[0] + concat_until_empty(rest(p))));
        }
    }
}
proof fn lem_list_all(l: Seq<Fragments>, f: FieldRef, o: FormatOptions)
    ensures
        forall|g: spec_fn(Seq<u8>, Fragments) -> Seq<u8>| (forall|a: Seq<u8>, x: Fragments| #[trigger] g(a, x) == a + x.fmt_field(f, o))
            ==> #[trigger] seq_fold(l, Seq::<u8>::empty(), g) == concat(parts(l, f, o)),
        forall|g: spec_fn(Seq<u8>, Fragments) -> Ctl<Seq<u8>, Seq<u8>>| (forall|a: Seq<u8>, x: Fragments| #[trigger] g(a, x) == (if x.fmt_field(f, o).len() == 0 { Ctl::Brk(a) } else { Ctl::Next(a + x.fmt_field(f, o)) }))
            ==> match #[trigger] seq_for(l, Seq::<u8>::empty(), g) { Ctl::Next(s) => s == concat_until_empty(parts(l, f, o)), Ctl::Brk(s) => s == concat_until_empty(parts(l, f, o)), Ctl::Ret(_) => false }
{
    assert forall|g: spec_fn(Seq<u8>, Fragments) -> Seq<u8>| (forall|a: Seq<u8>, x: Fragments| #[trigger] g(a, x) == a + x.fmt_field(f, o))
        implies #[trigger] seq_fold(l, Seq::<u8>::empty(), g) == concat(parts(l, f, o)) by { lem_cons(l, f, o, g); }
    assert forall|g: spec_fn(Seq<u8>, Fragments) -> Ctl<Seq<u8>, Seq<u8>>| (forall|a: Seq<u8>, x: Fragments| #[trigger] g(a, x) == (if x.fmt_field(f, o).len() == 0 { Ctl::Brk(a) } else { Ctl::Next(a + x.fmt_field(f, o)) }))
        implies match #[trigger] seq_for(l, Seq::<u8>::empty(), g) { Ctl::Next(s) => s == concat_until_empty(parts(l, f, o)), Ctl::Brk(s) => s == concat_until_empty(parts(l, f, o)), Ctl::Ret(_) => false } by {
        lem_until(l, f, o, g, Seq::empty());
        assert(Seq::<u8>::empty() + concat_until_empty(parts(l, f, o)) =~= concat_until_empty(parts(l, f, o)));
    }
}
/// `<*>` joins all parts, `<$>` those before the first empty one
proof fn ob_list(l: List, f: FieldRef, o: FormatOptions)
    ensures l.code_fmt_field(f, o) == l.fmt_field(f, o)
{
    match l { List::AndThen(x) => { lem_list_all(x, f, o); } List::Cons(x) => { lem_list_all(x, f, o); } }
}
proof fn ob_group(g: Group, f: FieldRef, o: FormatOptions)
    requires Fragments::Group(g).wf()
    ensures g.code_fmt_field(f, o) == g.fmt_field(f, o)
{ reveal_with_fuel(Fragments::fmt_field, 3); match *g.fragments { Fragments::Value(_) => { } Fragments::List(_) => { } Fragments::Group(_) => { } } }
proof fn ob_fragments(x: Fragments, f: FieldRef, o: FormatOptions)
    ensures x.code_fmt_field(f, o) == x.fmt_field(f, o) { }
/// an empty rendering is no value
proof fn ob_field(m: Format, f: FieldRef, o: FormatOptions)
    ensures m.code_fmt_field(f, o) == m.fmt_field(f, o) { }
spec fn adr(m: Format, o: FormatOptions) -> spec_fn(FieldRef) -> bool { |f: FieldRef| m.addresses(f, o) }
spec fn ren(m: Format, o: FormatOptions) -> spec_fn(FieldRef) -> Option<Seq<u8>> { |f: FieldRef| m.fmt_field(f, o) }
proof fn lem_values(m: Format, o: FormatOptions, fs: Seq<FieldRef>)
    ensures fs.filter(adr(m, o)).x_filter_map(ren(m, o)) == format_values(m, o, fs)
    decreases fs.len()
{
    let q = adr(m, o);
    let g = ren(m, o);
    if fs.len() == 0 {
        assert(fs.filter(q) =~= Seq::<FieldRef>::empty()) by { reveal(Seq::filter); }
        assert(Seq::<FieldRef>::empty().map_values(g) =~= Seq::empty());
    } else {
        lem_values(m, o, rest(fs));
        lem_ffm_cons(fs, q, g);
    }
}
/// the non-empty renderings of the addressed fields, in record order
proof fn ob_format(r: RecordRef, m: Format, o: FormatOptions)
    ensures r.code_format(m, o) == r.format(m, o)
{
    broadcast use group_sx;
    lem_values(m, o, r.0);
    assert(r.code_format(m, o) == r.0.filter(adr(m, o)).x_filter_map(ren(m, o)));
}
}
}
