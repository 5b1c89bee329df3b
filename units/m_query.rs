//@include model.rs
//@include tagocc_m.rs
//@include subfield_m.rs
//@include seqlem_m.rs
//@include path_m.rs
//@include fmt_m.rs
//@include query_m.rs
pub mod query_code {
use super::*;
use super::subfield::SubfieldMatcher;
use super::path::*;
use super::fmt::*;
use super::query::*;
use super::seqlem::*;
verus! {
impl MatcherOptions {
    pub open spec fn x_from_QueryOptions(o: QueryOptions) -> MatcherOptions { query_matcher_options(o) }
//@fn src/query.rs From<&QueryOptions> for MatcherOptions::from => code_from_query
}
impl FormatOptions {
//@fn src/fmt/mod.rs Default for FormatOptions::default => x_default
    pub open spec fn x_from_QueryOptions(o: QueryOptions) -> FormatOptions { query_format_options(o) }
//@fn src/query.rs From<&QueryOptions> for FormatOptions::from => code_from_query
}
impl Outcome {
//@fn src/query.rs Outcome::squash => code_squash
//@fn src/query.rs Outcome::merge => code_merge
//@fn src/query.rs Add for Outcome::add => code_add
//@fn src/query.rs Mul for Outcome::mul => code_mul
}
impl Fragment {
//@fn src/query.rs Fragment::query => code_query
}
impl RecordRef {
//@fn src/query.rs QueryExt for RecordRef::query => code_query
}
//@helpers
proof fn ob_options(o: QueryOptions)
    ensures MatcherOptions::code_from_query(o) == query_matcher_options(o), FormatOptions::code_from_query(o) == query_format_options(o) { }
proof fn ob_add(a: Outcome, b: Outcome)
    ensures a.code_add(b) == a.add(b) { }
spec fn mul_row(x: Row) -> spec_fn(Seq<Row>, Row) -> Seq<Row> { |rows: Seq<Row>, y: Row| rows.push(x + y) }
spec fn mul_all(b: Seq<Row>) -> spec_fn(Seq<Row>, Row) -> Seq<Row> { |rows: Seq<Row>, x: Row| seq_fold(b, rows, mul_row(x)) }
proof fn lem_mul_row(x: Row, b: Seq<Row>, rows: Seq<Row>)
    ensures seq_fold(b, rows, mul_row(x)) == rows + row_each(x, b)
    decreases b.len()
{
    if b.len() == 0 { assert(rows + row_each(x, b) =~= rows); }
    else {
        lem_mul_row(x, b.drop_last(), rows);
        assert(row_each(x, b) =~= row_each(x, b.drop_last()).push(x + b.last()));
        assert((rows + row_each(x, b.drop_last())).push(x + b.last()) =~= rows + row_each(x, b));
    }
}
proof fn lem_mul_all(a: Seq<Row>, b: Seq<Row>)
    ensures seq_fold(a, Seq::<Row>::empty(), mul_all(b)) == product(a, b)
    decreases a.len()
{
    if a.len() > 0 { lem_mul_all(a.drop_last(), b); lem_mul_row(a.last(), b, product(a.drop_last(), b)); }
}
/// the product of two row sets, the right one varying fastest
proof fn ob_mul(a: Outcome, b: Outcome)
    ensures a.code_mul(b) == a.mul(b)
{
    broadcast use group_mx;
    lem_mul_all(a.0, b.0);
    assert forall|rows: Seq<Row>, x: Row| #[trigger] seq_fold(b.0, rows, mul_row(x)) == seq_fold(b.0, rows, mul_row(x)) by { }
}

spec fn merge_row(sep: Seq<u8>) -> spec_fn(Row, Row) -> Row { |a: Row, e: Row| x_range(0, a.len() as int).map_values(|i: int| a[i] + sep + e[i]) }
proof fn lem_merge(rows: Seq<Row>, sep: Seq<u8>)
    requires rows.len() > 0
    ensures seq_fold(rest(rows), rows[0], merge_row(sep)) == merged(rows, sep)
    decreases rows.len()
{
    let f = merge_row(sep);
    if rows.len() == 1 {
        assert(rest(rows) =~= Seq::<Row>::empty());
        assert forall|i: int| 0 <= i < rows[0].len() implies #[trigger] rows[0][i] == joined(cell_column(rows, i), sep) by { assert(cell_column(rows, i)[0] == rows[0][i]); }
        assert(merged(rows, sep) =~= rows[0]);
    } else {
        let d = rows.drop_last();
        lem_merge(d, sep);
        assert(rest(rows).drop_last() =~= rest(d));
        assert(rest(rows).last() == rows.last());
        assert(d[0] == rows[0]);
        assert forall|i: int| 0 <= i < rows[0].len() implies joined(#[trigger] cell_column(d, i), sep) + sep + rows.last()[i] == joined(cell_column(rows, i), sep) by {
            let c = cell_column(rows, i);
            assert(c.drop_last() =~= cell_column(d, i));
            assert(c.last() == rows.last()[i]);
        }
        assert(f(merged(d, sep), rows.last()) =~= merged(rows, sep));
    }
}
/// all rows become one, joined per column
proof fn ob_merge(a: Outcome, sep: Seq<u8>)
    requires a.0.len() > 0
    ensures a.code_merge(sep) == a.merge(sep)
{
    broadcast use group_mx;
    lem_merge(a.0, sep);
}
spec fn sq(sep: Seq<u8>) -> spec_fn(Seq<u8>, (int, Seq<u8>)) -> Seq<u8> { |v: Seq<u8>, p: (int, Seq<u8>)| (if p.0 > 0 { v + sep } else { v }) + p.1 }
proof fn lem_squash(v: Seq<Seq<u8>>, sep: Seq<u8>)
    ensures seq_fold(v.x_enumerate(), Seq::<u8>::empty(), sq(sep)) == joined(v, sep)
    decreases v.len()
{
    reveal_with_fuel(seq_fold, 3);
    if v.len() > 0 {
        lem_squash(v.drop_last(), sep);
        assert(v.x_enumerate().drop_last() =~= v.drop_last().x_enumerate());
        if v.len() == 1 { assert(v.drop_last().x_enumerate() =~= Seq::empty()); assert(Seq::<u8>::empty() + v[0] =~= v[0]); }
    } else { assert(v.x_enumerate() =~= Seq::empty()); }
}
/// all texts become one, joined by the separator
proof fn ob_squash(a: Outcome, sep: Seq<u8>)
    ensures a.code_squash(sep) == a.squash(sep)
{
    broadcast use group_mx;
    lem_squash(a.0.flatten(), sep);
}
proof fn lem_flatten_singles(v: Seq<Seq<u8>>)
    ensures singles(v).flatten() == v
    decreases v.len()
{
    reveal_with_fuel(Seq::flatten, 3);
    if v.len() == 0 { assert(singles(v).flatten() =~= v); }
    else {
        lem_flatten_singles(rest(v));
        assert(singles(v).drop_first() =~= singles(rest(v)));
        assert(singles(v)[0] + rest(v) =~= v);
        assert(singles(v).first() == seq![v[0]]);
        assert(singles(v).flatten() == singles(v).first() + singles(v).drop_first().flatten());
    }
}
/// the outcome of one code list
spec fn colf(ss: Seq<SubfieldRef>, o: QueryOptions) -> spec_fn(Seq<char>) -> Outcome {
    |c: Seq<char>| Outcome(singles(column(c, ss, o)))
}
proof fn lem_col(c: Seq<char>, ss: Seq<SubfieldRef>, o: QueryOptions)
    ensures
        singles(seq![Seq::<u8>::empty()]) =~= seq![seq![Seq::<u8>::empty()]],
        column(c, ss, o).len() > 0,
        ({ let v = list_values(c, ss);
           let w = if v.len() == 0 { Outcome(seq![seq![Seq::<u8>::empty()]]) } else { Outcome(singles(v)) };
           colf(ss, o)(c) == (if o.squash { w.squash(o.separator) } else { w }) }),
{
    let v = list_values(c, ss);
    let e = seq![Seq::<u8>::empty()];
    assert(singles(e) =~= seq![e]);
    lem_flatten_singles(v); lem_flatten_singles(e);
    let v2 = if v.len() == 0 { e } else { v };
    assert(singles(seq![joined(v2, o.separator)]) =~= seq![seq![joined(v2, o.separator)]]);
}
spec fn cols(cs: Seq<Seq<char>>, ss: Seq<SubfieldRef>, o: QueryOptions) -> Seq<Seq<Seq<u8>>> { cs.map_values(|c: Seq<char>| column(c, ss, o)) }
proof fn lem_product_unit(b: Seq<Row>)
    ensures product(seq![Seq::<Seq<u8>>::empty()], b) == b
{
    reveal_with_fuel(product, 3);
    let a = seq![Seq::<Seq<u8>>::empty()];
    assert(a.drop_last() =~= Seq::<Row>::empty());
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] row_each(a.last(), b)[i] == b[i] by { assert(a.last() + b[i] =~= b[i]); }
    assert(row_each(a.last(), b) =~= b);
    assert(Seq::<Row>::empty() + b =~= b);
}
proof fn lem_product_len(a: Seq<Row>, b: Seq<Row>)
    requires a.len() > 0, b.len() > 0
    ensures product(a, b).len() > 0
{ }
proof fn lem_combos(cs: Seq<Seq<char>>, ss: Seq<SubfieldRef>, o: QueryOptions, g: spec_fn(Outcome, Outcome) -> Outcome)
    requires cs.len() > 0, forall|a: Outcome, b: Outcome| #[trigger] g(a, b) == a.mul(b)
    ensures
        seq_fold(cs.map_values(colf(ss, o)), Outcome::x_default(), g) == Outcome(combos(cols(cs, ss, o))),
        combos(cols(cs, ss, o)).len() > 0,
    decreases cs.len()
{
    reveal_with_fuel(combos, 3);
    reveal_with_fuel(seq_fold, 3);
    let m = cs.map_values(colf(ss, o));
    let d = cs.drop_last();
    lem_col(cs.last(), ss, o);
    assert(m.drop_last() =~= d.map_values(colf(ss, o)));
    assert(cols(cs, ss, o).drop_last() =~= cols(d, ss, o));
    let l = singles(column(cs.last(), ss, o));
    assert(l.len() > 0);
    if cs.len() == 1 {
        lem_product_unit(l);
        assert(m.drop_last() =~= Seq::<Outcome>::empty());
        assert(g(Outcome::x_default(), m.last()) == m.last());
    } else {
        lem_combos(d, ss, o, g);
        lem_product_len(combos(cols(d, ss, o)), l);
    }
}
spec fn adr(p: PicaPath, o: QueryOptions) -> spec_fn(FieldRef) -> bool { |f: FieldRef| path_field(p, query_matcher_options(o), f) }
spec fn fieldf(p: PicaPath, o: QueryOptions) -> spec_fn(FieldRef) -> Outcome { |f: FieldRef| Outcome(combos(columns(p, f.subfields, o))) }
proof fn lem_path_rows(p: PicaPath, o: QueryOptions, fs: Seq<FieldRef>, g: spec_fn(Outcome, Outcome) -> Outcome)
    requires forall|a: Outcome, b: Outcome| #[trigger] g(a, b) == a.add(b)
    ensures seq_fold(fs.filter(adr(p, o)).map_values(fieldf(p, o)), Outcome::x_default(), g) == Outcome(path_rows(p, fs, o))
    decreases fs.len()
{
    hide(path_field);
    let q = adr(p, o);
    if fs.len() == 0 { assert(fs.filter(q) =~= Seq::<FieldRef>::empty()) by { reveal(Seq::filter); } assert(fs.filter(q).map_values(fieldf(p, o)) =~= Seq::<Outcome>::empty()); }
    else {
        let d = fs.drop_last();
        lem_path_rows(p, o, d, g);
        lem_filter_last(fs, q);
        if q(fs.last()) {
            let w = fs.filter(q).map_values(fieldf(p, o));
            assert(w.drop_last() =~= d.filter(q).map_values(fieldf(p, o)));
            assert(w.last() == fieldf(p, o)(fs.last()));
        }
    }
}
proof fn lem_folds(p: PicaPath, o: QueryOptions, fs: Seq<FieldRef>)
    requires p.codes.len() > 0
    ensures
        forall|g: spec_fn(Outcome, Outcome) -> Outcome| (forall|a: Outcome, b: Outcome| #[trigger] g(a, b) == a.add(b))
            ==> #[trigger] seq_fold(fs.filter(adr(p, o)).map_values(fieldf(p, o)), Outcome::x_default(), g) == Outcome(path_rows(p, fs, o)),
        forall|g: spec_fn(Outcome, Outcome) -> Outcome, ss: Seq<SubfieldRef>| (forall|a: Outcome, b: Outcome| #[trigger] g(a, b) == a.mul(b))
            ==> #[trigger] seq_fold(p.codes.map_values(colf(ss, o)), Outcome::x_default(), g) == Outcome(combos(columns(p, ss, o))),
{
    assert forall|g: spec_fn(Outcome, Outcome) -> Outcome| (forall|a: Outcome, b: Outcome| #[trigger] g(a, b) == a.add(b))
        implies #[trigger] seq_fold(fs.filter(adr(p, o)).map_values(fieldf(p, o)), Outcome::x_default(), g) == Outcome(path_rows(p, fs, o)) by { lem_path_rows(p, o, fs, g); }
    assert forall|g: spec_fn(Outcome, Outcome) -> Outcome, ss: Seq<SubfieldRef>| (forall|a: Outcome, b: Outcome| #[trigger] g(a, b) == a.mul(b))
        implies #[trigger] seq_fold(p.codes.map_values(colf(ss, o)), Outcome::x_default(), g) == Outcome(combos(columns(p, ss, o))) by {
        lem_combos(p.codes, ss, o, g);
        assert(cols(p.codes, ss, o) =~= columns(p, ss, o));
    }
}
proof fn lem_ext(p: PicaPath, o: QueryOptions, fs: Seq<FieldRef>)
    ensures
        forall|a: spec_fn(FieldRef) -> bool| (forall|f: FieldRef| #[trigger] a(f) == adr(p, o)(f)) ==> #[trigger] fs.filter(a) == fs.filter(adr(p, o)),
        forall|a: spec_fn(FieldRef) -> bool, b: spec_fn(FieldRef) -> bool| (forall|f: FieldRef| (#[trigger] a(f) && b(f)) == adr(p, o)(f)) ==> #[trigger] fs.filter(a).filter(b) == fs.filter(adr(p, o)),
        forall|s: Seq<FieldRef>, h: spec_fn(FieldRef) -> Outcome| (forall|f: FieldRef| #[trigger] h(f) == fieldf(p, o)(f)) ==> #[trigger] s.map_values(h) == s.map_values(fieldf(p, o)),
        forall|s: Seq<Seq<char>>, h: spec_fn(Seq<char>) -> Outcome, ss: Seq<SubfieldRef>| #![trigger s.map_values(h), columns(p, ss, o)]
            (forall|c: Seq<char>| #[trigger] h(c) == colf(ss, o)(c)) ==> s.map_values(h) == s.map_values(colf(ss, o)),
        forall|s: Seq<Seq<char>>, h: spec_fn(Seq<char>) -> Seq<Seq<u8>>, k: spec_fn(Seq<Seq<u8>>) -> Outcome, ss: Seq<SubfieldRef>| #![trigger s.map_values(h).map_values(k), columns(p, ss, o)]
            (forall|c: Seq<char>| k(#[trigger] h(c)) == colf(ss, o)(c)) ==> s.map_values(h).map_values(k) == s.map_values(colf(ss, o)),
        forall|s: Seq<Seq<char>>, h: spec_fn(Seq<char>) -> Outcome, k: spec_fn(Outcome) -> Outcome, ss: Seq<SubfieldRef>| #![trigger s.map_values(h).map_values(k), columns(p, ss, o)]
            (forall|c: Seq<char>| k(#[trigger] h(c)) == colf(ss, o)(c)) ==> s.map_values(h).map_values(k) == s.map_values(colf(ss, o)),
        forall|s: Seq<Seq<char>>, h: spec_fn(Seq<char>) -> Seq<Seq<u8>>, k: spec_fn(Seq<Seq<u8>>) -> Outcome, l: spec_fn(Outcome) -> Outcome, ss: Seq<SubfieldRef>| #![trigger s.map_values(h).map_values(k).map_values(l), columns(p, ss, o)]
            (forall|c: Seq<char>| l(k(#[trigger] h(c))) == colf(ss, o)(c)) ==> s.map_values(h).map_values(k).map_values(l) == s.map_values(colf(ss, o)),
        forall|s: Seq<SubfieldRef>, h: spec_fn(SubfieldRef) -> Seq<u8>, k: spec_fn(Seq<u8>) -> Seq<u8>| (forall|x: SubfieldRef| k(#[trigger] h(x)) == x.1) ==> #[trigger] s.map_values(h).map_values(k) == s.map_values(value_of()),
        forall|s: Seq<SubfieldRef>, a: spec_fn(SubfieldRef) -> bool, c: Seq<char>| #![trigger s.filter(a), list_values(c, s)] (forall|x: SubfieldRef| #[trigger] a(x) == c.contains(x.0)) ==> s.filter(a) == s.filter(code_in(c)),
        forall|s: Seq<SubfieldRef>, h: spec_fn(SubfieldRef) -> Seq<u8>| (forall|x: SubfieldRef| #[trigger] h(x) == x.1) ==> #[trigger] s.map_values(h) == s.map_values(value_of()),
        forall|v: Seq<Seq<u8>>, h: spec_fn(Seq<u8>) -> Row| (forall|x: Seq<u8>| #[trigger] h(x) == seq![x]) ==> #[trigger] v.map_values(h) == singles(v),
{
    broadcast use {lem_filter_ext, lem_m_ext, lem_mm};
    assert forall|a: spec_fn(FieldRef) -> bool, b: spec_fn(FieldRef) -> bool| (forall|f: FieldRef| (#[trigger] a(f) && b(f)) == adr(p, o)(f)) implies #[trigger] fs.filter(a).filter(b) == fs.filter(adr(p, o)) by { lem_filter_filter(fs, a, b); }
}
/// a path contributes, per addressed field in record order, all combinations of its columns
proof fn ob_fragment(f: Fragment, r: RecordRef, o: QueryOptions)
    requires f.wf()
    ensures f.code_query(r, o) == f.query(r, o)
{
    hide(SubfieldMatcher::is_match); hide(TagMatcher::is_match); hide(OccurrenceMatcher::is_match);
    hide(combos); hide(path_rows); hide(column);
    match f {
        Fragment::Path(p) => {
            lem_folds(p, o, r.0);
            lem_ext(p, o, r.0);
            assert forall|ss: Seq<SubfieldRef>, c: Seq<char>| #[trigger] colf(ss, o)(c) == ({ let v = list_values(c, ss);
                   let w = if v.len() == 0 { Outcome(seq![seq![Seq::<u8>::empty()]]) } else { Outcome(singles(v)) };
                   (if o.squash { w.squash(o.separator) } else { w }) }) by { lem_col(c, ss, o); }
            assert(f.code_query(r, o) == f.query(r, o));
        }
        Fragment::Format(m) => {
            let v = r.format(m, query_format_options(o));
            assert forall|v: Seq<Seq<u8>>, h: spec_fn(Seq<u8>) -> Row| (forall|i: int| 0 <= i < v.len() ==> #[trigger] h(v[i]) == seq![v[i]]) implies #[trigger] v.map_values(h) == singles(v) by { assert(v.map_values(h) =~= singles(v)); }
        }
        _ => { }
    }
}
spec fn fragf(r: RecordRef, o: QueryOptions) -> spec_fn(Fragment) -> Outcome { |f: Fragment| Outcome(fragment_rows(f, r, o)) }
proof fn lem_rows(fs: Seq<Fragment>, r: RecordRef, o: QueryOptions, g: spec_fn(Outcome, Outcome) -> Outcome)
    requires fs.len() > 0, forall|a: Outcome, b: Outcome| #[trigger] g(a, b) == a.mul(b)
    ensures
        seq_fold(rest(fs.map_values(fragf(r, o))), fs.map_values(fragf(r, o))[0], g) == Outcome(query_rows(fs, r, o)),
        query_rows(fs, r, o).len() > 0,
    decreases fs.len()
{
    let m = fs.map_values(fragf(r, o));
    lem_fragment_nonempty(fs.last(), r, o);
    if fs.len() == 1 { assert(rest(m) =~= Seq::<Outcome>::empty()); }
    else {
        let d = fs.drop_last();
        lem_rows(d, r, o, g);
        assert(rest(m).drop_last() =~= rest(d.map_values(fragf(r, o))));
        assert(rest(m).last() == fragf(r, o)(fs.last()));
        lem_product_len(query_rows(d, r, o), fragment_rows(fs.last(), r, o));
    }
}
proof fn lem_fragment_nonempty(f: Fragment, r: RecordRef, o: QueryOptions)
    ensures fragment_rows(f, r, o).len() > 0
{ hide(Fragment::rows); reveal(Fragment::rows); }
/// all combinations of the fragments' rows
proof fn ob_query(q: Query, r: RecordRef, o: QueryOptions)
    requires q.wf()
    ensures r.code_query(q, o) == Outcome(query_rows(q.fragments, r, o))
{
    hide(Fragment::rows);
    let s = q.fragments;
    broadcast use lem_m_ext;
    assert forall|h: spec_fn(Fragment) -> Outcome, k: spec_fn(Outcome) -> Outcome|
        (forall|f: Fragment| k(#[trigger] h(f)) == fragf(r, o)(f)) implies #[trigger] s.map_values(h).map_values(k) == s.map_values(fragf(r, o)) by { assert(s.map_values(h).map_values(k) =~= s.map_values(fragf(r, o))); }
    assert forall|h: spec_fn(Fragment) -> Outcome| (forall|f: Fragment| (#[trigger] h(f)) == fragf(r, o)(f)) implies #[trigger] s.map_values(h) == s.map_values(fragf(r, o)) by { }
    let m = s.map_values(fragf(r, o));
    assert forall|g: spec_fn(Outcome, Outcome) -> Outcome| (forall|a: Outcome, b: Outcome| #[trigger] g(a, b) == a.mul(b))
        implies #[trigger] seq_fold(m.subrange(1, m.len() as int), m[0], g) == Outcome(query_rows(s, r, o)) by { lem_rows(s, r, o, g); }
    assert(m.len() > 0);
    assert forall|f: Fragment| #[trigger] fragf(r, o)(f) == (if o.merge { f.query(r, o).merge(o.separator) } else { f.query(r, o) }) by { }
    assert(m.x_reduce(|a: Outcome, b: Outcome| a.mul(b)) == Some(Outcome(query_rows(s, r, o))));
}
}
}
