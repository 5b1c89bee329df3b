//@tymap Box<PicaPath> = PicaPath
//@tymap Box<Format> = Format
//@tymap T = Seq<u8>
//@tymap Outcome<BString> = Outcome
//@tymap Outcome<T> = Outcome
//@tymap QueryExt = RecordRef
//@tymap Self::Output = Outcome
pub mod query {
use super::*;
use super::path::*;
use super::fmt::*;
use super::subfield::SubfieldMatcher;
verus! {
broadcast use group_x;
//@type src/query.rs Query
//@type src/query.rs Fragment
//@type src/query.rs QueryOptions
//@type src/query.rs Outcome
pub open spec fn query_matcher_options(o: QueryOptions) -> MatcherOptions { MatcherOptions { strsim_threshold: o.strsim_threshold, case_ignore: o.case_ignore } }
pub open spec fn query_format_options(o: QueryOptions) -> FormatOptions { FormatOptions { strip_overread_char: false, strsim_threshold: o.strsim_threshold, case_ignore: o.case_ignore } }
pub type Row = Seq<Seq<u8>>;
/// values joined by a separator
pub open spec fn joined(v: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { joined(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn row_each(x: Row, b: Seq<Row>) -> Seq<Row> { b.map_values(|y: Row| x + y) }
/// all combinations, the right operand varying fastest
pub open spec fn product(a: Seq<Row>, b: Seq<Row>) -> Seq<Row> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else { product(a.drop_last(), b) + row_each(a.last(), b) }
}
/// all combinations of one value per column, the last column varying fastest
pub open spec fn combos(cols: Seq<Seq<Seq<u8>>>) -> Seq<Row> decreases cols.len() {
    if cols.len() == 0 { seq![Seq::empty()] } else { product(combos(cols.drop_last()), singles(cols.last())) }
}
pub open spec fn singles(v: Seq<Seq<u8>>) -> Seq<Row> { v.map_values(|x: Seq<u8>| seq![x]) }
/// the values of a code list within a field
pub open spec fn list_values(codes: Seq<char>, ss: Seq<SubfieldRef>) -> Seq<Seq<u8>> {
    ss.filter(code_in(codes)).map_values(value_of())
}
pub open spec fn code_in(codes: Seq<char>) -> spec_fn(SubfieldRef) -> bool { |s: SubfieldRef| codes.contains(s.0) }
pub open spec fn value_of() -> spec_fn(SubfieldRef) -> Seq<u8> { |s: SubfieldRef| s.1 }
/// a column: the values, one empty text if there is none, one joined text with squash
pub open spec fn column(codes: Seq<char>, ss: Seq<SubfieldRef>, o: QueryOptions) -> Seq<Seq<u8>> {
    let v = list_values(codes, ss);
    let v = if v.len() == 0 { seq![Seq::<u8>::empty()] } else { v };
    if o.squash { seq![joined(v, o.separator)] } else { v }
}
pub open spec fn columns(p: PicaPath, ss: Seq<SubfieldRef>, o: QueryOptions) -> Seq<Seq<Seq<u8>>> {
    p.codes.map_values(|c: Seq<char>| column(c, ss, o))
}
pub open spec fn path_rows(p: PicaPath, fs: Seq<FieldRef>, o: QueryOptions) -> Seq<Row> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else {
        let r = path_rows(p, fs.drop_last(), o);
        if path_field(p, query_matcher_options(o), fs.last()) { r + combos(columns(p, fs.last().subfields, o)) } else { r }
    }
}
impl Fragment {
    /// the grammar gives a path at least one code list
    pub open spec fn wf(self) -> bool { match self { Fragment::Path(p) => p.codes.len() > 0, _ => true } }
    pub open spec fn rows(self, r: RecordRef, o: QueryOptions) -> Seq<Row> {
        match self {
            Fragment::Literal(t) => seq![seq![t]],
            Fragment::Format(f) => {
                let v = r.format(f, query_format_options(o));
                if v.len() == 0 { seq![seq![Seq::<u8>::empty()]] } else { singles(v) }
            }
            Fragment::Path(p) => {
                let v = path_rows(p, r.0, o);
                if v.len() == 0 { seq![x_repeat(Seq::<u8>::empty(), p.codes.len() as int)] } else { v }
            }
        }
    }
    pub open spec fn query(self, r: RecordRef, o: QueryOptions) -> Outcome { Outcome(self.rows(r, o)) }
}
/// all rows as one, joined per column
pub open spec fn merged(rows: Seq<Row>, sep: Seq<u8>) -> Row {
    Seq::new(rows[0].len(), |i: int| joined(cell_column(rows, i), sep))
}
pub open spec fn cell_column(rows: Seq<Row>, i: int) -> Seq<Seq<u8>> { rows.map_values(|r: Row| r[i]) }
pub open spec fn fragment_rows(f: Fragment, r: RecordRef, o: QueryOptions) -> Seq<Row> {
    if o.merge { seq![merged(f.rows(r, o), o.separator)] } else { f.rows(r, o) }
}
/// all combinations of the fragments' rows
pub open spec fn query_rows(fs: Seq<Fragment>, r: RecordRef, o: QueryOptions) -> Seq<Row> decreases fs.len() {
    if fs.len() <= 1 { fragment_rows(fs[0], r, o) } else { product(query_rows(fs.drop_last(), r, o), fragment_rows(fs.last(), r, o)) }
}
impl Outcome {
    /// derived
    pub open spec fn x_default() -> Outcome { Outcome(Seq::empty()) }
    pub open spec fn squash(self, sep: Seq<u8>) -> Outcome { Outcome(seq![seq![joined(self.0.flatten(), sep)]]) }
    pub open spec fn merge(self, sep: Seq<u8>) -> Outcome { Outcome(seq![merged(self.0, sep)]) }
    pub open spec fn add(self, rhs: Outcome) -> Outcome { Outcome(self.0 + rhs.0) }
    pub open spec fn mul(self, rhs: Outcome) -> Outcome {
        if self.0.len() == 0 { rhs } else if rhs.0.len() == 0 { self } else { Outcome(product(self.0, rhs.0)) }
    }
}
impl Query { pub open spec fn wf(self) -> bool { self.fragments.len() > 0 && forall|i: int| 0 <= i < self.fragments.len() ==> (#[trigger] self.fragments[i]).wf() } }
}
}
