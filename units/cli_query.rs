//@path csv::WriterBuilder::new = csv_builder
//@ret csv::WriterBuilder::new = CsvBuilder
//@path MatcherOptions::x_from = options_from
//@path translit::translit = translit_of
//@ret translit_of = spec_fn(Seq<u8>) -> Seq<u8>
//@tymap Outcome = Seq<Seq<Seq<u8>>>
//@ret ByteRecord::query = Seq<Seq<Seq<u8>>>
verus! {
//@type src/query.rs QueryOptions
pub struct Query { pub id: int }
impl Query { pub uninterp spec fn new(s: Seq<u8>) -> Result<Query, XErr>; }
/// the rows of a query on a record: C10
impl ByteRecord { pub uninterp spec fn query(self, q: Query, o: QueryOptions) -> Seq<Seq<Seq<u8>>>; }
impl QueryOptions {
//@fn src/query.rs Default for QueryOptions::default => x_default
//@fn src/query.rs QueryOptions::new => new
//@fn src/query.rs QueryOptions::strsim_threshold => strsim_threshold
//@fn src/query.rs QueryOptions::case_ignore => case_ignore
//@fn src/query.rs QueryOptions::separator => separator
//@fn src/query.rs QueryOptions::squash => squash
//@fn src/query.rs QueryOptions::merge => merge
}
impl MatcherOptions {
//@fn src/query.rs From<&QueryOptions> for MatcherOptions::from => from_query
}
pub trait XOptionsFrom: Sized { spec fn matcher_options(self) -> MatcherOptions; }
impl XOptionsFrom for FilterOpts { open spec fn matcher_options(self) -> MatcherOptions { MatcherOptions::x_from(self) } }
impl XOptionsFrom for QueryOptions { open spec fn matcher_options(self) -> MatcherOptions { MatcherOptions::from_query(self) } }
pub open spec fn options_from<T: XOptionsFrom>(t: T) -> MatcherOptions { t.matcher_options() }
/// the function of the same name, which a local variable shadows
pub open spec fn translit_of(nf: Option<NormForm>) -> spec_fn(Seq<u8>) -> Seq<u8> { translit(nf) }
pub type Row = Seq<Seq<u8>>;
pub open spec fn header_row(h: Seq<u8>) -> Row { let p = h.split(','); Seq::new(p.len(), |i: int| trim_ws(p[i])) }
}
