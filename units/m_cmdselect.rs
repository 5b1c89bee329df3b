//@include cli_m.rs
//@include cli_opts.rs
//@include cli_sink.rs
//@include cli_csv.rs
//@nomut finish
//@mut hash 0
//@path csv::WriterBuilder::new = csv_builder
//@ret csv::WriterBuilder::new = CsvBuilder
//@path MatcherOptions::x_from = options_from
//@path translit::translit = translit_of
//@ret DefaultHasher::new = DefaultHasher
//@ret DefaultHasher::finish = int
//@ret translit_of = spec_fn(Seq<u8>) -> Seq<u8>
//@tymap Outcome = Seq<Seq<Seq<u8>>>
//@ret ByteRecord::query = Seq<Seq<Seq<u8>>>
verus! {
//@type crates/pica-cli/src/commands/select.rs Quotes
//@type crates/pica-cli/src/commands/select.rs Select
//@type src/query.rs QueryOptions
pub struct Query { pub id: int }
impl Query { pub uninterp spec fn new(s: Seq<u8>) -> Result<Query, XErr>; }
/// the rows of a query on a record: C10
impl ByteRecord { pub uninterp spec fn query(self, q: Query, o: QueryOptions) -> Seq<Seq<Seq<u8>>>; }
impl QueryOptions {
//@fn src/query.rs Default for QueryOptions::default => x_default
//@fn src/query.rs QueryOptions::strsim_threshold => strsim_threshold
//@fn src/query.rs QueryOptions::case_ignore => case_ignore
//@fn src/query.rs QueryOptions::separator => separator
//@fn src/query.rs QueryOptions::squash => squash
//@fn src/query.rs QueryOptions::merge => merge
}
impl MatcherOptions {
//@fn src/query.rs From<&QueryOptions> for MatcherOptions::from => from_query
}
pub trait XOptionsFrom: Sized { spec fn matcher_options(self) -> MatcherOptions; }
impl XOptionsFrom for FilterOpts { open spec fn matcher_options(self) -> MatcherOptions { MatcherOptions::x_from(self) } }
impl XOptionsFrom for QueryOptions { open spec fn matcher_options(self) -> MatcherOptions { MatcherOptions::from_query(self) } }
pub open spec fn options_from<T: XOptionsFrom>(t: T) -> MatcherOptions { t.matcher_options() }
impl QuoteStyle {
//@fn crates/pica-cli/src/commands/select.rs From<Quotes> for QuoteStyle::from => x_from
}
/// the function of the same name, which a local variable shadows
pub open spec fn translit_of(nf: Option<NormForm>) -> spec_fn(Seq<u8>) -> Seq<u8> { translit(nf) }
/// a 64-bit digest of a row
pub struct DefaultHasher { pub rows: Seq<Seq<Seq<u8>>> }
pub uninterp spec fn digest(rows: Seq<Seq<Seq<u8>>>) -> int;
impl DefaultHasher {
    pub open spec fn new() -> DefaultHasher { DefaultHasher { rows: Seq::empty() } }
    pub open spec fn finish(self) -> int { digest(self.rows) }
}
pub trait XHash: Sized { spec fn hash(self, h: DefaultHasher) -> DefaultHasher; }
impl XHash for Seq<Seq<u8>> { open spec fn hash(self, h: DefaultHasher) -> DefaultHasher { DefaultHasher { rows: h.rows.push(self) } } }
//@fn crates/pica-cli/src/commands/select.rs writer => writer free
impl Select {
//@fn crates/pica-cli/src/commands/select.rs Select::execute => execute out=writer ret=Result<CsvWriter,~XErr>
}
//@helpers
}
verus! {
pub type Row = Seq<Seq<u8>>;
pub open spec fn blank(r: Row) -> bool { forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i].len() == 0 }
pub open spec fn gap(r: Row) -> bool { exists|i: int| 0 <= i < r.len() && #[trigger] r[i].len() == 0 }
pub open spec fn row_id(r: Row) -> int { digest(seq![r]) }
pub open spec fn before(cs: Seq<Row>, r: Row) -> bool { exists|i: int| 0 <= i < cs.len() && #[trigger] cs[i] == r }
pub open spec fn header_row(h: Seq<u8>) -> Row { let p = h.split(','); Seq::new(p.len(), |i: int| trim_ws(p[i])) }
impl Select {
    pub open spec fn query_opts(self) -> QueryOptions {
        QueryOptions { case_ignore: self.filter_opts.ignore_case, strsim_threshold: self.filter_opts.opts().strsim, separator: self.separator, squash: self.squash, merge: self.merge }
    }
    pub open spec fn query_of(self, config: Config) -> Result<Query, XErr> { Query::new(translit(config.normalization)(self.query)) }
    /// the text of a written row
    pub open spec fn shown(self, r: Row) -> Row { if self.nf is None { r } else { r.map_values(translit(self.nf)) } }
    /// whether a row is left out, given the rows before it
    pub open spec fn left_out(self, cs: Seq<Row>, r: Row) -> bool { blank(r) || self.no_empty_columns && gap(r) || self.unique && before(cs, r) }
    /// the rows written for the rows of the query
    pub open spec fn lines(self, cs: Seq<Row>) -> Seq<Row> decreases cs.len() {
        if cs.len() == 0 { Seq::empty() } else if self.left_out(cs.drop_last(), cs.last()) { self.lines(cs.drop_last()) } else { self.lines(cs.drop_last()).push(self.shown(cs.last())) }
    }
    pub open spec fn ids(self, cs: Seq<Row>) -> Set<int> decreases cs.len() {
        if cs.len() == 0 || !self.unique { Set::empty() } else if self.no_empty_columns && gap(cs.last()) { self.ids(cs.drop_last()) } else { self.ids(cs.drop_last()).insert(row_id(cs.last())) }
    }
    pub open spec fn writer(self, s: Sink) -> CsvWriter {
        let w = CsvWriter { sink: s, delim: if self.tsv { 9u8 } else { 44u8 }, quote: Some(QuoteStyle::x_from(self.quote_style)), rows: Seq::empty(), done: false };
        match self.header { Some(h) => w.write_record(header_row(h)), None => w }
    }
}
/// different rows have different digests
pub open spec fn no_collision() -> bool { forall|a: Row, b: Row| #[trigger] row_id(a) == #[trigger] row_id(b) ==> a == b }
proof fn lem_ids(c: Select, cs: Seq<Row>, r: Row)
    requires no_collision(), c.unique, !(c.no_empty_columns && gap(r))
    ensures c.ids(cs).contains(row_id(r)) == before(cs, r)
    decreases cs.len()
{
    if cs.len() > 0 {
        let p = cs.drop_last();
        lem_ids(c, p, r);
        if before(p, r) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == r; assert(cs[i] == p[i]); }
        if cs.last() == r { assert(cs[cs.len() - 1] == r); }
        if before(cs, r) { let i = choose|i: int| 0 <= i < cs.len() && #[trigger] cs[i] == r; if i < p.len() { assert(p[i] == cs[i]); } }
    }
}
/// the query's rows on the records
pub open spec fn rows_of(q: Query, o: QueryOptions, rs: Seq<ByteRecord>) -> Seq<Row> decreases rs.len() { if rs.len() == 0 { Seq::empty() } else { rows_of(q, o, rs.drop_last()) + rs.last().query(q, o) } }
pub type RState = (Set<int>, CsvWriter);
pub type SState = (int, Set<int>, CsvWriter);
/// one row
pub open spec fn r_next(c: Select, st: RState, r: Row) -> RState {
    if c.no_empty_columns && gap(r) || c.unique && st.0.contains(row_id(r)) { st } else {
        (if c.unique { st.0.insert(row_id(r)) } else { st.0 }, if blank(r) { st.1 } else { st.1.write_record(c.shown(r)) })
    }
}
pub open spec fn r_all(c: Select, st: RState, rs: Seq<Row>) -> RState decreases rs.len() { if rs.len() == 0 { st } else { r_all(c, r_next(c, st, rs[0]), rs.subrange(1, rs.len() as int)) } }
pub open spec fn the_cmd(c: Select) -> bool { true }
pub broadcast proof fn lem_r_for<R>(c: Select, st: RState, rs: Seq<Row>, f: spec_fn(RState, Row) -> Ctl<RState, R>)
    requires forall|a: RState, r: Row| #[trigger] f(a, r) == Ctl::<RState, R>::Next(r_next(c, a, r))
    ensures #![trigger seq_for(rs, st, f), the_cmd(c)] seq_for(rs, st, f) == Ctl::<RState, R>::Next(r_all(c, st, rs))
    decreases rs.len()
{
    if rs.len() > 0 { assert(f(st, rs[0]) == Ctl::<RState, R>::Next(r_next(c, st, rs[0]))); lem_r_for(c, r_next(c, st, rs[0]), rs.subrange(1, rs.len() as int), f); }
}
pub open spec fn r_of(c: Select, w: CsvWriter, cs: Seq<Row>) -> RState { (c.ids(cs), w.with(c.lines(cs))) }
proof fn lem_r_next(c: Select, w: CsvWriter, cs: Seq<Row>, r: Row)
    requires no_collision()
    ensures r_next(c, r_of(c, w, cs), r) == r_of(c, w, cs.push(r))
{
    let p = cs.push(r);
    assert(p.drop_last() =~= cs);
    assert((w.rows + c.lines(cs)).push(c.shown(r)) =~= w.rows + c.lines(cs).push(c.shown(r)));
    if c.unique && !(c.no_empty_columns && gap(r)) { lem_ids(c, cs, r); if before(cs, r) { assert(c.ids(cs).insert(row_id(r)) =~= c.ids(cs)); } }
}
proof fn lem_r_all(c: Select, w: CsvWriter, cs: Seq<Row>, rs: Seq<Row>)
    requires no_collision()
    ensures r_all(c, r_of(c, w, cs), rs) == r_of(c, w, cs + rs)
    decreases rs.len()
{
    if rs.len() == 0 { assert(cs + rs =~= cs); } else {
        lem_r_next(c, w, cs, rs[0]);
        lem_r_all(c, w, cs.push(rs[0]), rs.subrange(1, rs.len() as int));
        assert(cs.push(rs[0]) + rs.subrange(1, rs.len() as int) =~= cs + rs);
    }
}
pub open spec fn s_of(c: Select, q: Query, w: CsvWriter) -> spec_fn(Seq<ByteRecord>) -> SState { |o: Seq<ByteRecord>| { let st = r_of(c, w, rows_of(q, c.query_opts(), o)); (o.len() as int, st.0, st.1) } }
pub open spec fn s_upd(c: Select, q: Query) -> spec_fn(SState, ByteRecord) -> SState { |st: SState, r: ByteRecord| { let n = r_all(c, (st.1, st.2), r.query(q, c.query_opts())); (st.0 + 1, n.0, n.1) } }
pub open spec fn s_cnt() -> spec_fn(SState) -> int { |st: SState| st.0 }
pub open spec fn s_err() -> Result<CsvWriter, XErr> { Err(x_err()) }
pub open spec fn s_file(step: spec_fn(SState, Item) -> Ctl<SState, Result<CsvWriter, XErr>>) -> spec_fn(SState, Seq<u8>) -> Ctl<SState, Result<CsvWriter, XErr>> {
    |st: SState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (st.0, st.1, st.2), step), Err(_) => Ctl::Ret(s_err()) }
}
proof fn lem_s_upd(c: Select, q: Query, w: CsvWriter)
    requires no_collision()
    ensures forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] s_upd(c, q)(s_of(c, q, w)(o), r) == s_of(c, q, w)(o.push(r))
{
    assert forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] s_upd(c, q)(s_of(c, q, w)(o), r) == s_of(c, q, w)(o.push(r)) by {
        assert(o.push(r).drop_last() =~= o);
        lem_r_all(c, w, rows_of(q, c.query_opts(), o), r.query(q, c.query_opts()));
    }
}
pub proof fn ob_select_options(c: Select, o: QueryOptions)
    ensures MatcherOptions::from_query(c.query_opts()) == c.filter_opts.opts(),
        o.case_ignore(c.query_opts().case_ignore) == (QueryOptions { case_ignore: c.query_opts().case_ignore, ..o }),
{ }
broadcast proof fn lem_shown(c: Select, r: Row, f: spec_fn(Seq<u8>) -> Seq<u8>)
    requires forall|x: Seq<u8>| #[trigger] f(x) == translit(c.nf)(x)
    ensures #![trigger r.x_map(f), the_cmd(c)] r.x_map(f) == r.map_values(translit(c.nf))
{ assert(r.x_map(f) =~= r.map_values(translit(c.nf))); }
#[verifier::rlimit(200)]
pub proof fn ob_select_run(c: Select, config: Config, fs: FilterSet, m: Option<RecordMatcher>, q: Query, s: Sink)
    requires c.filter_opts.lists() == Ok::<FilterSet, XErr>(fs), c.filter_opts.matcher_spec(config.normalization) == Ok::<Option<RecordMatcher>, XErr>(m), c.query_of(config) == Ok::<Query, XErr>(q), sink(c.output, c.append) == Ok::<Sink, XErr>(s)
    ensures ({
        let step = lim_step(c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts()), s_upd(c, q), s_cnt(), s_err());
        c.execute(config) == (match seq_for(c.filenames, (0int, Set::<int>::empty(), c.writer(s)), file_step(step, s_err())) { Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok(st.2.x_flush()) })
    })
{
    broadcast use {lem_for_ext, lem_r_for, lem_shown};
    assert(the_cmd(c));
    let fo = c.filter_opts;
    ob_opts_lists(fo); ob_opts_options(fo); ob_opts_matcher(fo, config.normalization);
    ob_select_options(c, c.query_opts());
    assert forall|r: ByteRecord| #[trigger] fs.check(r) == fs.allows(r) by { ob_filter_set(fs, r); }
    assert forall|r: Row| #[trigger] gap(r) == r.x_any(|e: Seq<u8>| e.x_is_empty()) by { }
    assert forall|r: Row| #[trigger] blank(r) == r.x_all(|e: Seq<u8>| e.x_is_empty()) by { }
    if let Some(h) = c.header { assert(header_row(h) =~= h.split(',').x_map(|z_: Seq<u8>| z_.x_trim())); }
    let step = lim_step(fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), s_upd(c, q), s_cnt(), s_err());
    assert forall|st: SState, p: Seq<u8>| #[trigger] s_file(step)(st, p) == file_step(step, s_err())(st, p) by { assert(st == (st.0, st.1, st.2)); }
    let res = seq_for(c.filenames, (0int, Set::<int>::empty(), c.writer(s)), s_file(step));
    assert(res == seq_for(c.filenames, (0int, Set::<int>::empty(), c.writer(s)), file_step(step, s_err())));
}
pub proof fn ob_select(c: Select, config: Config)
    requires c.filter_opts.limit >= 0, no_collision()
    ensures match (c.filter_opts.lists(), c.filter_opts.matcher_spec(config.normalization), c.query_of(config), sink(c.output, c.append)) {
        (Ok(fs), Ok(m), Ok(q), Ok(s)) => match limited(stream(c.filenames), c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts())) {
            Some(o) => c.execute(config) == Ok::<CsvWriter, XErr>(c.writer(s).with(c.lines(rows_of(q, c.query_opts(), o))).x_flush()),
            None => c.execute(config) is Err,
        }
        _ => c.execute(config) is Err,
    }
{
    let fo = c.filter_opts;
    match (fo.lists(), fo.matcher_spec(config.normalization), c.query_of(config), sink(c.output, c.append)) {
        (Ok(fs), Ok(m), Ok(q), Ok(s)) => {
            let w = c.writer(s);
            ob_select_run(c, config, fs, m, q, s);
            lem_s_upd(c, q, w);
            lem_run(c.filenames, fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), s_upd(c, q), s_cnt(), s_of(c, q, w), s_err());
            let e = Seq::<ByteRecord>::empty();
            assert(rows_of(q, c.query_opts(), e) =~= Seq::empty());
            assert(w.rows + c.lines(Seq::empty()) =~= w.rows);
            assert(s_of(c, q, w)(e) == (0int, Set::<int>::empty(), w));
        }
        _ => { ob_opts_lists(fo); ob_opts_matcher(fo, config.normalization); }
    }
}
}
