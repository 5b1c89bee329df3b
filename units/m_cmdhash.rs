//@include cli_m.rs
//@include cli_hex.rs
//@include cli_opts.rs
//@include cli_sink.rs
//@include cli_csv.rs
//@path WriterBuilder::new = csv_builder
verus! {
//@type crates/pica-cli/src/commands/hash.rs Hash
impl Hash {
//@fn crates/pica-cli/src/commands/hash.rs Hash::execute => execute out=writer ret=Result<CsvWriter,~XErr>
}
//@helpers
}
verus! {
pub type HState = (int, CsvWriter);
pub open spec fn ppn_or_empty(r: ByteRecord) -> Seq<u8> { match r.ppn() { Some(p) => p, None => Seq::empty() } }
/// one row per record: its PPN and the hexadecimal text of its digest
pub open spec fn h_row(r: ByteRecord) -> Seq<Seq<u8>> { seq![ppn_or_empty(r), hex(r.sha256())] }
pub open spec fn h_rows(o: Seq<ByteRecord>) -> Seq<Seq<Seq<u8>>> { Seq::new(o.len(), |i: int| h_row(o[i])) }
pub open spec fn h_of(w: CsvWriter) -> spec_fn(Seq<ByteRecord>) -> HState { |o: Seq<ByteRecord>| (o.len() as int, w.with(h_rows(o))) }
pub open spec fn h_upd() -> spec_fn(HState, ByteRecord) -> HState { |st: HState, r: ByteRecord| (st.0 + 1, st.1.write_record(h_row(r))) }
pub open spec fn h_cnt() -> spec_fn(HState) -> int { |st: HState| st.0 }
pub open spec fn h_err() -> Result<CsvWriter, XErr> { Err(x_err()) }
pub open spec fn h_file(step: spec_fn(HState, Item) -> Ctl<HState, Result<CsvWriter, XErr>>) -> spec_fn(HState, Seq<u8>) -> Ctl<HState, Result<CsvWriter, XErr>> {
    |st: HState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (st.0, st.1), step), Err(_) => Ctl::Ret(h_err()) }
}
proof fn lem_h_upd(w: CsvWriter)
    ensures forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] h_upd()(h_of(w)(o), r) == h_of(w)(o.push(r))
{
    assert forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] h_upd()(h_of(w)(o), r) == h_of(w)(o.push(r)) by {
        assert(h_rows(o.push(r)) =~= h_rows(o).push(h_row(r)));
        assert((w.rows + h_rows(o)).push(h_row(r)) =~= w.rows + h_rows(o.push(r)));
    }
}
impl Hash {
    /// the header row: the trimmed parts of the header text
    pub open spec fn header_row(self) -> Seq<Seq<u8>> { let p = self.header.split(','); Seq::new(p.len(), |i: int| trim_ws(p[i])) }
    pub open spec fn writer(self, s: Sink) -> CsvWriter {
        csv_builder().delimiter(if self.tsv { 9u8 } else { 44u8 }).from_writer(s).write_record(self.header_row())
    }
}
#[verifier::rlimit(60)]
pub proof fn ob_hash_run(c: Hash, config: Config, fs: FilterSet, m: Option<RecordMatcher>, s: Sink)
    requires c.filter_opts.lists() == Ok::<FilterSet, XErr>(fs), c.filter_opts.matcher_spec(config.normalization) == Ok::<Option<RecordMatcher>, XErr>(m), sink(c.output, false) == Ok::<Sink, XErr>(s)
    ensures ({
        let step = lim_step(c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts()), h_upd(), h_cnt(), h_err());
        c.execute(config) == (match seq_for(c.filenames, (0int, c.writer(s)), file_step(step, h_err())) {
            Ctl::Ret(e) => e,
            Ctl::Next(st) | Ctl::Brk(st) => Ok(st.1.x_flush()),
        })
    })
{
    broadcast use {lem_for_ext, lem_hex};
    let fo = c.filter_opts;
    ob_opts_lists(fo); ob_opts_options(fo); ob_opts_matcher(fo, config.normalization);
    assert forall|r: ByteRecord| #[trigger] fs.check(r) == fs.allows(r) by { ob_filter_set(fs, r); }
    let step = lim_step(fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), h_upd(), h_cnt(), h_err());
    assert forall|st: HState, p: Seq<u8>| #[trigger] h_file(step)(st, p) == file_step(step, h_err())(st, p) by { assert(st == (st.0, st.1)); }
    assert(c.header_row() =~= c.header.split(',').x_map(|z_: Seq<u8>| z_.x_trim()));
    assert forall|r: ByteRecord| seq![(match (#[trigger] r.ppn()) { Some(d__) => d__, None => Seq::<u8>::empty() }), hex(r.sha256())] == h_row(r) by { }
    let res = seq_for(c.filenames, (0int, c.writer(s)), h_file(step));
    assert(res == seq_for(c.filenames, (0int, c.writer(s)), file_step(step, h_err())));
    if let Ctl::Ret(e) = res { assert(c.execute(config) == e); } else { assert(c.execute(config) is Ok); }
}
pub proof fn ob_hash(c: Hash, config: Config)
    requires c.filter_opts.limit >= 0
    ensures match (c.filter_opts.lists(), c.filter_opts.matcher_spec(config.normalization), sink(c.output, false)) {
        (Ok(fs), Ok(m), Ok(s)) => match limited(stream(c.filenames), c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts())) {
            Some(o) => c.execute(config) == Ok::<CsvWriter, XErr>(c.writer(s).with(h_rows(o)).x_flush()),
            None => c.execute(config) is Err,
        }
        _ => c.execute(config) is Err,
    }
{
    let fo = c.filter_opts;
    match (fo.lists(), fo.matcher_spec(config.normalization), sink(c.output, false)) {
        (Ok(fs), Ok(m), Ok(s)) => {
            ob_hash_run(c, config, fs, m, s);
            lem_h_upd(c.writer(s));
            lem_run(c.filenames, fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), h_upd(), h_cnt(), h_of(c.writer(s)), h_err());
            let e = Seq::<ByteRecord>::empty();
            assert(h_rows(e) =~= Seq::empty());
            assert(c.writer(s).rows + h_rows(e) =~= c.writer(s).rows);
            assert(h_of(c.writer(s))(e) == (0int, c.writer(s)));
        }
        _ => { ob_opts_lists(fo); ob_opts_matcher(fo, config.normalization); }
    }
}
}
