//@include cli_m.rs
//@include cli_opts.rs
//@include cli_sink.rs
verus! {
//@type crates/pica-cli/src/commands/count.rs Count
impl Count {
//@fn crates/pica-cli/src/commands/count.rs Count::execute => execute out=writer ret=Result<Sink,~XErr>
}
//@helpers
}
verus! {
pub type CState = (int, int, int);
/// the numbers of fields, records and subfields
pub open spec fn n_fields(o: Seq<ByteRecord>) -> int decreases o.len() { if o.len() == 0 { 0 } else { n_fields(o.drop_last()) + o.last().record.fields().len() } }
pub open spec fn n_subs(fs: Seq<FieldRef>) -> int { seq_sum(fs.map_values(|f: FieldRef| f.subfields().len() as int)) }
pub open spec fn n_subfields(o: Seq<ByteRecord>) -> int decreases o.len() { if o.len() == 0 { 0 } else { n_subfields(o.drop_last()) + n_subs(o.last().record.fields()) } }
pub open spec fn c_of() -> spec_fn(Seq<ByteRecord>) -> CState { |o: Seq<ByteRecord>| (n_fields(o), o.len() as int, n_subfields(o)) }
pub open spec fn c_upd() -> spec_fn(CState, ByteRecord) -> CState { |st: CState, r: ByteRecord| (st.0 + r.record.fields().len(), st.1 + 1, st.2 + n_subs(r.record.fields())) }
pub open spec fn c_cnt() -> spec_fn(CState) -> int { |st: CState| st.1 }
pub open spec fn c_err() -> Result<Sink, XErr> { Err(x_err()) }
pub open spec fn c_file(step: spec_fn(CState, Item) -> Ctl<CState, Result<Sink, XErr>>) -> spec_fn(CState, Seq<u8>) -> Ctl<CState, Result<Sink, XErr>> {
    |st: CState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (st.0, st.1, st.2), step), Err(_) => Ctl::Ret(c_err()) }
}
proof fn lem_c_upd()
    ensures forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] c_upd()(c_of()(o), r) == c_of()(o.push(r))
{
    assert forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] c_upd()(c_of()(o), r) == c_of()(o.push(r)) by { assert(o.push(r).drop_last() =~= o); }
}
impl Count {
    /// the report
    pub open spec fn report(self, r: int, f: int, s: int) -> Seq<u8> {
        let nl = seq![10u8];
        if self.records { int_dec(r) + nl } else if self.fields { int_dec(f) + nl } else if self.subfields { int_dec(s) + nl }
        else if self.csv || self.tsv {
            let d = if self.csv { 44u8 } else { 9u8 };
            (if self.no_header { Seq::empty() } else { w_records() + seq![d] + w_fields() + seq![d] + w_subfields() + nl }) + int_dec(r) + seq![d] + int_dec(f) + seq![d] + int_dec(s) + nl
        } else { let c = seq![58u8, 32u8]; w_records() + c + int_dec(r) + nl + w_fields() + c + int_dec(f) + nl + w_subfields() + c + int_dec(s) + nl }
    }
}
pub open spec fn w_records() -> Seq<u8> { seq![114u8, 101u8, 99u8, 111u8, 114u8, 100u8, 115u8] }
pub open spec fn w_fields() -> Seq<u8> { seq![102u8, 105u8, 101u8, 108u8, 100u8, 115u8] }
pub open spec fn w_subfields() -> Seq<u8> { seq![115u8, 117u8, 98u8, 102u8, 105u8, 101u8, 108u8, 100u8, 115u8] }
#[verifier::rlimit(200)]
pub proof fn ob_count_run(c: Count, config: Config, fs: FilterSet, m: Option<RecordMatcher>, w: Sink)
    requires c.filter_opts.lists() == Ok::<FilterSet, XErr>(fs), c.filter_opts.matcher_spec(config.normalization) == Ok::<Option<RecordMatcher>, XErr>(m), sink(c.output, c.append) == Ok::<Sink, XErr>(w)
    ensures ({
        let step = lim_step(c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts()), c_upd(), c_cnt(), c_err());
        match seq_for(c.filenames, (0int, 0int, 0int), file_step(step, c_err())) {
            Ctl::Ret(e) => c.execute(config) == e,
            Ctl::Next(st) | Ctl::Brk(st) => c.execute(config) is Ok && same_sink(c.execute(config)->Ok_0, Sink { out: w.out + c.report(st.1, st.0, st.2), done: true, ..w })
        }
    })
{
    broadcast use lem_for_ext;
    let fo = c.filter_opts;
    ob_opts_lists(fo); ob_opts_options(fo); ob_opts_matcher(fo, config.normalization);
    assert forall|r: ByteRecord| #[trigger] fs.check(r) == fs.allows(r) by { ob_filter_set(fs, r); }
    let step = lim_step(fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), c_upd(), c_cnt(), c_err());
    assert forall|st: CState, p: Seq<u8>| #[trigger] c_file(step)(st, p) == file_step(step, c_err())(st, p) by { assert(st == (st.0, st.1, st.2)); }
    assert forall|f: Seq<FieldRef>| #[trigger] n_subs(f) == seq_sum(f.x_map(|field: FieldRef| field.subfields().x_len())) by {
        assert(f.map_values(|f: FieldRef| f.subfields().len() as int) =~= f.x_map(|field: FieldRef| field.subfields().x_len()));
    }
    let res = seq_for(c.filenames, (0int, 0int, 0int), c_file(step));
    assert(res == seq_for(c.filenames, (0int, 0int, 0int), file_step(step, c_err())));
    if let Ctl::Ret(e) = res { assert(c.execute(config) == e); } else {
        let st = match res { Ctl::Next(st) => st, Ctl::Brk(st) => st, _ => arbitrary() };
        if c.records { assert(c.execute(config) is Ok); assert(c.execute(config)->Ok_0.out =~= w.out + c.report(st.1, st.0, st.2)); } else if c.fields { assert(c.execute(config) is Ok); assert(c.execute(config)->Ok_0.out =~= w.out + c.report(st.1, st.0, st.2)); } else if c.subfields { assert(c.execute(config) is Ok); assert(c.execute(config)->Ok_0.out =~= w.out + c.report(st.1, st.0, st.2)); }
        else if c.csv { if c.no_header { assert(c.execute(config) is Ok); assert(c.execute(config)->Ok_0.out =~= w.out + c.report(st.1, st.0, st.2)); } else { assert(c.execute(config) is Ok); assert(c.execute(config)->Ok_0.out =~= w.out + c.report(st.1, st.0, st.2)); } }
        else if c.tsv { if c.no_header { assert(c.execute(config) is Ok); assert(c.execute(config)->Ok_0.out =~= w.out + c.report(st.1, st.0, st.2)); } else { assert(c.execute(config) is Ok); assert(c.execute(config)->Ok_0.out =~= w.out + c.report(st.1, st.0, st.2)); } }
        else { assert(c.execute(config) is Ok); assert(c.execute(config)->Ok_0.out =~= w.out + c.report(st.1, st.0, st.2)); }
    }
}
pub proof fn ob_count(c: Count, config: Config)
    requires c.filter_opts.limit >= 0
    ensures match (c.filter_opts.lists(), c.filter_opts.matcher_spec(config.normalization), sink(c.output, c.append)) {
        (Ok(fs), Ok(m), Ok(w)) => match limited(stream(c.filenames), c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts())) {
            Some(o) => c.execute(config) is Ok && same_sink(c.execute(config)->Ok_0, Sink { out: w.out + c.report(o.len() as int, n_fields(o), n_subfields(o)), done: true, ..w }),
            None => c.execute(config) is Err,
        }
        _ => c.execute(config) is Err,
    }
{
    let fo = c.filter_opts;
    match (fo.lists(), fo.matcher_spec(config.normalization), sink(c.output, c.append)) {
        (Ok(fs), Ok(m), Ok(w)) => {
            ob_count_run(c, config, fs, m, w);
            lem_c_upd();
            lem_run(c.filenames, fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), c_upd(), c_cnt(), c_of(), c_err());
            assert(c_of()(Seq::empty()) == (0int, 0int, 0int));
        }
        _ => { ob_opts_lists(fo); ob_opts_matcher(fo, config.normalization); }
    }
}
}
