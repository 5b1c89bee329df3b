//@include cli_w.rs
//@include cli_opts.rs
//@include cli_sink.rs
verus! {
//@type crates/pica-cli/src/commands/print.rs Print
impl Print {
//@fn crates/pica-cli/src/commands/print.rs Print::execute => execute out=writer ret=Result<Sink,~XErr>
}
//@helpers
}
verus! {
/// a text transformation in use
pub open spec fn transform(t: spec_fn(Seq<u8>) -> Seq<u8>) -> bool { true }
/// ` $code value` for a subfield
pub open spec fn p_sub(t: spec_fn(Seq<u8>) -> Seq<u8>, s: SubfieldRef) -> Seq<u8> { seq![32u8, 36u8] + char_utf8(s.code().0) + seq![32u8] + t(s.value()) }
pub open spec fn p_subs(t: spec_fn(Seq<u8>) -> Seq<u8>, s: Seq<SubfieldRef>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { p_subs(t, s.drop_last()) + p_sub(t, s.last()) } }
/// a line per field: tag, occurrence, subfields
pub open spec fn p_field(t: spec_fn(Seq<u8>) -> Seq<u8>, f: FieldRef) -> Seq<u8> {
    f.tag().text() + (match f.occurrence() { Some(o) => o.text(), None => Seq::empty() }) + p_subs(t, f.subfields()) + seq![10u8]
}
pub open spec fn p_fields(t: spec_fn(Seq<u8>) -> Seq<u8>, s: Seq<FieldRef>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { p_fields(t, s.drop_last()) + p_field(t, s.last()) } }
/// all lines of a record and an empty line
pub open spec fn p_record(t: spec_fn(Seq<u8>) -> Seq<u8>, r: ByteRecord) -> Seq<u8> { p_fields(t, r.record.fields()) + seq![10u8] }
pub open spec fn p_records(t: spec_fn(Seq<u8>) -> Seq<u8>, o: Seq<ByteRecord>) -> Seq<u8> decreases o.len() { if o.len() == 0 { Seq::empty() } else { p_records(t, o.drop_last()) + p_record(t, o.last()) } }
pub broadcast proof fn lem_p_subs(t: spec_fn(Seq<u8>) -> Seq<u8>, s: Seq<SubfieldRef>, i: Sink, f: spec_fn(Sink, SubfieldRef) -> Sink)
    requires forall|a: Sink, x: SubfieldRef| same_sink(#[trigger] f(a, x), Sink { out: a.out + p_sub(t, x), ..a })
    ensures #![trigger seq_fold(s, i, f), transform(t)] seq_fold(s, i, f) == (Sink { out: i.out + p_subs(t, s), ..i })
    decreases s.len()
{
    if s.len() > 0 { lem_p_subs(t, s.drop_last(), i, f); assert(same_sink(f(seq_fold(s.drop_last(), i, f), s.last()), Sink { out: i.out + p_subs(t, s), ..i })); }
    else { assert(i.out + p_subs(t, s) =~= i.out); }
}
pub broadcast proof fn lem_p_fields(t: spec_fn(Seq<u8>) -> Seq<u8>, s: Seq<FieldRef>, i: Sink, f: spec_fn(Sink, FieldRef) -> Sink)
    requires forall|a: Sink, x: FieldRef| same_sink(#[trigger] f(a, x), Sink { out: a.out + p_field(t, x), ..a })
    ensures #![trigger seq_fold(s, i, f), transform(t)] seq_fold(s, i, f) == (Sink { out: i.out + p_fields(t, s), ..i })
    decreases s.len()
{
    if s.len() > 0 { lem_p_fields(t, s.drop_last(), i, f); assert(same_sink(f(seq_fold(s.drop_last(), i, f), s.last()), Sink { out: i.out + p_fields(t, s), ..i })); }
    else { assert(i.out + p_fields(t, s) =~= i.out); }
}
pub type PState = (int, Sink);
pub open spec fn add(s: Sink, x: Seq<u8>) -> Sink { Sink { out: s.out + x, ..s } }
pub open spec fn p_of(t: spec_fn(Seq<u8>) -> Seq<u8>, w: Sink) -> spec_fn(Seq<ByteRecord>) -> PState { |o: Seq<ByteRecord>| (o.len() as int, add(w, p_records(t, o))) }
pub open spec fn p_upd(t: spec_fn(Seq<u8>) -> Seq<u8>) -> spec_fn(PState, ByteRecord) -> PState { |st: PState, r: ByteRecord| (st.0 + 1, add(st.1, p_record(t, r))) }
pub open spec fn p_cnt() -> spec_fn(PState) -> int { |st: PState| st.0 }
pub open spec fn p_err() -> Result<Sink, XErr> { Err(x_err()) }
pub open spec fn p_file(step: spec_fn(PState, Item) -> Ctl<PState, Result<Sink, XErr>>) -> spec_fn(PState, Seq<u8>) -> Ctl<PState, Result<Sink, XErr>> {
    |st: PState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (st.0, st.1), step), Err(_) => Ctl::Ret(p_err()) }
}
proof fn lem_p_upd(t: spec_fn(Seq<u8>) -> Seq<u8>, w: Sink)
    ensures forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] p_upd(t)(p_of(t, w)(o), r) == p_of(t, w)(o.push(r))
{
    assert forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] p_upd(t)(p_of(t, w)(o), r) == p_of(t, w)(o.push(r)) by {
        assert(o.push(r).drop_last() =~= o);
        assert(w.out + p_records(t, o) + p_record(t, r) =~= w.out + p_records(t, o.push(r)));
    }
}
#[verifier::rlimit(60)]
pub proof fn ob_print_run(c: Print, config: Config, fs: FilterSet, m: Option<RecordMatcher>, w: Sink)
    requires c.filter_opts.lists() == Ok::<FilterSet, XErr>(fs), c.filter_opts.matcher_spec(config.normalization) == Ok::<Option<RecordMatcher>, XErr>(m), sink(c.output, false) == Ok::<Sink, XErr>(w)
    ensures ({
        let step = lim_step(c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts()), p_upd(translit(c.nf)), p_cnt(), p_err());
        c.execute(config) == (match seq_for(c.filenames, (0int, w), file_step(step, p_err())) { Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok(st.1.x_flush()) })
    })
{
    broadcast use {lem_for_ext, lem_p_subs, lem_p_fields};
    let fo = c.filter_opts;
    let t = translit(c.nf);
    assert(transform(t));
    ob_opts_lists(fo); ob_opts_options(fo); ob_opts_matcher(fo, config.normalization);
    assert forall|r: ByteRecord| #[trigger] fs.check(r) == fs.allows(r) by { ob_filter_set(fs, r); }
    let step = lim_step(fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), p_upd(t), p_cnt(), p_err());
    assert forall|st: PState, p: Seq<u8>| #[trigger] p_file(step)(st, p) == file_step(step, p_err())(st, p) by { assert(st == (st.0, st.1)); }
    assert forall|a: Sink, r: ByteRecord| #[trigger] add(a, p_record(t, r)) == (Sink { out: a.out + p_fields(t, r.record.fields()), ..a }).x_append(seq![10u8]) by {
        assert(a.out + p_fields(t, r.record.fields()) + seq![10u8] =~= a.out + p_record(t, r));
    }
    let res = seq_for(c.filenames, (0int, w), p_file(step));
    assert(res == seq_for(c.filenames, (0int, w), file_step(step, p_err())));
}
pub proof fn ob_print(c: Print, config: Config)
    requires c.filter_opts.limit >= 0
    ensures match (c.filter_opts.lists(), c.filter_opts.matcher_spec(config.normalization), sink(c.output, false)) {
        (Ok(fs), Ok(m), Ok(w)) => match limited(stream(c.filenames), c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts())) {
            Some(o) => c.execute(config) == Ok::<Sink, XErr>(add(w, p_records(translit(c.nf), o)).x_flush()),
            None => c.execute(config) is Err,
        }
        _ => c.execute(config) is Err,
    }
{
    let fo = c.filter_opts;
    let t = translit(c.nf);
    match (fo.lists(), fo.matcher_spec(config.normalization), sink(c.output, false)) {
        (Ok(fs), Ok(m), Ok(w)) => {
            ob_print_run(c, config, fs, m, w);
            lem_p_upd(t, w);
            lem_run(c.filenames, fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), p_upd(t), p_cnt(), p_of(t, w), p_err());
            let e = Seq::<ByteRecord>::empty();
            assert(w.out + p_records(t, e) =~= w.out);
            assert(p_of(t, w)(e) == (0int, w));
        }
        _ => { ob_opts_lists(fo); ob_opts_matcher(fo, config.normalization); }
    }
}
}
