//@include cli_m.rs
//@include cli_sel.rs
verus! {
//@type crates/pica-cli/src/commands/filter.rs Filter
impl Filter {
//@fn crates/pica-cli/src/commands/filter.rs Filter::execute => execute out=writer,tee_writer ret=Result<(Writer,~Option<Writer>),~XErr>
}
//@helpers
}

verus! {
impl Filter {
    pub open spec fn files(self) -> Seq<Seq<u8>> {
        let fs = if self.expr_file is Some && self.filter.len() > 0 { seq![self.filter] + self.filenames } else { self.filenames };
        if fs.len() == 0 { seq![seq![45u8]] } else { fs }
    }
    pub open spec fn expr(self) -> Result<Seq<u8>, XErr> { match self.expr_file { Some(p) => read_to_string(p), None => Ok(self.filter) } }
    pub open spec fn matcher(self, config: Config) -> Result<RecordMatcher, XErr> {
        match self.expr() { Err(_) => Err(x_err()), Ok(e) => match RecordMatcherBuilder::with_transform(e, translit(config.normalization)) {
            Err(_) => Err(x_err()), Ok(b) => match b.and(self.and) { Err(_) => Err(x_err()), Ok(b) => match b.or(self.or) { Err(_) => Err(x_err()), Ok(b) =>
                match b.not(self.not) { Err(_) => Err(x_err()), Ok(b) => Ok(b.build()) } } } } }
    }
    pub open spec fn opts(self) -> MatcherOptions {
        MatcherOptions { strsim: f64_div(x_to_f64(self.strsim_threshold as int), x_f64_lit(seq![49u8, 48u8, 48u8, 46u8, 48u8])), ignore: self.ignore_case }
    }
    /// what a selected record contributes to the output
    pub open spec fn emits(self, fs: FilterSet, m: RecordMatcher, d: Seq<(TagMatcher, OccurrenceMatcher)>, k: Seq<(TagMatcher, OccurrenceMatcher)>) -> EmitFn<ByteRecord> {
        |x: Option<Item>| match x {
            Some(Ok(r)) => if fs.allows(r) && (m.is_match(r, self.opts()) != self.invert_match) { Some(r.discard(d).keep(k)) } else { None },
            _ => None,
        }
    }
    pub open spec fn writer(self) -> Result<Writer, XErr> { open_writer(self.output, self.gzip, self.append) }
    pub open spec fn tee_writer(self) -> Result<Option<Writer>, XErr> {
        match self.tee { None => Ok(None), Some(p) => match open_writer(Some(p), self.gzip, self.append) { Ok(w) => Ok(Some(w)), Err(_) => Err(x_err()) } }
    }
}
pub open spec fn written(w: Writer, o: Seq<ByteRecord>) -> Writer { w.with(o).finish() }
pub open spec fn tee_written(w: Option<Writer>, o: Seq<ByteRecord>) -> Option<Writer> { match w { Some(w) => Some(written(w, o)), None => None } }
pub open spec fn tee_with(w: Option<Writer>, o: Seq<ByteRecord>) -> Option<Writer> { match w { Some(w) => Some(w.with(o)), None => None } }

pub type FState = (int, Option<Writer>, Writer);
pub open spec fn f_of(w: Writer, t: Option<Writer>) -> spec_fn(Seq<ByteRecord>) -> FState { |o: Seq<ByteRecord>| (o.len() as int, tee_with(t, o), w.with(o)) }
pub open spec fn f_upd() -> spec_fn(FState, ByteRecord) -> FState {
    |st: FState, r: ByteRecord| (st.0 + 1, match st.1 { Some(w) => Some(w.write_byte_record(r)), None => None }, st.2.write_byte_record(r))
}
pub open spec fn f_step(skip: bool, limit: int, f: EmitFn<ByteRecord>) -> spec_fn(FState, Item) -> Ctl<FState, Result<(Writer, Option<Writer>), XErr>> {
    lim_step(skip, limit, f, f_upd(), |st: FState| st.0, Err::<(Writer, Option<Writer>), XErr>(x_err()))
}
pub open spec fn f_file<R>(step: spec_fn(FState, Item) -> Ctl<FState, R>, err: R) -> spec_fn(FState, Seq<u8>) -> Ctl<FState, R> {
    |st: FState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (st.0, st.1, st.2), step), Err(_) => Ctl::Ret(err) }
}
proof fn lem_f_upd(w: Writer, t: Option<Writer>)
    ensures forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] f_upd()(f_of(w, t)(o), r) == f_of(w, t)(o.push(r))
{
    assert forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] f_upd()(f_of(w, t)(o), r) == f_of(w, t)(o.push(r)) by {
        assert((w.out + o).push(r) =~= w.out + o.push(r));
        if let Some(tw) = t { assert((tw.out + o).push(r) =~= tw.out + o.push(r)); }
    }
}
pub proof fn ob_filter_run(c: Filter, config: Config, d: Seq<(TagMatcher, OccurrenceMatcher)>, k: Seq<(TagMatcher, OccurrenceMatcher)>, fs: FilterSet, m: RecordMatcher, w: Writer, t: Option<Writer>)
    requires parse_predicates(c.discard) == Ok::<Seq<(TagMatcher, OccurrenceMatcher)>, XErr>(d), parse_predicates(c.keep) == Ok::<Seq<(TagMatcher, OccurrenceMatcher)>, XErr>(k),
        list_spec(c.filter_set_source, c.filter_set_column, c.allow, c.deny) == Ok::<FilterSet, XErr>(fs), c.matcher(config) == Ok::<RecordMatcher, XErr>(m),
        c.writer() == Ok::<Writer, XErr>(w), c.tee_writer() == Ok::<Option<Writer>, XErr>(t)
    ensures c.execute(config) == (match seq_for(c.files(), (0int, t, w), file_step(f_step(c.skip_invalid || config.skip_invalid, c.limit, c.emits(fs, m, d, k)), Err::<(Writer, Option<Writer>), XErr>(x_err()))) {
        Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok((st.2.finish(), match st.1 { Some(w) => Some(w.finish()), None => None })) })
{
    broadcast use lem_for_ext;
    ob_filter_lists(c.filter_set_source, c.filter_set_column, c.allow, c.deny);
    assert forall|r: ByteRecord| #[trigger] fs.check(r) == fs.allows(r) by { ob_filter_set(fs, r); }
    let step = f_step(c.skip_invalid || config.skip_invalid, c.limit, c.emits(fs, m, d, k));
    let err = Err::<(Writer, Option<Writer>), XErr>(x_err());
    assert(forall|st: FState, p: Seq<u8>| #[trigger] f_file(step, err)(st, p) == file_step(step, err)(st, p)) by {
        assert forall|st: FState, p: Seq<u8>| #[trigger] f_file(step, err)(st, p) == file_step(step, err)(st, p) by { assert(st == (st.0, st.1, st.2)); }
    }
    let res = seq_for(c.files(), (0int, t, w), f_file(step, err));
    assert(res == seq_for(c.files(), (0int, t, w), file_step(step, err)));
    if c.filenames.len() == 0 { assert(c.filenames =~= Seq::empty()); assert(c.filenames.push(seq![45u8]) =~= seq![seq![45u8]]); }
    if c.expr_file is None {
        assert(c.execute(config) == (match res { Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok((st.2.finish(), match st.1 { Some(w) => Some(w.finish()), None => None })) }));
    } else {
        assert(c.filenames.insert(0, c.filter) =~= seq![c.filter] + c.filenames);
        if c.filter.len() == 0 { assert(c.filter =~= Seq::empty()); }
        assert(c.execute(config) == (match res { Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok((st.2.finish(), match st.1 { Some(w) => Some(w.finish()), None => None })) }));
    }
}
pub proof fn ob_filter(c: Filter, config: Config)
    requires c.limit >= 0
    ensures ({
        let skip = c.skip_invalid || config.skip_invalid;
        match (parse_predicates(c.discard), parse_predicates(c.keep), list_spec(c.filter_set_source, c.filter_set_column, c.allow, c.deny), c.matcher(config), c.writer(), c.tee_writer()) {
            (Ok(d), Ok(k), Ok(fs), Ok(m), Ok(w), Ok(t)) => match limited(stream(c.files()), skip, c.limit, c.emits(fs, m, d, k)) {
                Some(o) => c.execute(config) == Ok::<(Writer, Option<Writer>), XErr>((written(w, o), tee_written(t, o))),
                None => c.execute(config) is Err,
            }
            _ => c.execute(config) is Err,
        }
    })
{
    let skip = c.skip_invalid || config.skip_invalid;
    match (parse_predicates(c.discard), parse_predicates(c.keep), list_spec(c.filter_set_source, c.filter_set_column, c.allow, c.deny), c.matcher(config), c.writer(), c.tee_writer()) {
        (Ok(d), Ok(k), Ok(fs), Ok(m), Ok(w), Ok(t)) => {
            let f = c.emits(fs, m, d, k);
            let err = Err::<(Writer, Option<Writer>), XErr>(x_err());
            lem_f_upd(w, t);
            lem_run(c.files(), skip, c.limit, f, f_upd(), |st: FState| st.0, f_of(w, t), err);
            ob_filter_lists(c.filter_set_source, c.filter_set_column, c.allow, c.deny);
            ob_filter_run(c, config, d, k, fs, m, w, t);
            assert(outs(Seq::<Option<Item>>::empty(), f) == Seq::<ByteRecord>::empty());
            assert(w.with(Seq::<ByteRecord>::empty()) == w) by { assert(w.out + Seq::<ByteRecord>::empty() =~= w.out); }
            assert(tee_with(t, Seq::<ByteRecord>::empty()) == t) by { if let Some(tw) = t { assert(tw.out + Seq::<ByteRecord>::empty() =~= tw.out); } }
        }
        _ => { ob_filter_lists(c.filter_set_source, c.filter_set_column, c.allow, c.deny); }
    }
}
}
