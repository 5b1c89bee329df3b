//@include cli_m.rs
//@include cli_opts.rs
//@mut random_range self
//@mut write_to 0
//@ret StdRng::seed_from_u64 = StdRng
//@ret StdRng::from_rng = StdRng
//@ret StdRng::random_range = int
//@ret ByteRecord::from_bytes = Result<ByteRecord, XErr>
verus! {
//@type crates/pica-cli/src/commands/sample.rs Sample
/// a half-open range
pub struct XRange { pub start: int, pub end: int }
/// the random number generator, by contract: some number of the range, and the next state
pub struct StdRng { pub state: int }
pub struct ThreadRng { }
pub open spec fn rng() -> ThreadRng { ThreadRng { } }
pub uninterp spec fn entropy() -> int;
pub uninterp spec fn draw(state: int, n: int) -> int;
pub uninterp spec fn advance(state: int, n: int) -> int;
impl StdRng {
    pub uninterp spec fn seed_from_u64(seed: int) -> StdRng;
    pub open spec fn from_rng(r: ThreadRng) -> StdRng { StdRng { state: entropy() } }
    pub open spec fn x_random_range(self, r: XRange) -> (int, StdRng) {
        let n = r.end - r.start;
        (if n > 0 { r.start + draw(self.state, n) % n } else { r.start }, StdRng { state: advance(self.state, n) })
    }
}
impl ByteRecord {
    /// the serialisation: C02
    pub uninterp spec fn bytes(self) -> Seq<u8>;
    pub open spec fn write_to(self, w: Seq<u8>) -> Seq<u8> { w + self.bytes() }
    pub uninterp spec fn from_bytes(b: Seq<u8>) -> Result<ByteRecord, XErr>;
}
impl Sample {
//@fn crates/pica-cli/src/commands/sample.rs Sample::execute => execute use=range out=writer ret=Result<Writer,~XErr>
}
//@helpers
}
verus! {
pub type MState = (int, Seq<Seq<u8>>, StdRng);
impl Sample {
    pub open spec fn n(self) -> int { self.sample_size as int }
    pub open spec fn rng0(self) -> StdRng { match self.seed { Some(s) => StdRng::seed_from_u64(s), None => StdRng { state: entropy() } } }
    pub open spec fn writer(self) -> Result<Writer, XErr> { open_writer(self.output, self.gzip, false) }
}
/// the place of the next record in the reservoir (one that does not exist: the record is not kept), and the next generator
pub open spec fn place(n: int, count: int, rng: StdRng) -> (int, StdRng) { if count < n { (count, rng) } else { rng.x_random_range(XRange { start: 0, end: count }) } }
pub open spec fn put<T>(n: int, count: int, res: Seq<T>, j: int, x: T) -> Seq<T> { if count < n { res.push(x) } else if j < n { res.update(j, x) } else { res } }
pub open spec fn m_upd(n: int) -> spec_fn(MState, ByteRecord) -> MState {
    |st: MState, r: ByteRecord| { let (j, g) = place(n, st.0, st.2); (st.0 + 1, put(n, st.0, st.1, j, r.bytes()), g) }
}
pub open spec fn m_all(n: int, g: StdRng, o: Seq<ByteRecord>) -> MState decreases o.len() { if o.len() == 0 { (0, Seq::empty(), g) } else { m_upd(n)(m_all(n, g, o.drop_last()), o.last()) } }
pub open spec fn m_of(n: int, g: StdRng) -> spec_fn(Seq<ByteRecord>) -> MState { |o: Seq<ByteRecord>| m_all(n, g, o) }
pub open spec fn m_cnt() -> spec_fn(MState) -> int { |st: MState| st.0 }
pub open spec fn m_err() -> Result<Writer, XErr> { Err(x_err()) }
pub open spec fn m_file(step: spec_fn(MState, Item) -> Ctl<MState, Result<Writer, XErr>>) -> spec_fn(MState, Seq<u8>) -> Ctl<MState, Result<Writer, XErr>> {
    |st: MState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (st.0, st.1, st.2), step), Err(_) => Ctl::Ret(m_err()) }
}
/// the positions, in the selected input, of the records in the reservoir
pub open spec fn spots(n: int, g: StdRng, o: Seq<ByteRecord>) -> Seq<int> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else { let st = m_all(n, g, o.drop_last()); put(n, st.0, spots(n, g, o.drop_last()), place(n, st.0, st.2).0, st.0) }
}
/// the reservoir holds the bytes of records at different positions, as many as there are, up to `n`
pub open spec fn sampled(n: int, o: Seq<ByteRecord>, res: Seq<Seq<u8>>, p: Seq<int>) -> bool {
    &&& res.len() == p.len() && p.len() == (if o.len() <= n { o.len() as int } else { n })
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < o.len() && res[i] == o[p[i]].bytes()
    &&& forall|i: int, k: int| 0 <= i < k < p.len() ==> #[trigger] p[i] != #[trigger] p[k]
}
proof fn lem_sampled(n: int, g: StdRng, o: Seq<ByteRecord>)
    requires n >= 1
    ensures m_all(n, g, o).0 == o.len(), sampled(n, o, m_all(n, g, o).1, spots(n, g, o))
    decreases o.len()
{
    if o.len() > 0 {
        let q = o.drop_last();
        lem_sampled(n, g, q);
        let st = m_all(n, g, q);
        let j = place(n, st.0, st.2).0;
        let p = spots(n, g, o);
        let s = spots(n, g, q);
        if st.0 >= n { assert(0 <= j) by { let d = draw(st.2.state, st.0); assert(0 <= d % st.0) by (nonlinear_arith) requires st.0 > 0; } }
        assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < o.len() && m_all(n, g, o).1[i] == o[p[i]].bytes() by { if i < s.len() { assert(0 <= s[i] < q.len()); } }
        assert forall|i: int, k: int| 0 <= i < k < p.len() implies #[trigger] p[i] != #[trigger] p[k] by { if k < s.len() { assert(s[i] != s[k]); assert(s[i] < q.len()); assert(s[k] < q.len()); } else { assert(s[i] < q.len()); } }
    }
}
/// every record is decoded from its serialisation: C01, C02
pub open spec fn decodes() -> bool { forall|r: ByteRecord| (ByteRecord::from_bytes(#[trigger] r.bytes()) is Ok) && ByteRecord::from_bytes(r.bytes())->Ok_0.bytes() == r.bytes() }
pub open spec fn decoded() -> spec_fn(Seq<u8>) -> ByteRecord { |b: Seq<u8>| ByteRecord::from_bytes(b)->Ok_0 }
pub open spec fn w_next() -> spec_fn(Writer, Seq<u8>) -> Writer { |w: Writer, b: Seq<u8>| w.write_byte_record(ByteRecord::from_bytes(b)->Ok_0) }
pub broadcast proof fn lem_written(w: Writer, res: Seq<Seq<u8>>, f: spec_fn(Writer, Seq<u8>) -> Writer)
    requires forall|a: Writer, b: Seq<u8>| #[trigger] f(a, b) == a.write_byte_record(ByteRecord::from_bytes(b).x_unwrap())
    ensures #![trigger res.x_fold(w, f)] res.x_fold(w, f) == w.with(res.map_values(decoded()))
    decreases res.len()
{
    let d = res.map_values(decoded());
    if res.len() == 0 { assert(w.out + d =~= w.out); } else {
        let t = res.drop_last();
        lem_written(w, t, f);
        let x = w.with(t.map_values(decoded()));
        assert(f(x, res.last()) == x.write_byte_record(decoded()(res.last())));
        assert((w.out + t.map_values(decoded())).push(decoded()(res.last())) =~= w.out + d);
    }
}
#[verifier::rlimit(200)]
pub proof fn ob_sample_run(c: Sample, config: Config, fs: FilterSet, m: Option<RecordMatcher>, w: Writer)
    requires c.filter_opts.lists() == Ok::<FilterSet, XErr>(fs), c.filter_opts.matcher_spec(config.normalization) == Ok::<Option<RecordMatcher>, XErr>(m), c.writer() == Ok::<Writer, XErr>(w)
    ensures ({
        let step = lim_step(c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts()), m_upd(c.n()), m_cnt(), m_err());
        c.execute(config) == (match seq_for(c.filenames, (0int, Seq::<Seq<u8>>::empty(), c.rng0()), file_step(step, m_err())) { Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok(w.with(st.1.map_values(decoded())).finish()) })
    })
{
    broadcast use {lem_for_ext, lem_written};
    let fo = c.filter_opts;
    ob_opts_lists(fo); ob_opts_options(fo); ob_opts_matcher(fo, config.normalization);
    assert forall|r: ByteRecord| #[trigger] fs.check(r) == fs.allows(r) by { ob_filter_set(fs, r); }
    assert forall|r: ByteRecord| Seq::<u8>::empty() + r.bytes() == #[trigger] r.bytes() by { assert(Seq::<u8>::empty() + r.bytes() =~= r.bytes()); }
    let step = lim_step(fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), m_upd(c.n()), m_cnt(), m_err());
    assert forall|st: MState, p: Seq<u8>| #[trigger] m_file(step)(st, p) == file_step(step, m_err())(st, p) by { assert(st == (st.0, st.1, st.2)); }
    let res = seq_for(c.filenames, (0int, Seq::<Seq<u8>>::empty(), c.rng0()), m_file(step));
    assert(res == seq_for(c.filenames, (0int, Seq::<Seq<u8>>::empty(), c.rng0()), file_step(step, m_err())));
}
/// sample writes min(n, number of selected records) records, each a different one of the selected records, unchanged
pub proof fn ob_sample(c: Sample, config: Config)
    requires c.filter_opts.limit >= 0, c.n() >= 1, decodes()
    ensures match (c.filter_opts.lists(), c.filter_opts.matcher_spec(config.normalization), c.writer()) {
        (Ok(fs), Ok(m), Ok(w)) => match limited(stream(c.filenames), c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts())) {
            Some(o) => {
                let p = spots(c.n(), c.rng0(), o);
                let out = Seq::new(p.len(), |i: int| decoded()(o[p[i]].bytes()));
                &&& c.execute(config) == Ok::<Writer, XErr>(w.with(out).finish())
                &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < o.len() && out[i].bytes() == o[p[i]].bytes()
                &&& forall|i: int, k: int| 0 <= i < k < p.len() ==> #[trigger] p[i] != #[trigger] p[k]
                &&& p.len() == (if o.len() <= c.n() { o.len() as int } else { c.n() })
            }
            None => c.execute(config) is Err,
        }
        _ => c.execute(config) is Err,
    }
{
    let fo = c.filter_opts;
    match (fo.lists(), fo.matcher_spec(config.normalization), c.writer()) {
        (Ok(fs), Ok(m), Ok(w)) => {
            ob_sample_run(c, config, fs, m, w);
            assert forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] m_upd(c.n())(m_of(c.n(), c.rng0())(o), r) == m_of(c.n(), c.rng0())(o.push(r)) by { assert(o.push(r).drop_last() =~= o); }
            assert forall|o: Seq<ByteRecord>| m_cnt()(#[trigger] m_of(c.n(), c.rng0())(o)) == o.len() by { lem_sampled(c.n(), c.rng0(), o); }
            let sel = selects(fs, m, fo.opts());
            let skip = fo.skip_invalid || config.skip_invalid;
            lem_run(c.filenames, skip, fo.limit, sel, m_upd(c.n()), m_cnt(), m_of(c.n(), c.rng0()), m_err());
            assert(m_of(c.n(), c.rng0())(Seq::empty()) == (0int, Seq::<Seq<u8>>::empty(), c.rng0()));
            if let Some(o) = limited(stream(c.filenames), skip, fo.limit, sel) {
                lem_sampled(c.n(), c.rng0(), o);
                let p = spots(c.n(), c.rng0(), o);
                let st = m_all(c.n(), c.rng0(), o);
                let out = Seq::new(p.len(), |i: int| decoded()(o[p[i]].bytes()));
                assert(st.1.map_values(decoded()) =~= out);
            }
        }
        _ => { ob_opts_lists(fo); ob_opts_matcher(fo, config.normalization); }
    }
}
}
