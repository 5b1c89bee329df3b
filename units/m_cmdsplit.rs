//@include cli_m.rs
//@include cli_opts.rs
//@path fs::create_dir_all = create_dir_all
//@ret create_dir_all = Result<(), XErr>
verus! {
// file system: what exists and what can be created is an input of the run
pub uninterp spec fn path_exists(p: Seq<u8>) -> bool;
pub uninterp spec fn create_dir_all(p: Seq<u8>) -> Result<(), XErr>;
pub uninterp spec fn path_join(dir: Seq<u8>, name: Seq<u8>) -> Seq<u8>;
pub trait XPathOps: Sized { spec fn exists(self) -> bool; spec fn x_join(self, name: Seq<u8>) -> Seq<u8>; }
impl XPathOps for Seq<u8> {
    open spec fn exists(self) -> bool { path_exists(self) }
    open spec fn x_join(self, name: Seq<u8>) -> Seq<u8> { path_join(self, name) }
}
pub trait XToText: Sized { spec fn to_string(self) -> Seq<u8>; }
impl XToText for int { open spec fn to_string(self) -> Seq<u8> { int_dec(self) } }
pub trait XMultiple { spec fn x_is_multiple_of(self, n: int) -> bool; }
impl XMultiple for int { open spec fn x_is_multiple_of(self, n: int) -> bool { if n == 0 { self == 0 } else { self % n == 0 } } }
//@type crates/pica-cli/src/commands/split.rs Split
impl Split {
//@fn crates/pica-cli/src/commands/split.rs Split::execute => execute log=writer out=writer__log,writer ret=Result<(Seq<Writer>,~Writer),~XErr>
}
//@helpers
}
verus! {
pub type PState = (int, int, Writer, Seq<Writer>);
impl Split {
    pub open spec fn n(self) -> int { self.chunk_size as int }
    pub open spec fn names(self) -> Seq<u8> {
        match self.template { Some(t) => t, None => if self.gzip { seq![123u8, 125u8, 46u8, 100u8, 97u8, 116u8, 46u8, 103u8, 122u8] } else { seq![123u8, 125u8, 46u8, 100u8, 97u8, 116u8] } }
    }
    /// the file of chunk `k`
    pub open spec fn path(self, k: int) -> Seq<u8> { path_join(self.outdir, replace_all(self.names(), seq![123u8, 125u8], int_dec(k))) }
    pub open spec fn file(self, k: int, part: Seq<ByteRecord>) -> Writer { Writer { gzip: self.gzip, append: false, dest: Some(self.path(k)), out: part, done: false } }
    /// all output files can be created
    pub open spec fn creatable(self) -> bool { (path_exists(self.outdir) || create_dir_all(self.outdir) is Ok) && forall|k: int| can_open(Some(#[trigger] self.path(k)), false) }
    /// the number of the file being written
    pub open spec fn last_chunk(self, o: Seq<ByteRecord>) -> int { if o.len() == 0 { 0 } else { (o.len() - 1) / self.n() } }
    /// chunk `k` holds the records from `k * n`
    pub open spec fn chunk(self, o: Seq<ByteRecord>, k: int) -> Seq<ByteRecord> {
        let hi = (k + 1) * self.n();
        o.subrange(k * self.n(), if hi <= o.len() { hi } else { o.len() as int })
    }
}
pub open spec fn p_of(c: Split) -> spec_fn(Seq<ByteRecord>) -> PState {
    |o: Seq<ByteRecord>| { let k = c.last_chunk(o); (k, o.len() as int, c.file(k, c.chunk(o, k)), Seq::new(k as nat, |i: int| c.file(i, c.chunk(o, i)).finish())) }
}
pub open spec fn p_upd(c: Split) -> spec_fn(PState, ByteRecord) -> PState {
    |st: PState, r: ByteRecord| if st.1 > 0 && st.1 % c.n() == 0 { (st.0 + 1, st.1 + 1, c.file(st.0 + 1, Seq::empty()).write_byte_record(r), st.3.push(st.2.finish())) } else { (st.0, st.1 + 1, st.2.write_byte_record(r), st.3) }
}
pub open spec fn p_cnt() -> spec_fn(PState) -> int { |st: PState| st.1 }
pub open spec fn p_err() -> Result<(Seq<Writer>, Writer), XErr> { Err(x_err()) }
pub open spec fn p_file(step: spec_fn(PState, Item) -> Ctl<PState, Result<(Seq<Writer>, Writer), XErr>>) -> spec_fn(PState, Seq<u8>) -> Ctl<PState, Result<(Seq<Writer>, Writer), XErr>> {
    |st: PState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (st.0, st.1, st.2, st.3), step), Err(_) => Ctl::Ret(p_err()) }
}
/// the division of the record count by the chunk size
proof fn lem_div(len: int, n: int)
    requires len >= 1, n >= 1
    ensures 0 <= (len - 1) / n, ((len - 1) / n) * n <= len - 1 < ((len - 1) / n + 1) * n,
        len % n == 0 ==> len == ((len - 1) / n + 1) * n && len / n == (len - 1) / n + 1,
        len % n != 0 ==> len / n == (len - 1) / n,
        (len / n) * n <= len < (len / n + 1) * n,
{
    assert(0 <= (len - 1) / n && ((len - 1) / n) * n <= len - 1 < ((len - 1) / n + 1) * n) by (nonlinear_arith) requires len >= 1, n >= 1;
    assert((len / n) * n + len % n == len && 0 <= len % n < n) by (nonlinear_arith) requires len >= 1, n >= 1;
    let a = (len - 1) / n; let b = len / n;
    assert((b) * n <= len < (b + 1) * n) by (nonlinear_arith) requires b * n + len % n == len, 0 <= len % n < n;
    if len % n == 0 {
        assert(b == a + 1) by (nonlinear_arith) requires b * n == len, a * n <= len - 1 < (a + 1) * n, n >= 1;
    } else {
        assert(b == a) by (nonlinear_arith) requires b * n + len % n == len, 1 <= len % n < n, a * n <= len - 1 < (a + 1) * n, n >= 1;
    }
}
proof fn lem_chunk_le(i: int, k: int, n: int)
    requires 0 <= i < k, n >= 1
    ensures 0 <= i * n, (i + 1) * n <= k * n
{
    assert(0 <= i * n && (i + 1) * n <= k * n) by (nonlinear_arith) requires 0 <= i < k, n >= 1;
}
proof fn lem_p_upd(c: Split, o: Seq<ByteRecord>, r: ByteRecord)
    requires c.n() >= 1
    ensures p_upd(c)(p_of(c)(o), r) == p_of(c)(o.push(r))
{
    let n = c.n();
    let q = o.push(r);
    let a = p_upd(c)(p_of(c)(o), r);
    let b = p_of(c)(q);
    lem_div(q.len() as int, n);
    if o.len() == 0 {
        assert(0int / n == 0) by (nonlinear_arith) requires n >= 1;
        assert(0int * n == 0);
        assert(0int % n == 0) by (nonlinear_arith) requires n >= 1;
        assert(1 * n == n);
        assert(c.chunk(o, 0) =~= o);
        assert(c.chunk(q, 0) =~= q);
        assert(a.3 =~= b.3);
    } else {
        let k = c.last_chunk(o);
        lem_div(o.len() as int, n);
        let j = c.last_chunk(q);
        assert(j == o.len() as int / n);
        assert(0 <= k * n) by (nonlinear_arith) requires 0 <= k, n >= 1;
        assert(k * n <= o.len() - 1);
        assert forall|i: int| 0 <= i < k implies c.chunk(q, i) == #[trigger] c.chunk(o, i) by { lem_chunk_le(i, k, n); assert(0 <= i * n && (i + 1) * n <= o.len()); assert((i + 1) * n == i * n + n) by (nonlinear_arith); assert(c.chunk(q, i) =~= c.chunk(o, i)); }
        if o.len() as int % n == 0 {
            assert(j == k + 1 && o.len() == (k + 1) * n);
            assert(c.chunk(q, k) =~= c.chunk(o, k));
            assert((j + 1) * n >= q.len()) by (nonlinear_arith) requires q.len() <= j * n + 1, n >= 1;
            assert(c.chunk(q, j) =~= Seq::<ByteRecord>::empty().push(r));
            assert(a.3 =~= b.3);
        } else {
            assert(j == k);
            assert(o.len() < (k + 1) * n);
            assert(c.chunk(q, k) =~= c.chunk(o, k).push(r));
            assert(a.3 =~= b.3);
        }
    }
}
#[verifier::rlimit(200)]
pub proof fn ob_split_run(c: Split, config: Config, fs: FilterSet, m: Option<RecordMatcher>)
    requires c.filter_opts.lists() == Ok::<FilterSet, XErr>(fs), c.filter_opts.matcher_spec(config.normalization) == Ok::<Option<RecordMatcher>, XErr>(m), c.creatable(), c.n() >= 1
    ensures ({
        let step = lim_step(c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts()), p_upd(c), p_cnt(), p_err());
        c.execute(config) == (match seq_for(c.filenames, (0int, 0int, c.file(0, Seq::empty()), Seq::<Writer>::empty()), file_step(step, p_err())) { Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok((st.3, st.2.finish())) })
    })
{
    broadcast use lem_for_ext;
    let fo = c.filter_opts;
    ob_opts_lists(fo); ob_opts_options(fo); ob_opts_matcher(fo, config.normalization);
    assert forall|r: ByteRecord| #[trigger] fs.check(r) == fs.allows(r) by { ob_filter_set(fs, r); }
    assert(can_open(Some(c.path(0)), false));
    assert forall|k: int| can_open(Some(path_join(c.outdir, replace_all(c.names(), seq![123u8, 125u8], #[trigger] int_dec(k)))), false) by { assert(can_open(Some(c.path(k)), false)); }
    let step = lim_step(fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), p_upd(c), p_cnt(), p_err());
    assert forall|st: PState, p: Seq<u8>| #[trigger] p_file(step)(st, p) == file_step(step, p_err())(st, p) by { assert(st == (st.0, st.1, st.2, st.3)); }
    let res = seq_for(c.filenames, (0int, 0int, c.file(0, Seq::empty()), Seq::<Writer>::empty()), p_file(step));
    assert(res == seq_for(c.filenames, (0int, 0int, c.file(0, Seq::empty()), Seq::<Writer>::empty()), file_step(step, p_err())));
}
/// split writes file k with the records from k * n on, n of them, up to the last one
pub proof fn ob_split(c: Split, config: Config)
    requires c.filter_opts.limit >= 0, c.n() >= 1, c.creatable()
    ensures match (c.filter_opts.lists(), c.filter_opts.matcher_spec(config.normalization)) {
        (Ok(fs), Ok(m)) => match limited(stream(c.filenames), c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts())) {
            Some(o) => c.execute(config) == Ok::<(Seq<Writer>, Writer), XErr>((Seq::new(c.last_chunk(o) as nat, |i: int| c.file(i, c.chunk(o, i)).finish()), c.file(c.last_chunk(o), c.chunk(o, c.last_chunk(o))).finish())),
            None => c.execute(config) is Err,
        }
        _ => c.execute(config) is Err,
    }
{
    let fo = c.filter_opts;
    match (fo.lists(), fo.matcher_spec(config.normalization)) {
        (Ok(fs), Ok(m)) => {
            ob_split_run(c, config, fs, m);
            assert forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] p_upd(c)(p_of(c)(o), r) == p_of(c)(o.push(r)) by { lem_p_upd(c, o, r); }
            lem_run(c.filenames, fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), p_upd(c), p_cnt(), p_of(c), p_err());
            let e = Seq::<ByteRecord>::empty();
            assert(0int * c.n() == 0);
            assert(c.chunk(e, 0) =~= e);
            assert(p_of(c)(e).3 =~= Seq::<Writer>::empty());
            assert(p_of(c)(e) == (0int, 0int, c.file(0, Seq::empty()), Seq::<Writer>::empty()));
        }
        _ => { ob_opts_lists(fo); ob_opts_matcher(fo, config.normalization); }
    }
}
/// the chunks hold the chunk size, the last one at most that and at least one, and make up the input
pub proof fn ob_split_chunks(c: Split, o: Seq<ByteRecord>, k: int)
    requires c.n() >= 1, o.len() > 0, 0 <= k <= c.last_chunk(o)
    ensures k < c.last_chunk(o) ==> c.chunk(o, k).len() == c.n(),
        1 <= c.chunk(o, k).len() <= c.n(),
        forall|i: int| 0 <= i < c.chunk(o, k).len() ==> #[trigger] c.chunk(o, k)[i] == o[k * c.n() + i],
        c.last_chunk(o) * c.n() + c.chunk(o, c.last_chunk(o)).len() == o.len(),
{
    let n = c.n();
    let l = c.last_chunk(o);
    lem_div(o.len() as int, n);
    assert((k + 1) * n == k * n + n) by (nonlinear_arith);
    assert((l + 1) * n == l * n + n) by (nonlinear_arith);
    assert(0 <= k * n && 0 <= l * n) by (nonlinear_arith) requires 0 <= k, 0 <= l, n >= 1;
    if k < l { lem_chunk_le(k, l, n); }
}
}
