//@include cli_m.rs
//@include cli_opts.rs
//@include cli_sink.rs
//@include cli_csv.rs
//@include cli_query.rs
//@include cli_sort.rs
//@nomut finish
verus! {
//@type crates/pica-cli/src/commands/frequency.rs Frequency
impl Frequency {
//@fn crates/pica-cli/src/commands/frequency.rs Frequency::execute => execute out=writer ret=Result<CsvWriter,~XErr>
}
//@helpers
}
verus! {
pub type Entry = (Row, int);
pub open spec fn blank(r: Row) -> bool { forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i].len() == 0 }
pub open spec fn before(cs: Seq<Row>, r: Row) -> bool { exists|i: int| 0 <= i < cs.len() && #[trigger] cs[i] == r }
pub open spec fn dec(x: int) -> Seq<u8> { int_dec(x) }
impl Frequency {
    pub open spec fn query_opts(self) -> QueryOptions {
        QueryOptions { case_ignore: self.filter_opts.ignore_case, strsim_threshold: self.filter_opts.opts().strsim, separator: self.separator, squash: self.squash, merge: self.merge }
    }
    pub open spec fn query_of(self, config: Config) -> Result<Query, XErr> { Query::new(translit(config.normalization)(self.query)) }
    pub open spec fn target(self) -> Result<Sink, XErr> { match self.output { Some(f) => File::create(f), None => Ok(stdout()) } }
    /// whether a row counts, given the rows of the same record before it
    pub open spec fn counts(self, cs: Seq<Row>, r: Row) -> bool { !blank(r) && !(self.unique && before(cs, r)) }
    /// how often a row counts among the rows of a record
    pub open spec fn hits(self, cs: Seq<Row>, k: Row) -> int decreases cs.len() {
        if cs.len() == 0 { 0 } else { self.hits(cs.drop_last(), k) + (if cs.last() == k && self.counts(cs.drop_last(), k) { 1int } else { 0 }) }
    }
    /// how often a row counts in the records
    pub open spec fn freq(self, q: Query, o: Seq<ByteRecord>, k: Row) -> int decreases o.len() {
        if o.len() == 0 { 0 } else { self.freq(q, o.drop_last(), k) + self.hits(o.last().query(q, self.query_opts()), k) }
    }
    /// whether an entry stands above another one
    pub open spec fn ranks(self, a: Entry, b: Entry) -> bool {
        (if self.reverse { a.1 < b.1 } else { a.1 > b.1 }) || a.1 == b.1 && lex_cmp(a.0, b.0) is Less
    }
    /// the table: all rows that occur often enough, with their frequencies, by rank
    pub open spec fn is_table(self, q: Query, o: Seq<ByteRecord>, t: Seq<Entry>) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> self.ranks(#[trigger] t[i], #[trigger] t[j])
        &&& forall|e: Entry| #[trigger] t.contains(e) <==> e.1 == self.freq(q, o, e.0) && e.1 > 0 && e.1 >= self.threshold
    }
    pub open spec fn top(self, t: Seq<Entry>) -> Seq<Entry> { if 0 < self.num < t.len() { t.take(self.num) } else { t } }
    /// the text of an entry
    pub open spec fn shown(self, e: Entry) -> Row { e.0.map_values(translit(self.nf)).push(int_dec(e.1)) }
    pub open spec fn lines(self, t: Seq<Entry>) -> Seq<Row> { Seq::new(t.len(), |i: int| self.shown(t[i])) }
    pub open spec fn writer(self, s: Sink) -> CsvWriter {
        let w = CsvWriter { sink: s, delim: if self.tsv { 9u8 } else { 44u8 }, quote: None, rows: Seq::empty(), done: false };
        match self.header { Some(h) => w.write_record(header_row(h)), None => w }
    }
    // ---- the table while it is built
    pub open spec fn rt(self, m: Map<Row, int>, cs: Seq<Row>) -> Map<Row, int> decreases cs.len() {
        if cs.len() == 0 { m } else { let p = self.rt(m, cs.drop_last()); if self.counts(cs.drop_last(), cs.last()) { map_put(p, cs.last(), map_or(p, cs.last(), 0) + 1) } else { p } }
    }
    pub open spec fn sn(self, cs: Seq<Row>) -> Set<Row> decreases cs.len() {
        if cs.len() == 0 || !self.unique { Set::empty() } else if blank(cs.last()) { self.sn(cs.drop_last()) } else { self.sn(cs.drop_last()).insert(cs.last()) }
    }
    pub open spec fn ft(self, q: Query, o: Seq<ByteRecord>) -> Map<Row, int> decreases o.len() {
        if o.len() == 0 { Map::empty() } else { self.rt(self.ft(q, o.drop_last()), o.last().query(q, self.query_opts())) }
    }
}
proof fn lem_sn(c: Frequency, cs: Seq<Row>, r: Row)
    requires c.unique, !blank(r)
    ensures c.sn(cs).contains(r) == before(cs, r)
    decreases cs.len()
{
    if cs.len() > 0 {
        let p = cs.drop_last();
        lem_sn(c, p, r);
        if before(p, r) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == r; assert(cs[i] == r); }
        if cs.last() == r { assert(cs[cs.len() - 1] == r); }
        if before(cs, r) { let i = choose|i: int| 0 <= i < cs.len() && #[trigger] cs[i] == r; if i < p.len() { assert(p[i] == r); } }
    }
}
proof fn lem_rt(c: Frequency, m: Map<Row, int>, cs: Seq<Row>, k: Row)
    requires m.contains_key(k) ==> m[k] > 0
    ensures map_or(c.rt(m, cs), k, 0) == map_or(m, k, 0) + c.hits(cs, k), c.rt(m, cs).contains_key(k) ==> c.rt(m, cs)[k] > 0, c.hits(cs, k) >= 0
    decreases cs.len()
{ if cs.len() > 0 { lem_rt(c, m, cs.drop_last(), k); } }
proof fn lem_ft(c: Frequency, q: Query, o: Seq<ByteRecord>, k: Row)
    ensures c.ft(q, o).contains_key(k) == (c.freq(q, o, k) > 0), map_or(c.ft(q, o), k, 0) == c.freq(q, o, k), c.freq(q, o, k) >= 0
    decreases o.len()
{ if o.len() > 0 { lem_ft(c, q, o.drop_last(), k); lem_rt(c, c.ft(q, o.drop_last()), o.last().query(q, c.query_opts()), k); } }
pub type RState = (Map<Row, int>, Set<Row>);
pub type FState = (int, Map<Row, int>, Set<Row>);
/// one row
pub open spec fn r_next(c: Frequency, st: RState, r: Row) -> RState {
    if blank(r) { st } else if c.unique { (if st.1.contains(r) { st.0 } else { map_put(st.0, r, map_or(st.0, r, 0) + 1) }, st.1.insert(r)) } else { (map_put(st.0, r, map_or(st.0, r, 0) + 1), st.1) }
}
pub open spec fn r_all(c: Frequency, st: RState, rs: Seq<Row>) -> RState decreases rs.len() { if rs.len() == 0 { st } else { r_all(c, r_next(c, st, rs[0]), rs.subrange(1, rs.len() as int)) } }
pub open spec fn the_cmd(c: Frequency) -> bool { true }
pub broadcast proof fn lem_r_for<R>(c: Frequency, st: RState, rs: Seq<Row>, f: spec_fn(RState, Row) -> Ctl<RState, R>)
    requires forall|a: RState, r: Row| #[trigger] f(a, r) == Ctl::<RState, R>::Next(r_next(c, a, r))
    ensures #![trigger seq_for(rs, st, f), the_cmd(c)] seq_for(rs, st, f) == Ctl::<RState, R>::Next(r_all(c, st, rs))
    decreases rs.len()
{
    if rs.len() > 0 { assert(f(st, rs[0]) == Ctl::<RState, R>::Next(r_next(c, st, rs[0]))); lem_r_for(c, r_next(c, st, rs[0]), rs.subrange(1, rs.len() as int), f); }
}
pub open spec fn r_of(c: Frequency, m: Map<Row, int>, cs: Seq<Row>) -> RState { (c.rt(m, cs), c.sn(cs)) }
proof fn lem_r_next(c: Frequency, m: Map<Row, int>, cs: Seq<Row>, r: Row)
    ensures r_next(c, r_of(c, m, cs), r) == r_of(c, m, cs.push(r))
{
    let p = cs.push(r);
    assert(p.drop_last() =~= cs);
    if c.unique && !blank(r) { lem_sn(c, cs, r); }
}
proof fn lem_r_all(c: Frequency, m: Map<Row, int>, cs: Seq<Row>, rs: Seq<Row>)
    ensures r_all(c, r_of(c, m, cs), rs) == r_of(c, m, cs + rs)
    decreases rs.len()
{
    if rs.len() == 0 { assert(cs + rs =~= cs); } else {
        lem_r_next(c, m, cs, rs[0]);
        lem_r_all(c, m, cs.push(rs[0]), rs.subrange(1, rs.len() as int));
        assert(cs.push(rs[0]) + rs.subrange(1, rs.len() as int) =~= cs + rs);
    }
}
pub open spec fn last_sn(c: Frequency, q: Query, o: Seq<ByteRecord>) -> Set<Row> { if o.len() == 0 { Set::empty() } else { c.sn(o.last().query(q, c.query_opts())) } }
pub open spec fn f_of(c: Frequency, q: Query) -> spec_fn(Seq<ByteRecord>) -> FState { |o: Seq<ByteRecord>| (o.len() as int, c.ft(q, o), last_sn(c, q, o)) }
pub open spec fn f_upd(c: Frequency, q: Query) -> spec_fn(FState, ByteRecord) -> FState { |st: FState, r: ByteRecord| { let n = r_all(c, (st.1, Set::<Row>::empty()), r.query(q, c.query_opts())); (st.0 + 1, n.0, n.1) } }
pub open spec fn f_cnt() -> spec_fn(FState) -> int { |st: FState| st.0 }
pub open spec fn f_err() -> Result<CsvWriter, XErr> { Err(x_err()) }
pub open spec fn f_file(step: spec_fn(FState, Item) -> Ctl<FState, Result<CsvWriter, XErr>>) -> spec_fn(FState, Seq<u8>) -> Ctl<FState, Result<CsvWriter, XErr>> {
    |st: FState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (st.0, st.1, st.2), step), Err(_) => Ctl::Ret(f_err()) }
}
proof fn lem_f_upd(c: Frequency, q: Query)
    ensures forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] f_upd(c, q)(f_of(c, q)(o), r) == f_of(c, q)(o.push(r))
{
    assert forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] f_upd(c, q)(f_of(c, q)(o), r) == f_of(c, q)(o.push(r)) by {
        assert(o.push(r).drop_last() =~= o);
        let m = c.ft(q, o);
        let rs = r.query(q, c.query_opts());
        let e = Seq::<Row>::empty();
        lem_r_all(c, m, e, rs);
        assert(e + rs =~= rs);
        assert(r_of(c, m, e) == (m, Set::<Row>::empty()));
    }
}
// ---- the sorted table
pub open spec fn rank(c: Frequency) -> spec_fn(Entry, Entry) -> Ordering {
    |a: Entry, b: Entry| match (if c.reverse { int_cmp(a.1, b.1) } else { int_cmp(b.1, a.1) }) { Ordering::Equal => lex_cmp(a.0, b.0), o => o }
}
pub open spec fn often(c: Frequency) -> spec_fn(Entry) -> bool { |e: Entry| e.1 >= c.threshold }
pub open spec fn table(c: Frequency, m: Map<Row, int>) -> Seq<Entry> { map_items(m).filter(often(c)).x_sort_by(rank(c)) }
proof fn lem_rank(c: Frequency)
    ensures total(rank(c)), forall|a: Entry, b: Entry| (#[trigger] rank(c)(a, b) is Less) == c.ranks(a, b)
{
    lem_total_int();
    lem_total_seq::<u8>();
    lem_total_seq::<Seq<u8>>();
    let l = cmp_fn::<Row>();
    let f = rank(c);
    assert(total(l));
    assert forall|a: Entry, b: Entry| (#[trigger] f(a, b) is Equal) == (a == b) by { assert((l(a.0, b.0) is Equal) == (a.0 == b.0)); }
    assert forall|a: Entry, b: Entry| #[trigger] f(a, b) == flip(f(b, a)) by { assert(l(a.0, b.0) == flip(l(b.0, a.0))); }
    assert forall|a: Entry, b: Entry, d: Entry| #![trigger f(a, b), f(b, d)] !(f(a, b) is Greater) && !(f(b, d) is Greater) implies !(f(a, d) is Greater) by {
        if a.1 == b.1 && b.1 == d.1 { assert(!(l(a.0, b.0) is Greater) && !(l(b.0, d.0) is Greater)); assert(!(l(a.0, d.0) is Greater)); }
    }
}
/// the sorted entries of the counts are the table of the property
pub proof fn lem_table(c: Frequency, q: Query, o: Seq<ByteRecord>)
    requires lists_entries(map_items(c.ft(q, o)), c.ft(q, o))
    ensures c.is_table(q, o, table(c, c.ft(q, o)))
{
    let m = c.ft(q, o);
    let s = map_items(m);
    let k = s.filter(often(c));
    let t = table(c, m);
    lem_rank(c);
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(s[i].0 != s[j].0); } else { assert(s[j].0 != s[i].0); } } }
    lem_filter_once(s, often(c));
    lem_sorted(k, rank(c));
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies c.ranks(#[trigger] t[i], #[trigger] t[j]) by {
        assert(t[i] != t[j]);
        assert(!(rank(c)(t[i], t[j]) is Greater));
        assert((rank(c)(t[i], t[j]) is Equal) == (t[i] == t[j]));
    }
    assert forall|e: Entry| #[trigger] t.contains(e) <==> e.1 == c.freq(q, o, e.0) && e.1 > 0 && e.1 >= c.threshold by {
        lem_ft(c, q, o, e.0);
        assert(t.contains(e) == k.contains(e));
        if k.contains(e) {
            let i = choose|i: int| 0 <= i < k.len() && k[i] == e;
            lem_filter_elem(s, often(c), i);
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == k[i];
            assert(m.contains_key(s[j].0) && m[s[j].0] == s[j].1);
        }
        if e.1 == c.freq(q, o, e.0) && e.1 > 0 && e.1 >= c.threshold {
            assert(m.contains_key(e.0));
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (e.0, m[e.0]);
            assert(s[i] == e);
            lem_filter_has(s, often(c), i);
        }
    }
}
/// two tables of the same counts are the same
pub proof fn ob_freq_table_unique(c: Frequency, q: Query, o: Seq<ByteRecord>, s: Seq<Entry>, t: Seq<Entry>)
    requires c.is_table(q, o, s), c.is_table(q, o, t)
    ensures s == t
{
    lem_rank(c);
    assert forall|x: Entry| s.contains(x) == t.contains(x) by { }
    lem_same_order(c, s, t);
}
proof fn lem_same_order(c: Frequency, s: Seq<Entry>, t: Seq<Entry>)
    requires total(rank(c)), forall|a: Entry, b: Entry| (#[trigger] rank(c)(a, b) is Less) == c.ranks(a, b),
        forall|x: Entry| #[trigger] s.contains(x) == t.contains(x),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> c.ranks(#[trigger] s[i], #[trigger] s[j]),
        forall|i: int, j: int| 0 <= i < j < t.len() ==> c.ranks(#[trigger] t[i], #[trigger] t[j])
    ensures s == t
    decreases s.len()
{
    let f = rank(c);
    if s.len() == 0 { if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); } assert(s =~= t); }
    else if t.len() == 0 { assert(s.contains(s[0])); assert(t.contains(s[0])); }
    else {
        assert(s.contains(s[0]) && t.contains(t[0]));
        assert(t.contains(s[0]) && s.contains(t[0]));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == s[0];
        let i = choose|i: int| 0 <= i < s.len() && s[i] == t[0];
        if i > 0 && j > 0 {
            assert(c.ranks(s[0], s[i]) && c.ranks(t[0], t[j]));
            assert(f(s[0], t[0]) is Less && f(t[0], s[0]) is Less);
            assert(f(s[0], t[0]) == flip(f(t[0], s[0])));
        }
        assert(s[0] == t[0]);
        let a = s.subrange(1, s.len() as int);
        let b = t.subrange(1, t.len() as int);
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies c.ranks(#[trigger] a[i], #[trigger] a[j]) by { assert(a[i] == s[i + 1] && a[j] == s[j + 1]); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies c.ranks(#[trigger] b[i], #[trigger] b[j]) by { assert(b[i] == t[i + 1] && b[j] == t[j + 1]); }
        assert forall|x: Entry| #[trigger] a.contains(x) == b.contains(x) by {
            if a.contains(x) {
                let k = choose|k: int| 0 <= k < a.len() && a[k] == x;
                assert(s[k + 1] == x); assert(s.contains(x)); assert(c.ranks(s[0], s[k + 1]));
                assert((f(x, x) is Equal) == (x == x));
                let l = choose|l: int| 0 <= l < t.len() && t[l] == x;
                assert(l != 0);
                assert(b[l - 1] == x);
            }
            if b.contains(x) {
                let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
                assert(t[k + 1] == x); assert(t.contains(x)); assert(c.ranks(t[0], t[k + 1]));
                assert((f(x, x) is Equal) == (x == x));
                assert(s.contains(x) == t.contains(x)); assert(x != t[0]);
                let l = choose|l: int| 0 <= l < s.len() && s[l] == x;
                assert(l != 0);
                assert(a[l - 1] == x);
            }
        }
        lem_same_order(c, a, b);
        assert(s =~= seq![s[0]] + a);
        assert(t =~= seq![t[0]] + b);
    }
}
// ---- writing the table
proof fn lem_sort_ext(c: Frequency, s: Seq<Entry>, f: spec_fn(Entry, Entry) -> Ordering)
    requires forall|a: Entry, b: Entry| #[trigger] f(a, b) == rank(c)(a, b)
    ensures s.x_sort_by(f) == s.x_sort_by(rank(c))
{ assert(f =~= rank(c)); }
broadcast proof fn lem_sort_b(c: Frequency, s: Seq<Entry>, f: spec_fn(Entry, Entry) -> Ordering)
    requires forall|a: Entry, b: Entry| #[trigger] f(a, b) == rank(c)(a, b)
    ensures #![trigger s.x_sort_by(f), the_cmd(c)] s.x_sort_by(f) == s.x_sort_by(rank(c))
{ lem_sort_ext(c, s, f); }
pub open spec fn w_step<R>(c: Frequency) -> spec_fn(CsvWriter, (int, Entry)) -> Ctl<CsvWriter, R> {
    |w: CsvWriter, p: (int, Entry)| if c.num > 0 && p.0 >= c.num { Ctl::Brk(w) } else { Ctl::Next(w.write_record(c.shown(p.1))) }
}
pub open spec fn end_of<R>(x: Ctl<CsvWriter, R>) -> Option<CsvWriter> { match x { Ctl::Next(w) | Ctl::Brk(w) => Some(w), Ctl::Ret(_) => None } }
proof fn lem_write<R>(c: Frequency, w: CsvWriter, t: Seq<Entry>, i: int)
    requires 0 <= i <= t.len(), c.num > 0 ==> i <= c.num, c.num >= 0
    ensures end_of(seq_for(t.x_enumerate().subrange(i, t.len() as int), w.with(c.lines(t.take(i))), w_step::<R>(c))) == Some(w.with(c.lines(c.top(t))))
    decreases t.len() - i
{
    let e = t.x_enumerate();
    let s = e.subrange(i, t.len() as int);
    if i < t.len() {
        assert(s[0] == (i, t[i]));
        if c.num > 0 && i >= c.num { assert(t.take(i) =~= c.top(t)); } else {
            assert(s.subrange(1, s.len() as int) =~= e.subrange(i + 1, t.len() as int));
            assert((w.rows + c.lines(t.take(i))).push(c.shown(t[i])) =~= w.rows + c.lines(t.take(i + 1)));
            lem_write::<R>(c, w, t, i + 1);
        }
    } else { assert(t.take(i) =~= c.top(t)); }
}
pub proof fn ob_freq_options(c: Frequency)
    ensures MatcherOptions::from_query(c.query_opts()) == c.filter_opts.opts(),
{ }
broadcast proof fn lem_shown(c: Frequency, r: Row, f: spec_fn(Seq<u8>) -> Seq<u8>)
    requires forall|x: Seq<u8>| #[trigger] f(x) == x
    ensures #![trigger r.x_map(f), the_cmd(c)] r.x_map(f) == r
{ assert(r.x_map(f) =~= r); }
pub open spec fn finish(c: Frequency, w: CsvWriter, m: Map<Row, int>) -> Result<CsvWriter, XErr> {
    match seq_for(table(c, m).x_enumerate(), w, w_step::<Result<CsvWriter, XErr>>(c)) { Ctl::Ret(e) => e, Ctl::Next(w) | Ctl::Brk(w) => Ok(w.x_flush()) }
}
#[verifier::rlimit(200)]
pub proof fn ob_freq_run(c: Frequency, config: Config, fs: FilterSet, m: Option<RecordMatcher>, q: Query, s: Sink)
    requires c.filter_opts.lists() == Ok::<FilterSet, XErr>(fs), c.filter_opts.matcher_spec(config.normalization) == Ok::<Option<RecordMatcher>, XErr>(m), c.query_of(config) == Ok::<Query, XErr>(q), c.target() == Ok::<Sink, XErr>(s)
    ensures ({
        let step = lim_step(c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts()), f_upd(c, q), f_cnt(), f_err());
        c.execute(config) == (match seq_for(c.filenames, (0int, Map::<Row, int>::empty(), Set::<Row>::empty()), file_step(step, f_err())) { Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => finish(c, c.writer(s), st.1) })
    })
{
    broadcast use {lem_for_ext, lem_r_for, lem_shown, lem_sort_b, lem_filter_ext};
    assert(the_cmd(c));
    let fo = c.filter_opts;
    ob_opts_lists(fo); ob_opts_options(fo); ob_opts_matcher(fo, config.normalization);
    ob_freq_options(c);
    assert forall|r: ByteRecord| #[trigger] fs.check(r) == fs.allows(r) by { ob_filter_set(fs, r); }
    assert forall|r: Row| #[trigger] blank(r) == !r.x_any(|e: Seq<u8>| !e.x_is_empty()) by { }
    if let Some(h) = c.header { assert(header_row(h) =~= h.split(',').x_map(|z_: Seq<u8>| z_.x_trim())); }
    let step = lim_step(fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), f_upd(c, q), f_cnt(), f_err());
    assert forall|st: FState, p: Seq<u8>| #[trigger] f_file(step)(st, p) == file_step(step, f_err())(st, p) by { assert(st == (st.0, st.1, st.2)); }
    let i = (0int, Map::<Row, int>::empty(), Set::<Row>::empty());
    let res = seq_for(c.filenames, i, f_file(step));
    assert(res == seq_for(c.filenames, i, file_step(step, f_err())));
    assert forall|m: Map<Row, int>| true implies #[trigger] map_items(m).filter(often(c)) == map_items(m).x_filter(|p: Entry| p.1.x_ge(c.threshold)) by { }
}
pub proof fn ob_freq(c: Frequency, config: Config)
    requires c.filter_opts.limit >= 0, c.num >= 0, forall|m: Map<Row, int>| lists_entries(#[trigger] map_items(m), m)
    ensures match (c.filter_opts.lists(), c.filter_opts.matcher_spec(config.normalization), c.query_of(config), c.target()) {
        (Ok(fs), Ok(m), Ok(q), Ok(s)) => match limited(stream(c.filenames), c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, selects(fs, m, c.filter_opts.opts())) {
            Some(o) => exists|t: Seq<Entry>| c.is_table(q, o, t) && c.execute(config) == Ok::<CsvWriter, XErr>(c.writer(s).with(#[trigger] c.lines(c.top(t))).x_flush()),
            None => c.execute(config) is Err,
        }
        _ => c.execute(config) is Err,
    }
{
    let fo = c.filter_opts;
    match (fo.lists(), fo.matcher_spec(config.normalization), c.query_of(config), c.target()) {
        (Ok(fs), Ok(m), Ok(q), Ok(s)) => {
            let w = c.writer(s);
            ob_freq_run(c, config, fs, m, q, s);
            lem_f_upd(c, q);
            lem_run(c.filenames, fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts()), f_upd(c, q), f_cnt(), f_of(c, q), f_err());
            assert(f_of(c, q)(Seq::empty()) == (0int, Map::<Row, int>::empty(), Set::<Row>::empty()));
            if let Some(o) = limited(stream(c.filenames), fo.skip_invalid || config.skip_invalid, fo.limit, selects(fs, m, fo.opts())) {
                let t = table(c, c.ft(q, o));
                lem_table(c, q, o);
                lem_write::<Result<CsvWriter, XErr>>(c, w, t, 0);
                assert(t.x_enumerate().subrange(0, t.len() as int) =~= t.x_enumerate());
                assert(w.rows + c.lines(t.take(0)) =~= w.rows);
                assert(c.is_table(q, o, t));
                assert(c.execute(config) == Ok::<CsvWriter, XErr>(w.with(c.lines(c.top(t))).x_flush()));
            }
        }
        _ => { ob_opts_lists(fo); ob_opts_matcher(fo, config.normalization); }
    }
}
}
