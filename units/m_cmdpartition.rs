//@include cli_m.rs
//@include cli_opts.rs
//@include cli_fs.rs
//@include cli_sort.rs
verus! {
//@type crates/pica-cli/src/commands/partition.rs Partition
impl Partition {
//@fn crates/pica-cli/src/commands/partition.rs Partition::execute => execute collect=writer out=writer__log ret=Result<Seq<Writer>,~XErr>
}
//@helpers
}
verus! {
pub type Vals = Seq<Seq<u8>>;
pub type Parts = Map<Seq<u8>, Writer>;
pub open spec fn blank_text() -> Seq<u8> { seq![123u8, 125u8] }
/// the values of a record, each once
pub open spec fn sv(vs: Vals) -> Vals { seq_dedup(vs.x_sort_unstable()) }
impl Partition {
    pub open spec fn names(self) -> Seq<u8> {
        match self.template { Some(t) => t, None => if self.gzip { seq![123u8, 125u8, 46u8, 100u8, 97u8, 116u8, 46u8, 103u8, 122u8] } else { seq![123u8, 125u8, 46u8, 100u8, 97u8, 116u8] } }
    }
    /// the file of a value
    pub open spec fn file_path(self, v: Seq<u8>) -> Seq<u8> { path_join(self.outdir, replace_all(self.names(), blank_text(), v)) }
    pub open spec fn file(self, v: Seq<u8>, part: Seq<ByteRecord>) -> Writer { Writer { gzip: self.gzip, append: false, dest: Some(self.file_path(v)), out: part, done: false } }
    /// all output files can be created
    pub open spec fn creatable(self) -> bool { (path_exists(self.outdir) || create_dir_all(self.outdir) is Ok) && forall|v: Seq<u8>| can_open(Some(#[trigger] self.file_path(v)), false) }
    pub open spec fn vals(self, r: ByteRecord) -> Vals { r.path(self.path, self.filter_opts.opts()) }
    /// the records that have the value, in order
    pub open spec fn part(self, v: Seq<u8>, o: Seq<ByteRecord>) -> Seq<ByteRecord> decreases o.len() {
        if o.len() == 0 { Seq::empty() } else if self.vals(o.last()).contains(v) { self.part(v, o.drop_last()).push(o.last()) } else { self.part(v, o.drop_last()) }
    }
    /// one finished file per value that occurs, with the records that have it
    pub open spec fn is_parts(self, o: Seq<ByteRecord>, ws: Seq<Writer>) -> bool {
        &&& exists|vs: Vals| #[trigger] self.lists(o, vs) && ws == Seq::new(vs.len(), |i: int| self.file(vs[i], self.part(vs[i], o)).finish())
    }
    /// each value that occurs, once
    pub open spec fn lists(self, o: Seq<ByteRecord>, vs: Vals) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < vs.len() ==> #[trigger] vs[i] != #[trigger] vs[j]
        &&& forall|v: Seq<u8>| #[trigger] vs.contains(v) <==> self.part(v, o).len() > 0
    }
    // ---- the files while they are written
    pub open spec fn add(self, m: Parts, v: Seq<u8>, r: ByteRecord) -> Parts {
        let n = if m.contains_key(v) { m } else { map_put(m, v, self.file(v, Seq::empty())) };
        map_put(n, v, n[v].write_byte_record(r))
    }
    pub open spec fn add_all(self, m: Parts, vs: Vals, r: ByteRecord) -> Parts decreases vs.len() {
        if vs.len() == 0 { m } else { self.add_all(self.add(m, vs[0], r), vs.subrange(1, vs.len() as int), r) }
    }
    pub open spec fn pt(self, o: Seq<ByteRecord>) -> Parts decreases o.len() {
        if o.len() == 0 { Map::empty() } else { self.add_all(self.pt(o.drop_last()), sv(self.vals(o.last())), o.last()) }
    }
}
proof fn lem_sv(vs: Vals)
    ensures forall|v: Seq<u8>| sv(vs).contains(v) == vs.contains(v), forall|i: int, j: int| 0 <= i < j < sv(vs).len() ==> #[trigger] sv(vs)[i] != #[trigger] sv(vs)[j],
        sv(vs).len() == 0 <==> vs.len() == 0
{
    let f = cmp_fn::<Seq<u8>>();
    lem_total_int();
    lem_total_seq::<u8>();
    lem_sorted(vs, f);
    let s = vs.x_sort_unstable();
    lem_dedup(s, f);
    let r = sv(vs);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] by { assert(f(r[i], r[j]) is Less); assert((f(r[i], r[j]) is Equal) == (r[i] == r[j])); }
}
proof fn lem_add_all(c: Partition, m: Parts, vs: Vals, r: ByteRecord, v: Seq<u8>)
    requires forall|i: int, j: int| 0 <= i < j < vs.len() ==> #[trigger] vs[i] != #[trigger] vs[j]
    ensures ({
        let n = c.add_all(m, vs, r);
        &&& n.contains_key(v) == (m.contains_key(v) || vs.contains(v))
        &&& m.contains_key(v) && !vs.contains(v) ==> n[v] == m[v]
        &&& m.contains_key(v) && vs.contains(v) ==> n[v] == m[v].write_byte_record(r)
        &&& !m.contains_key(v) && vs.contains(v) ==> n[v] == c.file(v, Seq::empty()).write_byte_record(r)
    })
    decreases vs.len()
{
    if vs.len() > 0 {
        let t = vs.subrange(1, vs.len() as int);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] != #[trigger] t[j] by { assert(t[i] == vs[i + 1] && t[j] == vs[j + 1]); }
        lem_add_all(c, c.add(m, vs[0], r), t, r, v);
        if t.contains(v) { let i = choose|i: int| 0 <= i < t.len() && t[i] == v; assert(vs[i + 1] == v); assert(vs[0] != vs[i + 1]); assert(vs.contains(v)); }
        if vs.contains(v) { let i = choose|i: int| 0 <= i < vs.len() && vs[i] == v; if i > 0 { assert(t[i - 1] == v); assert(t.contains(v)); } }
        if vs[0] == v { assert(vs.contains(v)); }
    }
}
proof fn lem_pt(c: Partition, o: Seq<ByteRecord>, v: Seq<u8>)
    ensures c.pt(o).contains_key(v) == (c.part(v, o).len() > 0), c.pt(o).contains_key(v) ==> c.pt(o)[v] == c.file(v, c.part(v, o))
    decreases o.len()
{
    if o.len() > 0 {
        let p = o.drop_last();
        lem_pt(c, p, v);
        let vs = c.vals(o.last());
        lem_sv(vs);
        lem_add_all(c, c.pt(p), sv(vs), o.last(), v);
        assert(sv(vs).contains(v) == vs.contains(v));
        if c.part(v, p).len() == 0 { assert(c.part(v, p) =~= Seq::empty()); }
    }
}
pub type PState = (int, Parts);
pub open spec fn the_cmd(c: Partition, r: ByteRecord) -> bool { true }
pub broadcast proof fn lem_v_for<R>(c: Partition, m: Parts, vs: Vals, r: ByteRecord, f: spec_fn(Parts, Seq<u8>) -> Ctl<Parts, R>)
    requires forall|a: Parts, v: Seq<u8>| #[trigger] f(a, v) == Ctl::<Parts, R>::Next(c.add(a, v, r))
    ensures #![trigger seq_for(vs, m, f), the_cmd(c, r)] seq_for(vs, m, f) == Ctl::<Parts, R>::Next(c.add_all(m, vs, r))
    decreases vs.len()
{
    if vs.len() > 0 { assert(f(m, vs[0]) == Ctl::<Parts, R>::Next(c.add(m, vs[0], r))); lem_v_for(c, c.add(m, vs[0], r), vs.subrange(1, vs.len() as int), r, f); }
}
/// a selected record that has a value
pub open spec fn p_emit(c: Partition, fs: FilterSet, m: Option<RecordMatcher>) -> EmitFn<ByteRecord> {
    |x: Option<Item>| match selects(fs, m, c.filter_opts.opts())(x) { Some(r) => if c.vals(r).len() > 0 { Some(r) } else { None }, None => None }
}
pub open spec fn p_of(c: Partition) -> spec_fn(Seq<ByteRecord>) -> PState { |o: Seq<ByteRecord>| (o.len() as int, c.pt(o)) }
pub open spec fn p_upd(c: Partition) -> spec_fn(PState, ByteRecord) -> PState { |st: PState, r: ByteRecord| if the_cmd(c, r) { (st.0 + 1, c.add_all(st.1, sv(c.vals(r)), r)) } else { st } }
pub open spec fn p_cnt() -> spec_fn(PState) -> int { |st: PState| st.0 }
pub open spec fn p_err() -> Result<Seq<Writer>, XErr> { Err(x_err()) }
pub open spec fn p_file(step: spec_fn(PState, Item) -> Ctl<PState, Result<Seq<Writer>, XErr>>) -> spec_fn(PState, Seq<u8>) -> Ctl<PState, Result<Seq<Writer>, XErr>> {
    |st: PState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (st.0, st.1), step), Err(_) => Ctl::Ret(p_err()) }
}
/// the open files, finished
pub open spec fn finished(s: Seq<(Seq<u8>, Writer)>) -> Seq<Writer> { Seq::new(s.len(), |i: int| s[i].1.finish()) }
broadcast proof fn lem_finished(s: Seq<(Seq<u8>, Writer)>, f: spec_fn(Seq<Writer>, (Seq<u8>, Writer)) -> Seq<Writer>)
    requires forall|a: Seq<Writer>, e: (Seq<u8>, Writer)| #[trigger] f(a, e) == a.push(e.1.finish())
    ensures #[trigger] seq_fold(s, Seq::empty(), f) == finished(s)
    decreases s.len()
{
    if s.len() > 0 { lem_finished(s.drop_last(), f); assert(f(finished(s.drop_last()), s.last()) == finished(s.drop_last()).push(s.last().1.finish())); assert(finished(s.drop_last()).push(s.last().1.finish()) =~= finished(s)); }
    else { assert(finished(s) =~= Seq::empty()); }
}
#[verifier::rlimit(200)]
pub proof fn ob_partition_run(c: Partition, config: Config, fs: FilterSet, m: Option<RecordMatcher>)
    requires c.filter_opts.lists() == Ok::<FilterSet, XErr>(fs), c.filter_opts.matcher_spec(config.normalization) == Ok::<Option<RecordMatcher>, XErr>(m), c.creatable()
    ensures ({
        let step = lim_step(c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, p_emit(c, fs, m), p_upd(c), p_cnt(), p_err());
        c.execute(config) == (match seq_for(c.filenames, (0int, Map::<Seq<u8>, Writer>::empty()), file_step(step, p_err())) { Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok(finished(map_items(st.1))) })
    })
{
    broadcast use {lem_for_ext, lem_v_for, lem_finished};
    let fo = c.filter_opts;
    ob_opts_lists(fo); ob_opts_options(fo); ob_opts_matcher(fo, config.normalization);
    assert forall|r: ByteRecord| #[trigger] fs.check(r) == fs.allows(r) by { ob_filter_set(fs, r); }
    assert forall|v: Seq<u8>| can_open(Some(path_join(c.outdir, #[trigger] replace_all(c.names(), blank_text(), v))), false) by { assert(can_open(Some(c.file_path(v)), false)); }
    assert forall|vs: Vals| (#[trigger] sv(vs)).len() == 0 <==> vs.len() == 0 by { lem_sv(vs); }
    let step = lim_step(fo.skip_invalid || config.skip_invalid, fo.limit, p_emit(c, fs, m), p_upd(c), p_cnt(), p_err());
    assert forall|st: PState, p: Seq<u8>| #[trigger] p_file(step)(st, p) == file_step(step, p_err())(st, p) by { assert(st == (st.0, st.1)); }
    let i = (0int, Map::<Seq<u8>, Writer>::empty());
    let res = seq_for(c.filenames, i, p_file(step));
    assert(res == seq_for(c.filenames, i, file_step(step, p_err())));
}
/// partition writes one file per value, with exactly the records that have it, in input order
pub proof fn ob_partition(c: Partition, config: Config)
    requires c.filter_opts.limit >= 0, c.creatable(), forall|m: Parts| lists_entries(#[trigger] map_items(m), m)
    ensures match (c.filter_opts.lists(), c.filter_opts.matcher_spec(config.normalization)) {
        (Ok(fs), Ok(m)) => match limited(stream(c.filenames), c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit, p_emit(c, fs, m)) {
            Some(o) => c.execute(config) is Ok && c.is_parts(o, c.execute(config)->Ok_0),
            None => c.execute(config) is Err,
        }
        _ => c.execute(config) is Err,
    }
{
    let fo = c.filter_opts;
    match (fo.lists(), fo.matcher_spec(config.normalization)) {
        (Ok(fs), Ok(m)) => {
            ob_partition_run(c, config, fs, m);
            assert forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] p_upd(c)(p_of(c)(o), r) == p_of(c)(o.push(r)) by { assert(o.push(r).drop_last() =~= o); }
            lem_run(c.filenames, fo.skip_invalid || config.skip_invalid, fo.limit, p_emit(c, fs, m), p_upd(c), p_cnt(), p_of(c), p_err());
            assert(p_of(c)(Seq::empty()) == (0int, Map::<Seq<u8>, Writer>::empty()));
            if let Some(o) = limited(stream(c.filenames), fo.skip_invalid || config.skip_invalid, fo.limit, p_emit(c, fs, m)) {
                lem_parts(c, o);
            }
        }
        _ => { ob_opts_lists(fo); ob_opts_matcher(fo, config.normalization); }
    }
}
proof fn lem_parts(c: Partition, o: Seq<ByteRecord>)
    requires lists_entries(map_items(c.pt(o)), c.pt(o))
    ensures c.is_parts(o, finished(map_items(c.pt(o))))
{
    let m = c.pt(o);
    let s = map_items(m);
    let vs = Seq::new(s.len(), |i: int| s[i].0);
    assert(c.lists(o, vs)) by {
        assert forall|i: int, j: int| 0 <= i < j < vs.len() implies #[trigger] vs[i] != #[trigger] vs[j] by { assert(s[i].0 != s[j].0); }
        assert forall|v: Seq<u8>| #[trigger] vs.contains(v) <==> c.part(v, o).len() > 0 by {
            lem_pt(c, o, v);
            if vs.contains(v) { let i = choose|i: int| 0 <= i < vs.len() && vs[i] == v; assert(m.contains_key(s[i].0)); }
            if m.contains_key(v) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (v, m[v]); assert(vs[i] == v); }
        }
    }
    assert(finished(s) =~= Seq::new(vs.len(), |i: int| c.file(vs[i], c.part(vs[i], o)).finish())) by {
        assert forall|i: int| 0 <= i < s.len() implies s[i].1 == c.file(vs[i], c.part(vs[i], o)) by { lem_pt(c, o, s[i].0); assert(m.contains_key(s[i].0) && m[s[i].0] == s[i].1); }
    }
}
}
