//@include cli_m.rs
//@include cli_hex.rs
//@ret record_key = Seq<u8>
verus! {
//@type crates/pica-cli/src/commands/concat.rs Strategy
//@type crates/pica-cli/src/commands/concat.rs Concat
//@fn crates/pica-cli/src/commands/concat.rs record_key => record_key free
impl Concat {
//@fn crates/pica-cli/src/commands/concat.rs Concat::execute => execute out=writer,tee_writer ret=Result<(Writer,~Option<Writer>),~XErr>
}
//@helpers
}

verus! {
/// a record's key: its IDN, or its content hash in hexadecimal
pub open spec fn key(c: Concat, r: ByteRecord) -> Seq<u8> {
    match c.unique_strategy { Strategy::Idn => match r.ppn() { Some(p) => p, None => Seq::empty() }, Strategy::Hash => hex(r.sha256()) }
}
pub proof fn ob_concat_key(c: Concat, r: ByteRecord)
    ensures record_key(r, c.unique_strategy) == key(c, r)
{
    broadcast use lem_hex;
}
/// an earlier record has the same key
pub open spec fn repeated(c: Concat, o: Seq<ByteRecord>, r: ByteRecord) -> bool { exists|i: int| 0 <= i < o.len() && key(c, #[trigger] o[i]) == key(c, r) }
/// what is left of the input: everything, or with --unique the first record of every key
pub open spec fn kept(c: Concat, o: Seq<ByteRecord>) -> Seq<ByteRecord> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else if c.unique && (key(c, o.last()).len() == 0 || repeated(c, o.drop_last(), o.last())) { kept(c, o.drop_last()) } else { kept(c, o.drop_last()).push(o.last()) }
}
pub open spec fn seen_of(c: Concat, o: Seq<ByteRecord>) -> Set<Seq<u8>> decreases o.len() {
    if o.len() == 0 || !c.unique { Set::empty() } else if key(c, o.last()).len() == 0 { seen_of(c, o.drop_last()) } else { seen_of(c, o.drop_last()).insert(key(c, o.last())) }
}
proof fn lem_seen(c: Concat, o: Seq<ByteRecord>, r: ByteRecord)
    ensures c.unique ==> seen_of(c, o).contains(key(c, r)) == (key(c, r).len() > 0 && repeated(c, o, r))
    decreases o.len()
{
    if c.unique && o.len() > 0 {
        let p = o.drop_last();
        lem_seen(c, p, r);
        if repeated(c, p, r) { let i = choose|i: int| 0 <= i < p.len() && key(c, #[trigger] p[i]) == key(c, r); assert(o[i] == p[i]); }
        if key(c, o.last()) == key(c, r) { assert(o[o.len() - 1] == o.last()); }
        if repeated(c, o, r) { let i = choose|i: int| 0 <= i < o.len() && key(c, #[trigger] o[i]) == key(c, r); if i < p.len() { assert(p[i] == o[i]); } else { assert(o[i] == o.last()); } }
    }
}
pub type KState = (Set<Seq<u8>>, Option<Writer>, Writer);
pub open spec fn every() -> EmitFn<ByteRecord> { |x: Option<Item>| match x { Some(Ok(r)) => Some(r), _ => None } }
pub open spec fn tee_with(w: Option<Writer>, o: Seq<ByteRecord>) -> Option<Writer> { match w { Some(w) => Some(w.with(o)), None => None } }
pub open spec fn k_of(c: Concat, w: Writer, t: Option<Writer>) -> spec_fn(Seq<ByteRecord>) -> KState { |o: Seq<ByteRecord>| (seen_of(c, o), tee_with(t, kept(c, o)), w.with(kept(c, o))) }
pub open spec fn k_upd(c: Concat) -> spec_fn(KState, ByteRecord) -> KState {
    |st: KState, r: ByteRecord| if c.unique && (st.0.contains(key(c, r)) || key(c, r).len() == 0) { (st.0, st.1, st.2) } else {
        (if c.unique { st.0.insert(key(c, r)) } else { st.0 }, match st.1 { Some(w) => Some(w.write_byte_record(r)), None => None }, st.2.write_byte_record(r)) }
}
proof fn lem_k_upd(c: Concat, w: Writer, t: Option<Writer>)
    ensures forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] k_upd(c)(k_of(c, w, t)(o), r) == k_of(c, w, t)(o.push(r))
{
    assert forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] k_upd(c)(k_of(c, w, t)(o), r) == k_of(c, w, t)(o.push(r)) by {
        let p = o.push(r);
        assert(p.drop_last() =~= o);
        let k = kept(c, o);
        assert((w.out + k).push(r) =~= w.out + k.push(r));
        if let Some(tw) = t { assert((tw.out + k).push(r) =~= tw.out + k.push(r)); }
        lem_seen(c, o, r);
        assert(p.last() == r);
        if c.unique && repeated(c, o, r) && key(c, r).len() > 0 { assert(seen_of(c, o).insert(key(c, r)) =~= seen_of(c, o)); }
    }
}
impl Concat {
    pub open spec fn writer(self) -> Result<Writer, XErr> { open_writer(self.output, false, self.append) }
    pub open spec fn tee_writer(self) -> Result<Option<Writer>, XErr> {
        match self.tee { None => Ok(None), Some(p) => match open_writer(Some(p), false, self.append) { Ok(w) => Ok(Some(w)), Err(_) => Err(x_err()) } }
    }
}
pub open spec fn k_err() -> Result<(Writer, Option<Writer>), XErr> { Err(x_err()) }
pub open spec fn k_step(c: Concat, config: Config) -> spec_fn(KState, Item) -> Ctl<KState, Result<(Writer, Option<Writer>), XErr>> {
    lim_step(c.skip_invalid || config.skip_invalid, 0, every(), k_upd(c), |st: KState| 0, k_err())
}
pub open spec fn k_file(step: spec_fn(KState, Item) -> Ctl<KState, Result<(Writer, Option<Writer>), XErr>>) -> spec_fn(KState, Seq<u8>) -> Ctl<KState, Result<(Writer, Option<Writer>), XErr>> {
    |st: KState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (st.0, st.1, st.2), step), Err(_) => Ctl::Ret(k_err()) }
}
pub proof fn ob_concat_run(c: Concat, config: Config, w: Writer, t: Option<Writer>)
    requires c.writer() == Ok::<Writer, XErr>(w), c.tee_writer() == Ok::<Option<Writer>, XErr>(t)
    ensures c.execute(config) == (match seq_for(c.filenames, (Set::<Seq<u8>>::empty(), t, w), file_step(k_step(c, config), k_err())) {
        Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok((st.2.finish(), match st.1 { Some(w) => Some(w.finish()), None => None })) })
{
    broadcast use {lem_for_ext, lem_no_brk};
    let step = k_step(c, config);
    assert forall|r: ByteRecord| #[trigger] record_key(r, c.unique_strategy) == key(c, r) by { ob_concat_key(c, r); }
    assert forall|s: Seq<u8>| s.x_is_empty() == (#[trigger] s.len() == 0) by { }
    assert forall|st: KState, p: Seq<u8>| #[trigger] k_file(step)(st, p) == file_step(step, k_err())(st, p) by { assert(st == (st.0, st.1, st.2)); }
    let res = seq_for(c.filenames, (Set::<Seq<u8>>::empty(), t, w), k_file(step));
    assert(res == seq_for(c.filenames, (Set::<Seq<u8>>::empty(), t, w), file_step(step, k_err())));
}
pub open spec fn written(w: Writer, o: Seq<ByteRecord>) -> Writer { w.with(o).finish() }
pub open spec fn tee_written(w: Option<Writer>, o: Seq<ByteRecord>) -> Option<Writer> { match w { Some(w) => Some(written(w, o)), None => None } }
pub proof fn ob_concat(c: Concat, config: Config)
    ensures match (c.writer(), c.tee_writer()) {
        (Ok(w), Ok(t)) => match limited(stream(c.filenames), c.skip_invalid || config.skip_invalid, 0, every()) {
            Some(o) => c.execute(config) == Ok::<(Writer, Option<Writer>), XErr>((written(w, kept(c, o)), tee_written(t, kept(c, o)))),
            None => c.execute(config) is Err,
        }
        _ => c.execute(config) is Err,
    }
{
    if let (Ok(w), Ok(t)) = (c.writer(), c.tee_writer()) {
        ob_concat_run(c, config, w, t);
        lem_k_upd(c, w, t);
        lem_run(c.filenames, c.skip_invalid || config.skip_invalid, 0, every(), k_upd(c), |st: KState| 0, k_of(c, w, t), k_err());
        let e = Seq::<ByteRecord>::empty();
        assert(kept(c, e) == e);
        assert(seen_of(c, e) =~= Set::empty());
        assert(w.out + e =~= w.out);
        if let Some(tw) = t { assert(tw.out + e =~= tw.out); }
        assert(k_of(c, w, t)(e) == (Set::<Seq<u8>>::empty(), t, w));
    }
}
}
