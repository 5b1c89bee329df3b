//@include cli_m.rs
//@include cli_opts.rs
//@include cli_fold.rs
verus! {
//@type crates/pica-cli/src/commands/slice.rs Slice
/// a half-open range
pub struct XRange { pub start: int, pub end: int }
impl XRange {
    pub open spec fn x_contains(self, i: int) -> bool { self.start <= i < self.end }
    pub open spec fn upd_end(self, e: int) -> XRange { XRange { end: e, ..self } }
}
pub open spec fn max_usize() -> int { 0xFFFF_FFFF_FFFF_FFFF }
pub trait XSatAdd { spec fn x_saturating_add(self, r: int) -> int; }
impl XSatAdd for int { open spec fn x_saturating_add(self, r: int) -> int { if self + r <= max_usize() { self + r } else { max_usize() } } }
impl Slice {
//@fn crates/pica-cli/src/commands/slice.rs Slice::execute => execute use=range out=writer ret=Result<Writer,~XErr>
}
//@helpers
}
verus! {
pub type Unit = Option<ByteRecord>;
/// what is numbered: the selected records, and the skipped lines (`None`)
pub open spec fn units(fs: FilterSet, m: Option<RecordMatcher>, o: MatcherOptions) -> EmitFn<Unit> {
    |x: Option<Item>| match x { Some(Ok(r)) => if wanted(fs, m, o, r) { Some(Some(r)) } else { None }, Some(Err(_)) => Some(None), None => None }
}
pub open spec fn recs(u: Seq<Unit>) -> Seq<ByteRecord> decreases u.len() {
    if u.len() == 0 { Seq::empty() } else { match u.last() { Some(r) => recs(u.drop_last()).push(r), None => recs(u.drop_last()) } }
}
/// the units numbered from `a`
pub open spec fn from(u: Seq<Unit>, a: int) -> Seq<Unit> { if a <= u.len() { u.subrange(a, u.len() as int) } else { Seq::empty() } }
pub open spec fn upto(u: Seq<Unit>, e: int) -> Seq<Unit> { if e <= u.len() { u.take(e) } else { u } }
pub open spec fn cap(n: int, s: Seq<ByteRecord>) -> Seq<ByteRecord> { if n > 0 && s.len() > n { s.take(n) } else { s } }
impl Slice {
    /// the records of the range, without the limit
    pub open spec fn ranged(self, u: Seq<Unit>) -> Seq<ByteRecord> {
        if self.end > 0 { recs(from(upto(u, self.end as int), self.start as int)) } else { cap(self.length as int, recs(from(u, self.start as int))) }
    }
    /// the records to write
    pub open spec fn want(self, u: Seq<Unit>) -> Seq<ByteRecord> { cap(self.filter_opts.limit as int, self.ranged(u)) }
    /// whatever follows, no further record belongs to the range
    pub open spec fn complete(self, u: Seq<Unit>) -> bool {
        (self.end > 0 && u.len() >= self.end) || (self.end == 0 && self.length > 0 && self.ranged(u).len() == self.length) || (self.filter_opts.limit > 0 && self.want(u).len() == self.filter_opts.limit)
    }
}
proof fn lem_recs_push(u: Seq<Unit>, x: Unit)
    ensures recs(u.push(x)) == (match x { Some(r) => recs(u).push(r), None => recs(u) })
{ assert(u.push(x).drop_last() =~= u); }
proof fn lem_from_push(u: Seq<Unit>, a: int, x: Unit)
    requires a >= 0
    ensures recs(from(u.push(x), a)) == (if a <= u.len() { match x { Some(r) => recs(from(u, a)).push(r), None => recs(from(u, a)) } } else { Seq::<ByteRecord>::empty() }),
        a > u.len() ==> recs(from(u, a)) == Seq::<ByteRecord>::empty()
{
    if a <= u.len() { assert(from(u.push(x), a) =~= from(u, a).push(x)); lem_recs_push(from(u, a), x); }
    else { assert(from(u.push(x), a) =~= Seq::empty()); }
}
proof fn lem_from_prefix(p: Seq<Unit>, u: Seq<Unit>, a: int)
    requires a >= 0, p.len() <= u.len(), p == u.take(p.len() as int)
    ensures recs(from(p, a)).len() <= recs(from(u, a)).len(), recs(from(p, a)) == recs(from(u, a)).take(recs(from(p, a)).len() as int)
    decreases u.len()
{
    if p.len() == u.len() { assert(p =~= u); assert(recs(from(p, a)) =~= recs(from(u, a)).take(recs(from(p, a)).len() as int)); } else {
        let v = u.drop_last();
        assert(v.take(p.len() as int) =~= p);
        lem_from_prefix(p, v, a);
        assert(v.push(u.last()) =~= u);
        lem_from_push(v, a, u.last());
        assert(recs(from(p, a)) =~= recs(from(u, a)).take(recs(from(p, a)).len() as int));
    }
}
proof fn lem_complete(c: Slice, p: Seq<Unit>, u: Seq<Unit>)
    requires sl_args(c), c.complete(p), p.len() <= u.len(), p == u.take(p.len() as int)
    ensures c.want(p) == c.want(u), c.complete(u)
{
    let a = c.start as int;
    lem_from_prefix(p, u, a);
    if c.end > 0 {
        let e = c.end as int;
        if e <= p.len() { assert(upto(p, e) =~= upto(u, e)); } else {
            let q = upto(u, e);
            assert(upto(p, e) =~= p);
            assert(p.len() <= q.len());
            assert(p =~= q.take(p.len() as int));
            lem_from_prefix(p, q, a);
            assert(c.want(p) =~= c.want(u));
        }
    } else {
        let x = c.ranged(p); let y = c.ranged(u);
        assert(x.len() <= y.len() && x =~= y.take(x.len() as int));
        if c.length > 0 && x.len() == c.length { assert(x =~= y); } else { assert(c.want(p) =~= c.want(u)); }
    }
}
pub type SlState = (int, int, XRange, Writer);
pub open spec fn sl_err() -> Result<Writer, XErr> { Err(x_err()) }
pub open spec fn sl_step(c: Slice, skip: bool, f: EmitFn<Unit>) -> StepFn<SlState, Result<Writer, XErr>> {
    |st: SlState, x: Item| if bad(Some(x), skip) { Ctl::Ret(sl_err()) } else { match f(Some(x)) {
        None => Ctl::Next(st),
        Some(None) => Ctl::Next((st.0, st.1 + 1, if c.length > 0 && st.2.x_contains(st.1) && st.2.end < max_usize() { XRange { start: st.2.start, end: st.2.end + 1 } } else { st.2 }, st.3)),
        Some(Some(r)) => if st.2.x_contains(st.1) {
            let w = st.3.write_byte_record(r);
            if c.filter_opts.limit > 0 && st.0 + 1 >= c.filter_opts.limit { Ctl::Brk((st.0 + 1, st.1, st.2, w)) } else { Ctl::Next((st.0 + 1, st.1 + 1, st.2, w)) }
        } else if st.1 < st.2.start { Ctl::Next((st.0, st.1 + 1, st.2, st.3)) } else { Ctl::Brk(st) },
    } }
}
impl Slice {
    pub open spec fn range0(self) -> XRange {
        XRange { start: self.start as int, end: if self.end > 0 { self.end as int } else if self.length > 0 { (self.start as int).x_saturating_add(self.length as int) } else { max_usize() } }
    }
    /// the state of a run that goes on after the units `u`
    pub open spec fn inv(self, u: Seq<Unit>, w: Writer, st: SlState) -> bool {
        let i = u.len() as int;
        let t = recs(from(u, self.start as int)).len() as int;
        let top = if i > self.start { i } else { self.start as int };
        &&& st.1 == i && st.2.start == self.start && st.0 == self.ranged(u).len() && st.3 == w.with(self.ranged(u))
        &&& self.filter_opts.limit > 0 ==> st.0 < self.filter_opts.limit
        &&& self.end > 0 ==> st.2.end == self.end
        &&& self.end == 0 && self.length > 0 ==> st.0 == t && st.0 <= self.length && (st.0 < self.length ==> st.2.end == top.x_saturating_add(self.length - st.0)) && (st.0 == self.length ==> st.2.end <= i && self.start < i) && (i <= self.start ==> st.0 == 0) && st.0 <= i
        &&& self.end == 0 && self.length == 0 ==> st.2.end == max_usize()
    }
}
pub open spec fn sl_args(c: Slice) -> bool {
    0 <= c.start <= max_usize() && 0 <= c.end <= max_usize() && 0 <= c.length <= max_usize() && 0 <= c.filter_opts.limit && (c.end == 0 || c.length == 0)
}
/// one unit: the invariant holds on, or the run ends complete
proof fn lem_unit(c: Slice, u: Seq<Unit>, x: Unit, w: Writer, st: SlState, skip: bool, f: EmitFn<Unit>, it: Item)
    requires sl_args(c), c.inv(u, w, st), u.len() < max_usize(), !bad(Some(it), skip), f(Some(it)) == Some(x)
    ensures match sl_step(c, skip, f)(st, it) {
        Ctl::Next(a) => c.inv(u.push(x), w, a),
        Ctl::Brk(a) => a.3 == w.with(c.want(u.push(x))) && c.complete(u.push(x)),
        Ctl::Ret(_) => false,
    }
{
    let v = u.push(x);
    let a = c.start as int;
    lem_from_push(u, a, x);
    if c.end > 0 {
        let e = c.end as int;
        if e <= u.len() { assert(upto(v, e) =~= upto(u, e)); } else { assert(upto(v, e) =~= v); assert(upto(u, e) =~= u); }
        lem_end_short(u, a, e);
    }
    if let Some(r) = x { assert((w.out + c.ranged(u)).push(r) =~= w.out + c.ranged(u).push(r)); }
    match sl_step(c, skip, f)(st, it) {
        Ctl::Next(b) => { assert(c.inv(v, w, b)); }
        Ctl::Brk(b) => { assert(c.complete(v)); if !st.2.x_contains(st.1) { assert(c.ranged(v) =~= c.ranged(u)); } assert(b.3 == w.with(c.want(v))); }
        Ctl::Ret(_) => {}
    }
}
proof fn lem_end_short(u: Seq<Unit>, a: int, e: int)
    requires a >= 0, e > 0
    ensures a > u.len() || e <= a ==> recs(from(upto(u, e), a)) == Seq::<ByteRecord>::empty()
{ if a > u.len() || e <= a { assert(from(upto(u, e), a) =~= Seq::empty()); } }
proof fn lem_inv0(c: Slice, w: Writer)
    requires sl_args(c)
    ensures c.inv(Seq::empty(), w, (0int, 0int, c.range0(), w))
{
    let e = Seq::<Unit>::empty();
    assert(from(e, c.start as int) =~= e);
    assert(upto(e, c.end as int) =~= e);
    assert(w.out + Seq::<ByteRecord>::empty() =~= w.out);
}
}
verus! {
proof fn lem_outs_len<T>(h: Seq<Option<Item>>, f: EmitFn<T>)
    ensures outs(h, f).len() <= h.len()
    decreases h.len()
{ if h.len() > 0 { lem_outs_len(h.drop_last(), f); } }
proof fn lem_slice_from(c: Slice, s: Seq<Option<Item>>, skip: bool, f: EmitFn<Unit>, w: Writer, i: int)
    requires sl_args(c), s.len() < max_usize(), 0 <= i <= good(s, skip).len(),
        c.inv(outs(s.take(i), f), w, fold(s.take(i), (0int, 0int, c.range0(), w), sl_step(c, skip, f)))
    ensures ({
        let st0 = (0int, 0int, c.range0(), w);
        let step = sl_step(c, skip, f);
        let k = kind_of(st0, step);
        let n = first_stop(s, k, i);
        if n >= s.len() { n == s.len() && good(s, skip).len() == s.len() && fold(s, st0, step).3 == w.with(c.want(outs(s, f))) }
        else if k(s.take(n), s[n]) is Stop { n < good(s, skip).len() && fold(s.take(n + 1), st0, step).3 == w.with(c.want(outs(s.take(n + 1), f))) && c.complete(outs(s.take(n + 1), f)) }
        else { n == good(s, skip).len() }
    })
    decreases s.len() - i
{
    let st0 = (0int, 0int, c.range0(), w);
    let step = sl_step(c, skip, f);
    let k = kind_of(st0, step);
    lem_good(s, skip);
    let u = outs(s.take(i), f);
    lem_outs_len(s.take(i), f);
    if i == s.len() { assert(s.take(i) =~= s); }
    else if i == good(s, skip).len() { assert(k(s.take(i), s[i]) is Fail); }
    else {
        assert(!bad(s[i], skip));
        let it = s[i]->Some_0;
        let h = s.take(i + 1);
        assert(h =~= s.take(i).push(s[i]));
        assert(h.drop_last() =~= s.take(i));
        lem_outs_push(s.take(i), s[i], f);
        let st = fold(s.take(i), st0, step);
        assert(s[i] == Some(it));
        match f(s[i]) {
            None => { assert(step(st, it) == Ctl::<SlState, Result<Writer, XErr>>::Next(st)); lem_slice_from(c, s, skip, f, w, i + 1); }
            Some(x) => {
                lem_unit(c, u, x, w, st, skip, f, it);
                match step(st, it) { Ctl::Next(_) => { lem_slice_from(c, s, skip, f, w, i + 1); } Ctl::Brk(_) => { assert(k(s.take(i), s[i]) is Stop); } Ctl::Ret(_) => {} }
            }
        }
    }
}
pub open spec fn sl_file(step: StepFn<SlState, Result<Writer, XErr>>) -> spec_fn(SlState, Seq<u8>) -> Ctl<SlState, Result<Writer, XErr>> {
    |st: SlState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (st.0, st.1, st.2, st.3), step), Err(_) => Ctl::Ret(sl_err()) }
}
impl Slice {
    pub open spec fn writer(self) -> Result<Writer, XErr> { open_writer(self.output, self.gzip, self.append) }
}
#[verifier::rlimit(200)]
pub proof fn ob_slice_run(c: Slice, config: Config, fs: FilterSet, m: Option<RecordMatcher>, w: Writer)
    requires c.filter_opts.lists() == Ok::<FilterSet, XErr>(fs), c.filter_opts.matcher_spec(config.normalization) == Ok::<Option<RecordMatcher>, XErr>(m), c.writer() == Ok::<Writer, XErr>(w)
    ensures ({
        let step = sl_step(c, c.filter_opts.skip_invalid || config.skip_invalid, units(fs, m, c.filter_opts.opts()));
        c.execute(config) == (match seq_for(c.filenames, (0int, 0int, c.range0(), w), file_step(step, sl_err())) { Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok(st.3.finish()) })
    })
{
    broadcast use lem_for_ext;
    let fo = c.filter_opts;
    ob_opts_lists(fo); ob_opts_options(fo); ob_opts_matcher(fo, config.normalization);
    assert forall|r: ByteRecord| #[trigger] fs.check(r) == fs.allows(r) by { ob_filter_set(fs, r); }
    let step = sl_step(c, fo.skip_invalid || config.skip_invalid, units(fs, m, fo.opts()));
    assert forall|st: SlState, p: Seq<u8>| #[trigger] sl_file(step)(st, p) == file_step(step, sl_err())(st, p) by { assert(st == (st.0, st.1, st.2, st.3)); }
    let res = seq_for(c.filenames, (0int, 0int, c.range0(), w), sl_file(step));
    assert(res == seq_for(c.filenames, (0int, 0int, c.range0(), w), file_step(step, sl_err())));
}
/// slice writes the records of the range; a bad line fails the run, unless the range is complete before it
pub proof fn ob_slice(c: Slice, config: Config)
    requires sl_args(c), stream(c.filenames).len() < max_usize()
    ensures ({
        let skip = c.filter_opts.skip_invalid || config.skip_invalid;
        let s = stream(c.filenames);
        match (c.filter_opts.lists(), c.filter_opts.matcher_spec(config.normalization), c.writer()) {
            (Ok(fs), Ok(m), Ok(w)) => {
                let u = outs(good(s, skip), units(fs, m, c.filter_opts.opts()));
                match c.execute(config) {
                    Ok(x) => x == w.with(c.want(u)).finish() && (good(s, skip).len() == s.len() || c.complete(u)),
                    Err(_) => good(s, skip).len() < s.len(),
                }
            }
            _ => c.execute(config) is Err,
        }
    })
{
    let fo = c.filter_opts;
    let skip = fo.skip_invalid || config.skip_invalid;
    let s = stream(c.filenames);
    match (fo.lists(), fo.matcher_spec(config.normalization), c.writer()) {
        (Ok(fs), Ok(m), Ok(w)) => {
            let f = units(fs, m, fo.opts());
            let st0 = (0int, 0int, c.range0(), w);
            let step = sl_step(c, skip, f);
            let k = kind_of(st0, step);
            ob_slice_run(c, config, fs, m, w);
            lem_fold_run(c.filenames, st0, step, sl_err());
            lem_inv0(c, w);
            lem_good(s, skip);
            assert(s.take(0) =~= Seq::empty());
            assert(outs(s.take(0), f) == Seq::<Unit>::empty());
            lem_slice_from(c, s, skip, f, w, 0);
            lem_stop_bounds(s, k, 0);
            let n = first_stop(s, k, 0);
            if n >= s.len() { assert(good(s, skip) =~= s); }
            else if k(s.take(n), s[n]) is Stop {
                let g = good(s, skip).len() as int;
                lem_outs_prefix(s, n + 1, g, f);
                lem_complete(c, outs(s.take(n + 1), f), outs(s.take(g), f));
            }
        }
        _ => { ob_opts_lists(fo); ob_opts_matcher(fo, config.normalization); }
    }
}
}
