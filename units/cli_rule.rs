// ---- the loop rule shared by the commands
verus! {
/// one element per item of the sources in order; `None` marks a source that cannot be opened
pub open spec fn stream(fs: Seq<Seq<u8>>) -> Seq<Option<Item>> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else { some_items(fs[0]) + stream(fs.subrange(1, fs.len() as int)) }
}
pub open spec fn somes(items: Seq<Item>) -> Seq<Option<Item>> { items.map_values(|x: Item| Some(x)) }
pub open spec fn some_items(p: Seq<u8>) -> Seq<Option<Item>> {
    match source(p) { Ok(items) => somes(items), Err(_) => seq![None] }
}
pub enum Kind { Go, Stop, Fail }
pub type KindFn = spec_fn(Seq<Option<Item>>, Option<Item>) -> Kind;
/// index of the first element at or after `i` that ends the run, or the length
pub open spec fn first_stop(s: Seq<Option<Item>>, kind: KindFn, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() { s.len() as int } else if kind(s.take(i), s[i]) is Go { first_stop(s, kind, i + 1) } else { i }
}
/// what a run over the stream ends with
pub open spec fn run<S, R>(s: Seq<Option<Item>>, mk: spec_fn(Seq<Option<Item>>) -> S, kind: KindFn, err: R) -> Ctl<S, R> {
    let n = first_stop(s, kind, 0);
    if n >= s.len() { Ctl::Next(mk(s)) } else { match kind(s.take(n), s[n]) { Kind::Stop => Ctl::Brk(mk(s.take(n + 1))), _ => Ctl::Ret(err) } }
}
pub proof fn lem_stop_bounds(s: Seq<Option<Item>>, kind: KindFn, i: int)
    requires 0 <= i <= s.len()
    ensures i <= first_stop(s, kind, i) <= s.len(),
        first_stop(s, kind, i) < s.len() ==> !(kind(s.take(first_stop(s, kind, i)), s[first_stop(s, kind, i)]) is Go)
    decreases s.len() - i
{ if i < s.len() && kind(s.take(i), s[i]) is Go { lem_stop_bounds(s, kind, i + 1); } }
/// every step of the loop agrees with `kind` and `mk`
pub open spec fn agrees<S, R>(step: spec_fn(S, Item) -> Ctl<S, R>, mk: spec_fn(Seq<Option<Item>>) -> S, kind: KindFn, err: R) -> bool {
    forall|h: Seq<Option<Item>>, x: Item| #[trigger] step(mk(h), x) == (match kind(h, Some(x)) {
        Kind::Go => Ctl::Next(mk(h.push(Some(x)))), Kind::Stop => Ctl::Brk(mk(h.push(Some(x)))), Kind::Fail => Ctl::Ret(err) })
}
pub proof fn lem_items<S, R>(s: Seq<Option<Item>>, i: int, items: Seq<Item>, step: spec_fn(S, Item) -> Ctl<S, R>, mk: spec_fn(Seq<Option<Item>>) -> S, kind: KindFn, err: R)
    requires agrees(step, mk, kind, err), 0 <= i, i + items.len() <= s.len(), s.subrange(i, i + items.len()) =~= somes(items)
    ensures ({
        let n = first_stop(s, kind, i);
        let r = seq_for(items, mk(s.take(i)), step);
        if n >= i + items.len() { r == Ctl::<S, R>::Next(mk(s.take(i + items.len()))) && n == first_stop(s, kind, i + items.len()) }
        else { i <= n && r == (match kind(s.take(n), s[n]) { Kind::Stop => Ctl::Brk(mk(s.take(n + 1))), _ => Ctl::Ret(err) }) }
    })
    decreases items.len()
{
    lem_stop_bounds(s, kind, i);
    if items.len() > 0 {
        let t = items.subrange(1, items.len() as int);
        assert(s[i] == s.subrange(i, i + items.len())[0]);
        assert(s[i] == Some(items[0]));
        assert(s.take(i).push(s[i]) =~= s.take(i + 1));
        assert(s.subrange(i + 1, i + 1 + t.len()) =~= somes(t)) by {
            assert forall|j: int| 0 <= j < t.len() implies s.subrange(i + 1, i + 1 + t.len())[j] == somes(t)[j] by {
                assert(s.subrange(i, i + items.len())[j + 1] == somes(items)[j + 1]);
            }
        }
        assert(step(mk(s.take(i)), items[0]) == (match kind(s.take(i), Some(items[0])) {
            Kind::Go => Ctl::Next(mk(s.take(i).push(Some(items[0])))), Kind::Stop => Ctl::Brk(mk(s.take(i).push(Some(items[0])))), Kind::Fail => Ctl::Ret(err) }));
        if kind(s.take(i), s[i]) is Go { lem_items(s, i + 1, t, step, mk, kind, err); }
    }
}
pub open spec fn file_step<S, R>(step: spec_fn(S, Item) -> Ctl<S, R>, err: R) -> spec_fn(S, Seq<u8>) -> Ctl<S, R> {
    |st: S, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, st, step), Err(_) => Ctl::Ret(err) }
}
pub proof fn lem_files_from<S, R>(s: Seq<Option<Item>>, i: int, fs: Seq<Seq<u8>>, step: spec_fn(S, Item) -> Ctl<S, R>, mk: spec_fn(Seq<Option<Item>>) -> S, kind: KindFn, err: R)
    requires agrees(step, mk, kind, err), 0 <= i <= s.len(), s.subrange(i, s.len() as int) =~= stream(fs),
        forall|h: Seq<Option<Item>>| #[trigger] kind(h, None) is Fail
    ensures ({
        let n = first_stop(s, kind, i);
        let r = seq_for(fs, mk(s.take(i)), file_step(step, err));
        if n >= s.len() { r == Ctl::<S, R>::Next(mk(s)) }
        else { i <= n && r == (match kind(s.take(n), s[n]) { Kind::Stop => Ctl::Brk(mk(s.take(n + 1))), _ => Ctl::Ret(err) }) }
    })
    decreases fs.len()
{
    lem_stop_bounds(s, kind, i);
    if fs.len() == 0 { assert(s.subrange(i, s.len() as int).len() == 0); assert(s.take(i) =~= s); } else {
        let t = fs.subrange(1, fs.len() as int);
        let a = some_items(fs[0]);
        let m = i + a.len();
        assert(s.subrange(i, s.len() as int).len() == a.len() + stream(t).len());
        assert(s.subrange(i, m) =~= a) by { assert forall|j: int| 0 <= j < a.len() implies s.subrange(i, m)[j] == a[j] by { assert(s.subrange(i, s.len() as int)[j] == (a + stream(t))[j]); } }
        assert(s.subrange(m, s.len() as int) =~= stream(t)) by { assert forall|j: int| 0 <= j < stream(t).len() implies s.subrange(m, s.len() as int)[j] == stream(t)[j] by { assert(s.subrange(i, s.len() as int)[a.len() + j] == (a + stream(t))[a.len() + j]); } }
        match source(fs[0]) {
            Ok(items) => {
                lem_items(s, i, items, step, mk, kind, err);
                lem_files_from(s, m, t, step, mk, kind, err);
            }
            Err(_) => { assert(s[i] == s.subrange(i, m)[0]); assert(kind(s.take(i), None) is Fail); }
        }
    }
}
/// the rule: reading all sources with `step` is a run over the stream
pub proof fn rule<S, R>(fs: Seq<Seq<u8>>, step: spec_fn(S, Item) -> Ctl<S, R>, mk: spec_fn(Seq<Option<Item>>) -> S, kind: KindFn, err: R)
    requires agrees(step, mk, kind, err), forall|h: Seq<Option<Item>>| #[trigger] kind(h, None) is Fail
    ensures seq_for(fs, mk(Seq::empty()), file_step(step, err)) == run(stream(fs), mk, kind, err)
{
    let s = stream(fs);
    assert(s.subrange(0, s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::empty());
    lem_files_from(s, 0, fs, step, mk, kind, err);
}
/// two steps that agree everywhere give the same loop
pub broadcast proof fn lem_for_ext<T, S, R>(s: Seq<T>, i: S, f: spec_fn(S, T) -> Ctl<S, R>, g: spec_fn(S, T) -> Ctl<S, R>)
    requires forall|a: S, x: T| #[trigger] f(a, x) == g(a, x)
    ensures #![trigger seq_for(s, i, f), seq_for(s, i, g)] seq_for(s, i, f) == seq_for(s, i, g)
    decreases s.len()
{
    if s.len() > 0 {
        assert(f(i, s[0]) == g(i, s[0]));
        match f(i, s[0]) { Ctl::Next(st) => lem_for_ext(s.subrange(1, s.len() as int), st, f, g), _ => {} }
    }
}
/// a loop whose steps do not break does not end with a break
pub broadcast proof fn lem_no_brk<T, S, R>(s: Seq<T>, i: S, f: spec_fn(S, T) -> Ctl<S, R>)
    requires forall|a: S, x: T| !(#[trigger] f(a, x) is Brk)
    ensures !(#[trigger] seq_for(s, i, f) is Brk)
    decreases s.len()
{
    if s.len() > 0 { assert(!(f(i, s[0]) is Brk)); if let Ctl::Next(st) = f(i, s[0]) { lem_no_brk(s.subrange(1, s.len() as int), st, f); } }
}

// ---- commands that emit at most one value per item, up to a limit
pub type EmitFn<T> = spec_fn(Option<Item>) -> Option<T>;
pub open spec fn outs<T>(h: Seq<Option<Item>>, f: EmitFn<T>) -> Seq<T> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else { match f(h.last()) { Some(t) => outs(h.drop_last(), f).push(t), None => outs(h.drop_last(), f) } }
}
/// an element that ends the run with an error: an unreadable source, or an
/// item that cannot be skipped
pub open spec fn bad(x: Option<Item>, skip: bool) -> bool {
    match x { None => true, Some(Err(e)) => !(e.parse && skip), Some(Ok(_)) => false }
}
pub open spec fn kind_limit<T>(skip: bool, limit: int, f: EmitFn<T>) -> KindFn {
    |h: Seq<Option<Item>>, x: Option<Item>| if bad(x, skip) { Kind::Fail } else if f(x) is Some && limit > 0 && outs(h, f).len() + 1 >= limit { Kind::Stop } else { Kind::Go }
}
/// the elements before the first bad one
pub open spec fn good(s: Seq<Option<Item>>, skip: bool) -> Seq<Option<Item>> decreases s.len() {
    if s.len() == 0 || bad(s[0], skip) { Seq::empty() } else { seq![s[0]] + good(s.subrange(1, s.len() as int), skip) }
}
pub broadcast proof fn lem_outs_push<T>(h: Seq<Option<Item>>, x: Option<Item>, f: EmitFn<T>)
    ensures #[trigger] outs(h.push(x), f) == (match f(x) { Some(t) => outs(h, f).push(t), None => outs(h, f) })
{ assert(h.push(x).drop_last() =~= h); }
pub proof fn lem_good(s: Seq<Option<Item>>, skip: bool)
    ensures good(s, skip).len() <= s.len(), good(s, skip) == s.take(good(s, skip).len() as int),
        good(s, skip).len() < s.len() ==> bad(s[good(s, skip).len() as int], skip),
        forall|j: int| 0 <= j < good(s, skip).len() ==> !bad(#[trigger] s[j], skip)
    decreases s.len()
{
    if s.len() > 0 && !bad(s[0], skip) {
        let t = s.subrange(1, s.len() as int);
        lem_good(t, skip);
        let g = good(t, skip);
        assert(good(s, skip) =~= s.take(g.len() as int + 1)) by { assert(g =~= t.take(g.len() as int)); }
        assert forall|j: int| 0 <= j < good(s, skip).len() implies !bad(#[trigger] s[j], skip) by { if j > 0 { assert(s[j] == t[j - 1]); } }
        if good(s, skip).len() < s.len() { assert(s[good(s, skip).len() as int] == t[g.len() as int]); }
    } else { assert(good(s, skip) =~= s.take(0)); }
}
pub proof fn lem_outs_prefix<T>(s: Seq<Option<Item>>, i: int, j: int, f: EmitFn<T>)
    requires 0 <= i <= j <= s.len()
    ensures outs(s.take(i), f).len() <= outs(s.take(j), f).len(), outs(s.take(i), f) == outs(s.take(j), f).take(outs(s.take(i), f).len() as int)
    decreases j - i
{
    if i < j { lem_outs_prefix(s, i, j - 1, f); assert(s.take(j) =~= s.take(j - 1).push(s[j - 1])); lem_outs_push(s.take(j - 1), s[j - 1], f);
        assert(outs(s.take(i), f) =~= outs(s.take(j), f).take(outs(s.take(i), f).len() as int)); }
    else { assert(outs(s.take(i), f) =~= outs(s.take(j), f).take(outs(s.take(i), f).len() as int)); }
}
/// what a limited run emits: None if it fails
pub open spec fn limited<T>(s: Seq<Option<Item>>, skip: bool, limit: int, f: EmitFn<T>) -> Option<Seq<T>> {
    let o = outs(good(s, skip), f);
    if limit > 0 && o.len() >= limit { Some(o.take(limit)) } else if good(s, skip).len() < s.len() { None } else { Some(o) }
}
proof fn lem_limited_from<T>(s: Seq<Option<Item>>, skip: bool, limit: int, f: EmitFn<T>, i: int)
    requires 0 <= i <= good(s, skip).len(), limit > 0 ==> outs(s.take(i), f).len() < limit, limit >= 0
    ensures ({
        let k = kind_limit(skip, limit, f);
        let n = first_stop(s, k, i);
        match limited(s, skip, limit, f) {
            None => n < s.len() && k(s.take(n), s[n]) is Fail,
            Some(o) => (n == s.len() && o == outs(s, f)) || (n < s.len() && k(s.take(n), s[n]) is Stop && o == outs(s.take(n + 1), f)),
        }
    })
    decreases s.len() - i
{
    let k = kind_limit(skip, limit, f);
    let g = good(s, skip).len() as int;
    lem_good(s, skip);
    lem_outs_prefix(s, i, g, f);
    if i == g {
        if g < s.len() { assert(k(s.take(i), s[i]) is Fail); } else { assert(s.take(g) =~= s); }
    } else {
        assert(!bad(s[i], skip));
        assert(s.take(i + 1) =~= s.take(i).push(s[i]));
        lem_outs_push(s.take(i), s[i], f);
        lem_outs_prefix(s, i + 1, g, f);
        if k(s.take(i), s[i]) is Go { lem_limited_from(s, skip, limit, f, i + 1); }
        else { assert(k(s.take(i), s[i]) is Stop); assert(outs(s.take(i + 1), f).len() == limit); }
    }
}
pub proof fn lem_limited<T, S, R>(s: Seq<Option<Item>>, skip: bool, limit: int, f: EmitFn<T>, mk: spec_fn(Seq<Option<Item>>) -> S, of: spec_fn(Seq<T>) -> S, err: R)
    requires limit >= 0, forall|h: Seq<Option<Item>>| #[trigger] mk(h) == of(outs(h, f))
    ensures match limited(s, skip, limit, f) {
        None => run(s, mk, kind_limit(skip, limit, f), err) == Ctl::<S, R>::Ret(err),
        Some(o) => run(s, mk, kind_limit(skip, limit, f), err) == Ctl::<S, R>::Next(of(o)) || run(s, mk, kind_limit(skip, limit, f), err) == Ctl::<S, R>::Brk(of(o)),
    }
{
    assert(s.take(0) =~= Seq::empty());
    if limit > 0 { assert(outs(s.take(0), f).len() == 0); }
    lem_limited_from(s, skip, limit, f, 0);
    lem_stop_bounds(s, kind_limit(skip, limit, f), 0);
}

/// one step of a command that emits at most one value per item, up to a limit
pub open spec fn lim_step<T, S, R>(skip: bool, limit: int, f: EmitFn<T>, upd: spec_fn(S, T) -> S, cnt: spec_fn(S) -> int, err: R) -> spec_fn(S, Item) -> Ctl<S, R> {
    |st: S, x: Item| if bad(Some(x), skip) { Ctl::Ret(err) } else { match f(Some(x)) {
        None => Ctl::Next(st),
        Some(r) => if limit > 0 && cnt(upd(st, r)) >= limit { Ctl::Brk(upd(st, r)) } else { Ctl::Next(upd(st, r)) },
    } }
}
/// the emitted values of a command with a limit, folded into its state by `of`
pub proof fn lem_run<T, S, R>(fs: Seq<Seq<u8>>, skip: bool, limit: int, f: EmitFn<T>, upd: spec_fn(S, T) -> S, cnt: spec_fn(S) -> int, of: spec_fn(Seq<T>) -> S, err: R)
    requires limit >= 0, forall|o: Seq<T>, r: T| #[trigger] upd(of(o), r) == of(o.push(r)), limit > 0 ==> forall|o: Seq<T>| cnt(#[trigger] of(o)) == o.len()
    ensures match limited(stream(fs), skip, limit, f) {
        None => seq_for(fs, of(Seq::empty()), file_step(lim_step(skip, limit, f, upd, cnt, err), err)) == Ctl::<S, R>::Ret(err),
        Some(o) => seq_for(fs, of(Seq::empty()), file_step(lim_step(skip, limit, f, upd, cnt, err), err)) == Ctl::<S, R>::Next(of(o))
            || seq_for(fs, of(Seq::empty()), file_step(lim_step(skip, limit, f, upd, cnt, err), err)) == Ctl::<S, R>::Brk(of(o)),
    }
{
    let step = lim_step(skip, limit, f, upd, cnt, err);
    let mk = |h: Seq<Option<Item>>| of(outs(h, f));
    let kind = kind_limit(skip, limit, f);
    assert forall|h: Seq<Option<Item>>, x: Item| #[trigger] step(mk(h), x) == (match kind(h, Some(x)) {
        Kind::Go => Ctl::Next(mk(h.push(Some(x)))), Kind::Stop => Ctl::Brk(mk(h.push(Some(x)))), Kind::Fail => Ctl::Ret(err) }) by {
        lem_outs_push(h, Some(x), f);
        match f(Some(x)) { Some(r) => { assert(upd(of(outs(h, f)), r) == of(outs(h, f).push(r))); } None => {} }
    }
    assert(agrees(step, mk, kind, err));
    rule(fs, step, mk, kind, err);
    lem_limited(stream(fs), skip, limit, f, mk, of, err);
    assert(outs(Seq::<Option<Item>>::empty(), f) == Seq::<T>::empty());
}
}
