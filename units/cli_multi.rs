// ---- commands that emit any number of values per item, up to a limit
verus! {
pub type ManyFn<T> = spec_fn(Option<Item>) -> Seq<T>;
pub open spec fn multi<T>(h: Seq<Option<Item>>, g: ManyFn<T>) -> Seq<T> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else { multi(h.drop_last(), g) + g(h.last()) }
}
/// what a limited run emits: None if it fails
pub open spec fn limited_many<T>(s: Seq<Option<Item>>, skip: bool, limit: int, g: ManyFn<T>) -> Option<Seq<T>> {
    let o = multi(good(s, skip), g);
    if limit > 0 && o.len() >= limit { Some(o.take(limit)) } else if good(s, skip).len() < s.len() { None } else { Some(o) }
}
pub proof fn lem_multi_push<T>(h: Seq<Option<Item>>, x: Option<Item>, g: ManyFn<T>)
    ensures multi(h.push(x), g) == multi(h, g) + g(x)
{ assert(h.push(x).drop_last() =~= h); }
pub proof fn lem_multi_prefix<T>(s: Seq<Option<Item>>, i: int, j: int, g: ManyFn<T>)
    requires 0 <= i <= j <= s.len()
    ensures multi(s.take(i), g).len() <= multi(s.take(j), g).len(), multi(s.take(i), g) == multi(s.take(j), g).take(multi(s.take(i), g).len() as int)
    decreases j - i
{
    if i < j { lem_multi_prefix(s, i, j - 1, g); assert(s.take(j) =~= s.take(j - 1).push(s[j - 1])); lem_multi_push(s.take(j - 1), s[j - 1], g); }
    assert(multi(s.take(i), g) =~= multi(s.take(j), g).take(multi(s.take(i), g).len() as int));
}
/// one element: the values are added, and the run ends as soon as there are `limit` of them
pub open spec fn adds<T, S, R>(step: StepFn<S, R>, skip: bool, limit: int, g: ManyFn<T>, inv: spec_fn(Seq<T>, S) -> bool, err: R) -> bool {
    &&& forall|a: S, x: Item| bad(Some(x), skip) ==> (#[trigger] step(a, x)) == Ctl::<S, R>::Ret(err)
    &&& forall|a: S, x: Item| !bad(Some(x), skip) ==> !((#[trigger] step(a, x)) is Ret)
    &&& forall|o: Seq<T>, a: S, x: Item| #![trigger inv(o, a), step(a, x)] inv(o, a) && !bad(Some(x), skip) && (limit > 0 ==> o.len() < limit) ==> match step(a, x) {
        Ctl::Next(b) => inv(o + g(Some(x)), b) && (limit > 0 ==> (o + g(Some(x))).len() < limit),
        Ctl::Brk(b) => limit > 0 && (o + g(Some(x))).len() >= limit && inv((o + g(Some(x))).take(limit), b),
        Ctl::Ret(_) => false,
    }
}
proof fn lem_many_from<T, S, R>(s: Seq<Option<Item>>, i: int, st: S, step: StepFn<S, R>, skip: bool, limit: int, g: ManyFn<T>, inv: spec_fn(Seq<T>, S) -> bool, err: R)
    requires adds(step, skip, limit, g, inv, err), 0 <= i <= good(s, skip).len(), inv(multi(s.take(i), g), fold(s.take(i), st, step)), limit > 0 ==> multi(s.take(i), g).len() < limit
    ensures ({
        let k = kind_of(st, step);
        let n = first_stop(s, k, i);
        match limited_many(s, skip, limit, g) {
            None => n < s.len() && k(s.take(n), s[n]) is Fail,
            Some(o) => (n == s.len() && inv(o, fold(s, st, step))) || (n < s.len() && k(s.take(n), s[n]) is Stop && inv(o, fold(s.take(n + 1), st, step))),
        }
    })
    decreases s.len() - i
{
    let k = kind_of(st, step);
    let n = good(s, skip).len() as int;
    lem_good(s, skip);
    lem_multi_prefix(s, i, n, g);
    if i == n {
        if n < s.len() { assert(bad(s[n], skip)); assert(k(s.take(i), s[i]) is Fail) by { match s[n] { Some(x) => { assert(step(fold(s.take(i), st, step), x) == Ctl::<S, R>::Ret(err)); } None => {} } } }
        else { assert(s.take(n) =~= s); }
    } else {
        assert(!bad(s[i], skip));
        let x = s[i]->Some_0;
        assert(s[i] == Some(x));
        let a = fold(s.take(i), st, step);
        let h = s.take(i + 1);
        assert(h =~= s.take(i).push(s[i]));
        assert(h.drop_last() =~= s.take(i));
        lem_multi_push(s.take(i), s[i], g);
        lem_multi_prefix(s, i + 1, n, g);
        let o = multi(s.take(i), g);
        assert(inv(o, a));
        match step(a, x) {
            Ctl::Next(_) => { assert(k(s.take(i), s[i]) is Go); lem_many_from(s, i + 1, st, step, skip, limit, g, inv, err); }
            Ctl::Brk(b) => {
                assert(k(s.take(i), s[i]) is Stop);
                assert((o + g(s[i])).take(limit) =~= multi(s.take(n), g).take(limit));
            }
            Ctl::Ret(_) => {}
        }
    }
}
/// the emitted values of the run
pub proof fn lem_many<T, S, R>(fs: Seq<Seq<u8>>, st: S, step: StepFn<S, R>, skip: bool, limit: int, g: ManyFn<T>, inv: spec_fn(Seq<T>, S) -> bool, err: R)
    requires adds(step, skip, limit, g, inv, err), inv(Seq::empty(), st)
    ensures match limited_many(stream(fs), skip, limit, g) {
        None => seq_for(fs, st, file_step(step, err)) == Ctl::<S, R>::Ret(err),
        Some(o) => match seq_for(fs, st, file_step(step, err)) { Ctl::Next(a) | Ctl::Brk(a) => inv(o, a), Ctl::Ret(_) => false },
    }
{
    let s = stream(fs);
    assert forall|a: S, x: Item| (#[trigger] step(a, x)) is Ret implies step(a, x) == Ctl::<S, R>::Ret(err) by { assert(bad(Some(x), skip)); }
    lem_fold_run(fs, st, step, err);
    assert(s.take(0) =~= Seq::empty());
    assert(multi(s.take(0), g) =~= Seq::<T>::empty());
    lem_many_from(s, 0, st, step, skip, limit, g, inv, err);
    lem_stop_bounds(s, kind_of(st, step), 0);
}
}
