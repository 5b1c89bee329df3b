// ---- any loop over the sources, as a fold of its own step over the stream
verus! {
pub type StepFn<S, R> = spec_fn(S, Item) -> Ctl<S, R>;
/// the state after one element
pub open spec fn after<S, R>(st: S, x: Option<Item>, step: StepFn<S, R>) -> S { match x { None => st, Some(x) => match step(st, x) { Ctl::Next(a) | Ctl::Brk(a) => a, Ctl::Ret(_) => st } } }
/// the state after a history
pub open spec fn fold<S, R>(h: Seq<Option<Item>>, st: S, step: StepFn<S, R>) -> S decreases h.len() { if h.len() == 0 { st } else { after(fold(h.drop_last(), st, step), h.last(), step) } }
pub open spec fn fold_fn<S, R>(st: S, step: StepFn<S, R>) -> spec_fn(Seq<Option<Item>>) -> S { |h: Seq<Option<Item>>| fold(h, st, step) }
pub open spec fn kind_of<S, R>(st: S, step: StepFn<S, R>) -> KindFn {
    |h: Seq<Option<Item>>, x: Option<Item>| match x { None => Kind::Fail, Some(x) => match step(fold(h, st, step), x) { Ctl::Next(_) => Kind::Go, Ctl::Brk(_) => Kind::Stop, Ctl::Ret(_) => Kind::Fail } }
}
pub proof fn lem_fold_run<S, R>(fs: Seq<Seq<u8>>, st: S, step: StepFn<S, R>, err: R)
    requires forall|a: S, x: Item| (#[trigger] step(a, x)) is Ret ==> step(a, x) == Ctl::<S, R>::Ret(err)
    ensures seq_for(fs, st, file_step(step, err)) == run(stream(fs), fold_fn(st, step), kind_of(st, step), err)
{
    let mk = fold_fn(st, step);
    let kind = kind_of(st, step);
    assert forall|h: Seq<Option<Item>>, x: Item| #[trigger] step(mk(h), x) == (match kind(h, Some(x)) {
        Kind::Go => Ctl::Next(mk(h.push(Some(x)))), Kind::Stop => Ctl::Brk(mk(h.push(Some(x)))), Kind::Fail => Ctl::Ret(err) }) by {
        assert(h.push(Some(x)).drop_last() =~= h);
    }
    assert(mk(Seq::empty()) == st);
    rule(fs, step, mk, kind, err);
}
/// the elements before the one that ends the run are all followed by another step
pub proof fn lem_all_go<S, R>(s: Seq<Option<Item>>, kind: KindFn, i: int, j: int)
    requires 0 <= i <= j < first_stop(s, kind, i)
    ensures kind(s.take(j), s[j]) is Go, first_stop(s, kind, j) == first_stop(s, kind, i)
    decreases j - i
{
    lem_stop_bounds(s, kind, i);
    if i < j { if i < s.len() && kind(s.take(i), s[i]) is Go { lem_all_go::<S, R>(s, kind, i + 1, j); } }
}
}
