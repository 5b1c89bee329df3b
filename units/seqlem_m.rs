pub mod seqlem {
use super::*;
verus! {
pub open spec fn rest<T>(s: Seq<T>) -> Seq<T> { s.subrange(1, s.len() as int) }
pub proof fn lem_map_cons<A, B>(s: Seq<A>, f: spec_fn(A) -> B)
    requires s.len() > 0
    ensures s.map_values(f) =~= seq![f(s[0])] + rest(s).map_values(f), rest(s.map_values(f)) =~= rest(s).map_values(f) { }
pub proof fn lem_filter_cons<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    requires s.len() > 0
    ensures s.filter(f) == (if f(s[0]) { seq![s[0]] + rest(s).filter(f) } else { rest(s).filter(f) })
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::<A>::empty()); assert(rest(s) =~= Seq::<A>::empty());
        assert(s.drop_last().filter(f) =~= Seq::<A>::empty()); assert(rest(s).filter(f) =~= Seq::<A>::empty());
        assert(s.last() == s[0]);
        assert(s.filter(f) =~= (if f(s[0]) { seq![s[0]] } else { Seq::empty() }));
        assert(seq![s[0]] + Seq::<A>::empty() =~= seq![s[0]]);
    } else {
        lem_filter_cons(s.drop_last(), f);
        assert(rest(s.drop_last()) =~= rest(s).drop_last());
        assert(rest(s).last() == s.last());
        let r = rest(s).drop_last().filter(f);
        assert((seq![s[0]] + r).push(s.last()) =~= seq![s[0]] + r.push(s.last()));
    }
}
pub proof fn lem_filter_last<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    requires s.len() > 0
    ensures s.filter(f) == (if f(s.last()) { s.drop_last().filter(f).push(s.last()) } else { s.drop_last().filter(f) })
{ reveal(Seq::filter); }
pub proof fn lem_flat_cons<A>(s: Seq<Seq<A>>)
    requires s.len() > 0
    ensures seq_flat(s) == s[0] + seq_flat(rest(s))
    decreases s.len()
{
    reveal_with_fuel(seq_flat, 3);
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::<Seq<A>>::empty()); assert(rest(s) =~= Seq::<Seq<A>>::empty());
        assert(Seq::<A>::empty() + s[0] =~= s[0] + Seq::<A>::empty());
    } else {
        lem_flat_cons(s.drop_last());
        assert(rest(s.drop_last()) =~= rest(s).drop_last());
        assert(rest(s).last() == s.last());
        let r = seq_flat(rest(s).drop_last());
        assert((s[0] + r) + s.last() =~= s[0] + (r + s.last()));
    }
}
pub proof fn lem_somes_add<A>(a: Seq<Option<A>>, b: Seq<Option<A>>)
    ensures seq_somes(a + b) == seq_somes(a) + seq_somes(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a); assert(seq_somes(a) + seq_somes(b) =~= seq_somes(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lem_somes_add(a, b.drop_last());
        if b.last() is Some {
            assert((seq_somes(a) + seq_somes(b.drop_last())).push(b.last()->0) =~= seq_somes(a) + seq_somes(b.drop_last()).push(b.last()->0));
        }
    }
}
pub proof fn lem_somes_one<A>(x: Option<A>)
    ensures seq_somes(seq![x]) == (match x { Some(v) => seq![v], None => Seq::empty() })
{
    reveal_with_fuel(seq_somes, 3);
    assert(seq![x].drop_last() =~= Seq::<Option<A>>::empty());
    if x is Some { assert(Seq::<A>::empty().push(x->0) =~= seq![x->0]); }
}
pub proof fn lem_somes_cons<A>(s: Seq<Option<A>>)
    requires s.len() > 0
    ensures seq_somes(s) == (match s[0] { Some(v) => seq![v] + seq_somes(rest(s)), None => seq_somes(rest(s)) })
{
    assert(s =~= seq![s[0]] + rest(s));
    lem_somes_add(seq![s[0]], rest(s));
    lem_somes_one(s[0]);
    assert(Seq::<A>::empty() + seq_somes(rest(s)) =~= seq_somes(rest(s)));
}
pub proof fn lem_map_add<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> B)
    ensures (a + b).map_values(f) =~= a.map_values(f) + b.map_values(f) { }
/// a filter_map over a concatenation
pub proof fn lem_fm_add<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> Option<B>)
    ensures (a + b).x_filter_map(f) == a.x_filter_map(f) + b.x_filter_map(f)
{ lem_map_add(a, b, f); lem_somes_add(a.map_values(f), b.map_values(f)); }
pub proof fn lem_fm_cons<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>)
    requires s.len() > 0
    ensures s.x_filter_map(f) == (match f(s[0]) { Some(v) => seq![v] + rest(s).x_filter_map(f), None => rest(s).x_filter_map(f) })
{ lem_map_cons(s, f); lem_somes_cons(s.map_values(f)); assert(rest(s.map_values(f)) =~= rest(s).map_values(f)); }
pub proof fn lem_fl_cons<A, B>(s: Seq<A>, f: spec_fn(A) -> Seq<B>)
    requires s.len() > 0
    ensures s.x_flat_map(f) == f(s[0]) + rest(s).x_flat_map(f)
{ lem_map_cons(s, f); lem_flat_cons(s.map_values(f)); assert(rest(s.map_values(f)) =~= rest(s).map_values(f)); }
pub proof fn lem_ffm_cons<A, B>(s: Seq<A>, q: spec_fn(A) -> bool, g: spec_fn(A) -> Option<B>)
    requires s.len() > 0
    ensures s.filter(q).x_filter_map(g) == (if q(s[0]) && g(s[0]) is Some { seq![g(s[0])->0] + rest(s).filter(q).x_filter_map(g) } else { rest(s).filter(q).x_filter_map(g) })
{
    lem_filter_cons(s, q);
    if q(s[0]) {
        let r = rest(s).filter(q);
        let w = seq![s[0]] + r;
        assert(rest(w) =~= r);
        lem_fm_cons(w, g);
    }
}
pub broadcast proof fn lem_fm_ext<A, B>(s: Seq<A>, f: spec_fn(A) -> Option<B>, g: spec_fn(A) -> Option<B>)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])
    ensures #![trigger s.x_filter_map(f), s.x_filter_map(g)] s.x_filter_map(f) == s.x_filter_map(g)
{ assert(s.map_values(f) =~= s.map_values(g)); }
pub broadcast proof fn lem_fl_ext<A, B>(s: Seq<A>, f: spec_fn(A) -> Seq<B>, g: spec_fn(A) -> Seq<B>)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])
    ensures #![trigger s.x_flat_map(f), s.x_flat_map(g)] s.x_flat_map(f) == s.x_flat_map(g)
{ assert(s.map_values(f) =~= s.map_values(g)); }
pub broadcast proof fn lem_mm<A, B, C>(s: Seq<A>, f: spec_fn(A) -> B, g: spec_fn(B) -> C)
    ensures #[trigger] s.map_values(f).map_values(g) == s.map_values(|x: A| g(f(x)))
{ assert(s.map_values(f).map_values(g) =~= s.map_values(|x: A| g(f(x)))); }
pub broadcast proof fn lem_m_ext<A, B>(s: Seq<A>, f: spec_fn(A) -> B, g: spec_fn(A) -> B)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i])
    ensures #![trigger s.map_values(f), s.map_values(g)] s.map_values(f) == s.map_values(g)
{ assert(s.map_values(f) =~= s.map_values(g)); }
pub broadcast proof fn lem_fold_ext<A, S>(s: Seq<A>, i: S, f: spec_fn(S, A) -> S, g: spec_fn(S, A) -> S)
    requires forall|a: S, x: A| #[trigger] f(a, x) == g(a, x)
    ensures #![trigger seq_fold(s, i, f), seq_fold(s, i, g)] seq_fold(s, i, f) == seq_fold(s, i, g)
    decreases s.len()
{
    if s.len() > 0 { lem_fold_ext(s.drop_last(), i, f, g); assert(f(seq_fold(s.drop_last(), i, f), s.last()) == g(seq_fold(s.drop_last(), i, f), s.last())); }
}
/// a loop that pushes one element per round is a map
pub broadcast proof fn lem_fold_push<A, B>(s: Seq<A>, f: spec_fn(Seq<B>, A) -> Seq<B>)
    requires forall|r: Seq<B>, x: A| #[trigger] f(r, x) == r.push(f(Seq::empty(), x).last())
    ensures #[trigger] seq_fold(s, Seq::<B>::empty(), f) == s.map_values(|x: A| f(Seq::<B>::empty(), x).last())
    decreases s.len()
{
    let g = |x: A| f(Seq::<B>::empty(), x).last();
    if s.len() == 0 { assert(s.map_values(g) =~= Seq::<B>::empty()); }
    else {
        lem_fold_push(s.drop_last(), f);
        let r = s.drop_last().map_values(g);
        assert(f(r, s.last()) == r.push(f(Seq::empty(), s.last()).last()));
        assert(s.map_values(g) =~= r.push(g(s.last())));
    }
}
pub broadcast group group_mx { lem_mm, lem_m_ext, lem_fold_ext, lem_fold_push }
pub broadcast group group_sx { lem_fm_ext, lem_fl_ext }
}
}
