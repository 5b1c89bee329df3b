// ---- sorting by an order, and dropping equal neighbours
pub mod sorts { use super::*; use vstd::prelude::*; use vstd::seq_lib::*; use vstd::relations::*;
verus! {
pub open spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
/// a total order
pub open spec fn total<T>(f: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T, b: T| (#[trigger] f(a, b) is Equal) == (a == b)
    &&& forall|a: T, b: T| #[trigger] f(a, b) == flip(f(b, a))
    &&& forall|a: T, b: T, c: T| #![trigger f(a, b), f(b, c)] !(f(a, b) is Greater) && !(f(b, c) is Greater) ==> !(f(a, c) is Greater)
}
pub proof fn lem_total_int()
    ensures total(cmp_fn::<int>()), total(cmp_fn::<u8>())
{ }
pub proof fn lem_total_pair<T: XCmp>(a: Seq<T>, b: Seq<T>)
    requires total(cmp_fn::<T>())
    ensures (lex_cmp(a, b) is Equal) == (a == b), lex_cmp(a, b) == flip(lex_cmp(b, a))
    decreases a.len()
{
    let f = cmp_fn::<T>();
    if a.len() > 0 && b.len() > 0 {
        let s = a.subrange(1, a.len() as int);
        let t = b.subrange(1, b.len() as int);
        lem_total_pair(s, t);
        assert((f(a[0], b[0]) is Equal) == (a[0] == b[0]));
        assert(f(a[0], b[0]) == flip(f(b[0], a[0])));
        assert(f(b[0], a[0]) == flip(f(a[0], b[0])));
        if lex_cmp(a, b) is Equal { assert(s == t); assert(a =~= b) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(s[i - 1] == t[i - 1]); } } } }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lem_total_chain<T: XCmp>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    requires total(cmp_fn::<T>()), !(lex_cmp(a, b) is Greater), !(lex_cmp(b, c) is Greater)
    ensures !(lex_cmp(a, c) is Greater)
    decreases a.len()
{
    let f = cmp_fn::<T>();
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        let (x, y, z) = (a[0], b[0], c[0]);
        assert(!(f(x, y) is Greater) && !(f(y, z) is Greater));
        assert(!(f(x, z) is Greater));
        assert((f(x, y) is Equal) == (x == y));
        assert((f(y, z) is Equal) == (y == z));
        assert((f(x, z) is Equal) == (x == z));
        assert(f(x, y) == flip(f(y, x)));
        if x == z {
            assert(f(y, z) == flip(f(z, y)));
            assert(f(x, y) is Equal);
            lem_total_chain(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int));
        }
    }
}
pub proof fn lem_total_seq<T: XCmp>()
    requires total(cmp_fn::<T>())
    ensures total(cmp_fn::<Seq<T>>())
{
    let f = cmp_fn::<Seq<T>>();
    assert forall|a: Seq<T>, b: Seq<T>| (#[trigger] f(a, b) is Equal) == (a == b) by { lem_total_pair(a, b); }
    assert forall|a: Seq<T>, b: Seq<T>| #[trigger] f(a, b) == flip(f(b, a)) by { lem_total_pair(a, b); }
    assert forall|a: Seq<T>, b: Seq<T>, c: Seq<T>| #![trigger f(a, b), f(b, c)] !(f(a, b) is Greater) && !(f(b, c) is Greater) implies !(f(a, c) is Greater) by { lem_total_chain(a, b, c); }
}
pub proof fn lem_filter_once<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires s.no_duplicates()
    ensures s.filter(p).no_duplicates()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lem_filter_once(s.drop_last(), p);
        let f = s.drop_last().filter(p);
        if p(s.last()) && f.contains(s.last()) { s.drop_last().lemma_filter_contains_rev(p, s.last()); assert(s.drop_last().contains(s.last())); }
    }
}
/// sorting by a total order: the same elements, none above a later one
pub proof fn lem_sorted<T>(s: Seq<T>, f: spec_fn(T, T) -> Ordering)
    requires total(f)
    ensures ({
        let r = s.x_sort_by(f);
        &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> !(f(#[trigger] r[i], #[trigger] r[j]) is Greater)
        &&& forall|x: T| r.contains(x) == s.contains(x)
        &&& r.len() == s.len()
        &&& s.no_duplicates() ==> r.no_duplicates()
    })
{
    let leq = not_above(f);
    assert(total_ordering(leq)) by {
        assert forall|a: T| #[trigger] leq(a, a) by { assert((f(a, a) is Equal) == (a == a)); }
        assert forall|a: T, b: T| #[trigger] leq(a, b) && #[trigger] leq(b, a) implies a == b by { assert(f(a, b) == flip(f(b, a))); assert((f(a, b) is Equal) == (a == b)); }
        assert forall|a: T, b: T, c: T| #[trigger] leq(a, b) && #[trigger] leq(b, c) implies leq(a, c) by { }
        assert forall|a: T, b: T| #[trigger] leq(a, b) || #[trigger] leq(b, a) by { assert(f(a, b) == flip(f(b, a))); }
    }
    s.lemma_sort_by_ensures(leq);
    let r = s.sort_by(leq);
    assert(r.to_multiset() =~= s.to_multiset());
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    s.to_multiset_ensures(); r.to_multiset_ensures();
    assert(r.len() == s.len());
    assert forall|x: T| r.contains(x) == s.contains(x) by { assert((r.to_multiset().count(x) > 0) == r.contains(x)); assert((s.to_multiset().count(x) > 0) == s.contains(x)); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies !(f(#[trigger] r[i], #[trigger] r[j]) is Greater) by { assert(sorted_by(r, leq)); assert(leq(r[i], r[j])); }
    if s.no_duplicates() { s.lemma_multiset_has_no_duplicates(); r.lemma_multiset_has_no_duplicates_conv(); }
}
/// dropping equal neighbours of a sorted sequence leaves each element once, in order
pub proof fn lem_dedup<T>(s: Seq<T>, f: spec_fn(T, T) -> Ordering)
    requires total(f), forall|i: int, j: int| 0 <= i < j < s.len() ==> !(f(#[trigger] s[i], #[trigger] s[j]) is Greater)
    ensures ({
        let r = seq_dedup(s);
        &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> f(#[trigger] r[i], #[trigger] r[j]) is Less
        &&& forall|x: T| r.contains(x) == s.contains(x)
        &&& s.len() > 0 ==> r.len() > 0 && r.last() == s.last()
    })
    decreases s.len()
{
    if s.len() >= 2 {
        let p = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies !(f(#[trigger] p[i], #[trigger] p[j]) is Greater) by { assert(p[i] == s[i] && p[j] == s[j]); }
        lem_dedup(p, f);
        let q = seq_dedup(p);
        let r = seq_dedup(s);
        let n = s.len() - 1;
        assert(p.last() == s[n - 1]);
        if s[n - 1] == s.last() {
            assert forall|x: T| r.contains(x) == s.contains(x) by {
                if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < n { assert(p[i] == x); } else { assert(p[n - 1] == x); } assert(p.contains(x)); }
                if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(s[i] == x); }
            }
        } else {
            assert(r == q.push(s.last()));
            assert(f(s[n - 1], s[n]) is Less) by { assert((f(s[n - 1], s[n]) is Equal) == (s[n - 1] == s[n])); }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies f(#[trigger] r[i], #[trigger] r[j]) is Less by {
                if j < q.len() { assert(r[i] == q[i] && r[j] == q[j]); } else {
                    let m = q.len() - 1;
                    assert(q[m] == s[n - 1]);
                    assert(r[i] == q[i]);
                    if i < m { assert(f(q[i], q[m]) is Less); assert(!(f(q[i], s[n]) is Greater)); assert((f(q[i], s[n]) is Equal) == (q[i] == s[n])); assert(f(s[n - 1], s[n]) == flip(f(s[n], s[n - 1]))); }
                }
            }
            assert forall|x: T| r.contains(x) == s.contains(x) by {
                if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; if i < q.len() { assert(q[i] == x); assert(q.contains(x)); let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(s[k] == x); } else { assert(s[n] == x); } }
                if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < n { assert(p[i] == x); assert(p.contains(x)); let k = choose|k: int| 0 <= k < q.len() && q[k] == x; assert(r[k] == x); } else { assert(r[r.len() - 1] == x); } }
            }
        }
    }
}
}
}
pub use sorts::*;
