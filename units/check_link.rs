// the link check over the records of a run
pub mod link_p {
use super::*;
verus! {
/// a record of the run, and whether it is in the scope of the rule
pub struct Event { pub record: ByteRecord, pub scope: bool }
pub open spec fn lopts(l: Link) -> MatcherOptions { MatcherOptions { strsim: l.strsim_threshold, ignore: l.case_ignore } }
pub open spec fn sources(l: Link, r: ByteRecord) -> Seq<Seq<u8>> { r.path(l.source.path, lopts(l)) }
pub open spec fn idn(r: ByteRecord) -> Seq<u8> { match r.ppn() { Some(p) => p, None => Seq::empty() } }
pub open spec fn selected(l: Link, r: ByteRecord) -> bool { match l.target.matcher { None => true, Some(m) => m.is_match(r, lopts(l)) } }
/// `v` is a target value of the record
pub open spec fn aims(l: Link, r: ByteRecord, v: Seq<u8>) -> bool { selected(l, r) && r.path(l.target.path, lopts(l)).contains(v) }
/// `v` is a target value of one of the records, in scope or not
pub open spec fn known(l: Link, es: Seq<Event>, v: Seq<u8>) -> bool { exists|i: int| 0 <= i < es.len() && aims(l, (#[trigger] es[i]).record, v) }
/// the source values of the records in scope with this number
pub open spec fn linked(l: Link, es: Seq<Event>, k: Seq<u8>) -> Seq<Seq<u8>> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { linked(l, es.drop_last(), k) + (if es.last().scope && idn(es.last().record) == k { sources(l, es.last().record) } else { Seq::empty() }) }
}
/// those of the values that are not in a set
pub open spec fn outside(s: Seq<Seq<u8>>, t: Bad) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if t(s.last()) { outside(s.drop_last(), t) } else { outside(s.drop_last(), t).push(s.last()) }
}
/// the check of the records one after the other
pub open spec fn state(l: Link, es: Seq<Event>) -> Link decreases es.len() {
    if es.len() == 0 { l } else { step(state(l, es.drop_last()), es.last()) }
}
pub open spec fn step(s: Link, e: Event) -> Link { let t = s.preprocess(e.record); if e.scope { t.x_check_mut(e.record).1 } else { t } }
pub open spec fn same(l: Link, s: Link) -> bool { s.source == l.source && s.target == l.target && s.strsim_threshold == l.strsim_threshold && s.case_ignore == l.case_ignore }

// ---- preprocess
pub open spec fn adds(s: Seq<Seq<u8>>, seen: Set<Seq<u8>>) -> Set<Seq<u8>> decreases s.len() { if s.len() == 0 { seen } else { adds(s.drop_last(), seen).insert(s.last()) } }
pub broadcast proof fn lem_fold_seen(s: Seq<Seq<u8>>, l: Link, f: spec_fn(Link, Seq<u8>) -> Link)
    requires forall|a: Link, v: Seq<u8>| #[trigger] f(a, v) == a.upd_seen(a.seen.insert(v))
    ensures #[trigger] seq_fold(s, l, f) == l.upd_seen(adds(s, l.seen))
    decreases s.len()
{ if s.len() > 0 { lem_fold_seen(s.drop_last(), l, f); } }
pub proof fn lem_adds(s: Seq<Seq<u8>>, seen: Set<Seq<u8>>, v: Seq<u8>)
    ensures adds(s, seen).contains(v) == (seen.contains(v) || s.contains(v))
    decreases s.len()
{
    if s.len() > 0 {
        lem_adds(s.drop_last(), seen, v);
        if s.contains(v) { let i = choose|i: int| 0 <= i < s.len() && s[i] == v; if i < s.len() - 1 { assert(s.drop_last()[i] == v); } }
        if s.drop_last().contains(v) { let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_last()[i] == v; assert(s[i] == v); }
    }
}
pub proof fn lem_preprocess(l: Link, r: ByteRecord)
    ensures same(l, l.preprocess(r)), l.preprocess(r).unseen == l.unseen, forall|v: Seq<u8>| #[trigger] l.preprocess(r).seen.contains(v) == (l.seen.contains(v) || aims(l, r, v))
{
    broadcast use lem_fold_seen;
    let s = r.path(l.target.path, lopts(l));
    assert(MatcherOptions::x_default().strsim_threshold(l.strsim_threshold).case_ignore(l.case_ignore) == lopts(l));
    if s.len() > 0 && selected(l, r) {
        assert(l.preprocess(r) == l.upd_seen(adds(s, l.seen)));
    } else {
        assert(l.preprocess(r) == l);
    }
    assert forall|v: Seq<u8>| #[trigger] l.preprocess(r).seen.contains(v) == (l.seen.contains(v) || aims(l, r, v)) by { lem_adds(s, l.seen, v); }
}

// ---- check
pub type Waiting = Map<Seq<u8>, Seq<Seq<u8>>>;
pub open spec fn none() -> Seq<Seq<u8>> { Seq::empty() }
pub open spec fn wait(u: Waiting, k: Seq<u8>, v: Seq<u8>, seen: Set<Seq<u8>>) -> Waiting { if seen.contains(v) { u } else { map_put(u, k, map_or(u, k, none()).push(v)) } }
pub open spec fn waits(u: Waiting, k: Seq<u8>, s: Seq<Seq<u8>>, seen: Set<Seq<u8>>) -> Waiting decreases s.len() {
    if s.len() == 0 { u } else { waits(wait(u, k, s[0], seen), k, s.subrange(1, s.len() as int), seen) }
}
pub open spec fn key(k: Seq<u8>) -> bool { true }
pub broadcast proof fn lem_for_wait<R>(s: Seq<Seq<u8>>, l: Link, k: Seq<u8>, f: spec_fn(Link, Seq<u8>) -> Ctl<Link, R>)
    requires forall|a: Link, v: Seq<u8>| #[trigger] f(a, v) == Ctl::<Link, R>::Next(if a.seen.contains(v) { a } else { a.upd_unseen(map_put(a.unseen, k, map_or(a.unseen, k, none()).push(v))) })
    ensures #![trigger seq_for(s, l, f), key(k)] seq_for(s, l, f) == Ctl::<Link, R>::Next(l.upd_unseen(waits(l.unseen, k, s, l.seen)))
    decreases s.len()
{
    if s.len() > 0 {
        let b = l.upd_unseen(wait(l.unseen, k, s[0], l.seen));
        assert(f(l, s[0]) == Ctl::<Link, R>::Next(b));
        lem_for_wait(s.subrange(1, s.len() as int), b, k, f);
    }
}
pub proof fn lem_check(l: Link, r: ByteRecord)
    ensures l.x_check_mut(r).0 == (false, None::<Seq<u8>>), l.x_check_mut(r).1 == l.upd_unseen(waits(l.unseen, idn(r), sources(l, r), l.seen))
{
    broadcast use lem_for_wait;
    assert(MatcherOptions::x_default().strsim_threshold(l.strsim_threshold).case_ignore(l.case_ignore) == lopts(l));
    assert(key(idn(r)));
    assert forall|v: Seq<u8>| #[trigger] none().push(v) == seq![v] by { assert(none().push(v) =~= seq![v]); }
}
pub proof fn lem_outside_add(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, t: Bad)
    ensures outside(a + b, t) == outside(a, t) + outside(b, t)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(outside(a, t) + none() =~= outside(a, t)); }
    else {
        lem_outside_add(a, b.drop_last(), t);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(outside(a + b, t) =~= outside(a, t) + outside(b, t));
    }
}
/// nothing that stays unknown is lost
pub proof fn lem_waits(u: Waiting, k: Seq<u8>, s: Seq<Seq<u8>>, seen: Set<Seq<u8>>, j: Seq<u8>, t: Bad)
    requires forall|v: Seq<u8>| #[trigger] seen.contains(v) ==> t(v)
    ensures outside(map_or(waits(u, k, s, seen), j, none()), t) == outside(map_or(u, j, none()), t) + (if j == k { outside(s, t) } else { none() })
    decreases s.len()
{
    if s.len() == 0 { assert(outside(map_or(u, j, none()), t) + none() =~= outside(map_or(u, j, none()), t)); }
    else {
        let w = wait(u, k, s[0], seen);
        let rest = s.subrange(1, s.len() as int);
        lem_waits(w, k, rest, seen, j, t);
        assert(s =~= seq![s[0]] + rest);
        lem_outside_add(seq![s[0]], rest, t);
        let a = map_or(u, j, none());
        assert(seq![s[0]].drop_last() =~= none());
        if j == k && !seen.contains(s[0]) {
            assert(a.push(s[0]) =~= a + seq![s[0]]);
            lem_outside_add(a, seq![s[0]], t);
            assert(outside(a, t) + outside(seq![s[0]], t) + outside(rest, t) =~= outside(a, t) + (outside(seq![s[0]], t) + outside(rest, t)));
        } else if j == k {
            assert(seq![s[0]].last() == s[0]);
            assert(t(s[0]));
            assert(outside(seq![s[0]].drop_last(), t) == none());
            assert(outside(seq![s[0]], t) == none());
            assert(none() + outside(rest, t) =~= outside(rest, t));
        }
    }
}
/// what is kept after the records
pub proof fn lem_state(l: Link, es: Seq<Event>)
    requires l.seen == Set::<Seq<u8>>::empty(), l.unseen == Map::<Seq<u8>, Seq<Seq<u8>>>::empty()
    ensures same(l, state(l, es)), forall|v: Seq<u8>| #[trigger] state(l, es).seen.contains(v) == known(l, es, v),
        forall|k: Seq<u8>, t: Bad| (forall|v: Seq<u8>| #[trigger] known(l, es, v) ==> t(v)) ==> #[trigger] outside(map_or(state(l, es).unseen, k, none()), t) == outside(linked(l, es, k), t)
    decreases es.len()
{
    if es.len() > 0 {
        let ds = es.drop_last();
        let e = es.last();
        lem_state(l, ds);
        let s = state(l, ds);
        let p = s.preprocess(e.record);
        lem_preprocess(s, e.record);
        lem_check(p, e.record);
        let n = state(l, es);
        assert(n == step(s, e));
        assert forall|v: Seq<u8>| #[trigger] n.seen.contains(v) == known(l, es, v) by {
            if known(l, ds, v) { let i = choose|i: int| 0 <= i < ds.len() && aims(l, (#[trigger] ds[i]).record, v); assert(es[i] == ds[i]); assert(known(l, es, v)); }
            if aims(l, e.record, v) { assert(es[es.len() - 1] == e); assert(known(l, es, v)); }
            if known(l, es, v) { let i = choose|i: int| 0 <= i < es.len() && aims(l, (#[trigger] es[i]).record, v); if i < ds.len() { assert(ds[i] == es[i]); } }
        }
        assert forall|k: Seq<u8>, t: Bad| (forall|v: Seq<u8>| #[trigger] known(l, es, v) ==> t(v)) implies #[trigger] outside(map_or(n.unseen, k, none()), t) == outside(linked(l, es, k), t) by {
            assert forall|v: Seq<u8>| #[trigger] known(l, ds, v) implies t(v) by { let i = choose|i: int| 0 <= i < ds.len() && aims(l, (#[trigger] ds[i]).record, v); assert(es[i] == ds[i]); assert(known(l, es, v)); }
            assert(outside(map_or(s.unseen, k, none()), t) == outside(linked(l, ds, k), t));
            let extra = if e.scope && idn(e.record) == k { sources(l, e.record) } else { none() };
            lem_outside_add(linked(l, ds, k), extra, t);
            assert(outside(none(), t) =~= none());
            if e.scope {
                assert forall|v: Seq<u8>| #[trigger] p.seen.contains(v) implies t(v) by { assert(n.seen.contains(v)); assert(known(l, es, v)); }
                lem_waits(p.unseen, idn(e.record), sources(p, e.record), p.seen, k, t);
            } else {
                assert(outside(linked(l, ds, k), t) + none() =~= outside(linked(l, ds, k), t));
            }
        }
    }
}

// ---- finish
pub type Report = Seq<(Seq<u8>, Option<Seq<u8>>)>;
pub open spec fn reported(its: Seq<(Seq<u8>, Seq<Seq<u8>>)>, t: Bad) -> Report decreases its.len() {
    if its.len() == 0 { Seq::empty() } else {
        let o = outside(its.last().1, t);
        if o.len() == 0 { reported(its.drop_last(), t) } else { reported(its.drop_last(), t).push((its.last().0, Some(joined(o, comma())))) }
    }
}
pub open spec fn test(t: Bad) -> bool { true }
pub broadcast proof fn lem_outside(s: Seq<Seq<u8>>, f: Bad, t: Bad)
    requires forall|v: Seq<u8>| #[trigger] f(v) == !t(v)
    ensures #![trigger s.filter(f), test(t)] s.filter(f) == outside(s, t)
    decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { lem_outside(s.drop_last(), f, t); } }
pub broadcast proof fn lem_fold_report(its: Seq<(Seq<u8>, Seq<Seq<u8>>)>, f: spec_fn(Report, (Seq<u8>, Seq<Seq<u8>>)) -> Report, t: Bad)
    requires forall|a: Report, p: (Seq<u8>, Seq<Seq<u8>>)| #[trigger] f(a, p) == (if outside(p.1, t).len() == 0 { a } else { a.push((p.0, Some(joined(outside(p.1, t), comma())))) })
    ensures #![trigger seq_fold(its, Seq::empty(), f), test(t)] seq_fold(its, Seq::empty(), f) == reported(its, t)
    decreases its.len()
{ if its.len() > 0 { lem_fold_report(its.drop_last(), f, t); } }
pub open spec fn seen_fn(l: Link) -> Bad { |v: Seq<u8>| l.seen.contains(v) }
pub proof fn lem_finish(l: Link)
    ensures l.finish().0 == reported(map_items(l.unseen), seen_fn(l))
{
    broadcast use {lem_outside, lem_fold_report, lem_id};
    assert(test(seen_fn(l)));
}
pub type Its = Seq<(Seq<u8>, Seq<Seq<u8>>)>;
pub open spec fn from(its: Its, t: Bad, p: (Seq<u8>, Option<Seq<u8>>), j: int) -> bool { 0 <= j < its.len() && outside(its[j].1, t).len() > 0 && p == (its[j].0, Some(joined(outside(its[j].1, t), comma()))) }
pub open spec fn comes(its: Its, t: Bad, p: (Seq<u8>, Option<Seq<u8>>)) -> bool { exists|j: int| #[trigger] from(its, t, p, j) }
pub open spec fn names(r: Report, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == k }
pub proof fn lem_comes(its: Its, t: Bad, i: int)
    requires 0 <= i < reported(its, t).len()
    ensures comes(its, t, reported(its, t)[i])
    decreases its.len()
{
    let p = reported(its, t)[i];
    if its.len() > 0 {
        let ds = its.drop_last();
        if i < reported(ds, t).len() {
            lem_comes(ds, t, i);
            assert(p == reported(ds, t)[i]);
            let j = choose|j: int| #[trigger] from(ds, t, p, j);
            assert(from(its, t, p, j));
        } else { assert(from(its, t, p, its.len() - 1)); }
    }
}
pub proof fn lem_names(its: Its, t: Bad, j: int)
    requires 0 <= j < its.len(), outside(its[j].1, t).len() > 0
    ensures names(reported(its, t), its[j].0)
    decreases its.len()
{
    let ds = its.drop_last();
    let b = reported(its, t);
    if j < ds.len() {
        assert(its[j] == ds[j]);
        lem_names(ds, t, j);
        let a = reported(ds, t);
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == ds[j].0;
        assert(b[i] == a[i]);
    } else { assert(b[b.len() - 1].0 == its[j].0); }
}
pub open spec fn keyed(its: Its) -> bool { forall|i: int, j: int| 0 <= i < j < its.len() ==> (#[trigger] its[i]).0 != (#[trigger] its[j]).0 }
pub proof fn lem_once(its: Its, t: Bad, i: int, j: int)
    requires keyed(its), 0 <= i < j < reported(its, t).len()
    ensures reported(its, t)[i].0 != reported(its, t)[j].0
    decreases its.len()
{
    let ds = its.drop_last();
    let a = reported(ds, t);
    let b = reported(its, t);
    assert(keyed(ds)) by { assert forall|i: int, j: int| 0 <= i < j < ds.len() implies (#[trigger] ds[i]).0 != (#[trigger] ds[j]).0 by { assert(ds[i] == its[i] && ds[j] == its[j]); } }
    assert(b[i] == a[i]);
    if j < a.len() { lem_once(ds, t, i, j); assert(b[j] == a[j]); }
    else {
        lem_comes(ds, t, i);
        let m = choose|m: int| #[trigger] from(ds, t, a[i], m);
        assert(its[m] == ds[m]);
        assert(its[its.len() - 1] == its.last());
    }
}

// ---- the property
pub open spec fn known_fn(l: Link, es: Seq<Event>) -> Bad { |v: Seq<u8>| known(l, es, v) }
/// the source values of this number that are no target value of any record
pub open spec fn dangling(l: Link, es: Seq<Event>, k: Seq<u8>) -> Seq<Seq<u8>> { outside(linked(l, es, k), known_fn(l, es)) }
pub open spec fn fresh(l: Link) -> bool { l.seen == Set::<Seq<u8>>::empty() && l.unseen == Map::<Seq<u8>, Seq<Seq<u8>>>::empty() }
/// nothing is reported while the records are read
pub proof fn ob_link_quiet(l: Link, r: ByteRecord)
    ensures l.x_check_mut(r).0 == (false, None::<Seq<u8>>)
{ lem_check(l, r); }
/// at the end exactly the numbers of records in scope with a dangling value are reported, once each, with these values
pub proof fn ob_link(l: Link, es: Seq<Event>)
    requires fresh(l), lists_entries(map_items(state(l, es).unseen), state(l, es).unseen)
    ensures
        forall|i: int| 0 <= i < state(l, es).finish().0.len() ==> told(l, es, #[trigger] state(l, es).finish().0[i]),
        forall|k: Seq<u8>| (#[trigger] dangling(l, es, k)).len() > 0 ==> names(state(l, es).finish().0, k),
        forall|i: int, j: int| 0 <= i < j < state(l, es).finish().0.len() ==> (#[trigger] state(l, es).finish().0[i]).0 != (#[trigger] state(l, es).finish().0[j]).0,
{
    hide(state); hide(reported); hide(outside); hide(linked); hide(Link::finish); hide(joined);
    let s = state(l, es);
    let t = known_fn(l, es);
    let its = map_items(s.unseen);
    lem_state(l, es);
    lem_finish(s);
    assert(seen_fn(s) =~= t);
    let out = s.finish().0;
    assert(out == reported(its, t));
    assert(keyed(its));
    assert(outside(none(), t) == none()) by { reveal_with_fuel(outside, 2); }
    assert forall|k: Seq<u8>| #[trigger] dangling(l, es, k) == outside(map_or(s.unseen, k, none()), t) by { assert forall|v: Seq<u8>| #[trigger] known(l, es, v) implies t(v) by { } }
    assert forall|i: int| 0 <= i < out.len() implies told(l, es, #[trigger] out[i]) by {
        lem_comes(its, t, i);
        let j = choose|j: int| #[trigger] from(its, t, out[i], j);
        assert(s.unseen.contains_key(its[j].0) && s.unseen[its[j].0] == its[j].1);
        assert(dangling(l, es, its[j].0) == outside(its[j].1, t));
    }
    assert forall|k: Seq<u8>| (#[trigger] dangling(l, es, k)).len() > 0 implies names(out, k) by {
        assert(s.unseen.contains_key(k));
        let j = choose|j: int| 0 <= j < its.len() && #[trigger] its[j] == (k, s.unseen[k]);
        lem_names(its, t, j);
    }
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies (#[trigger] out[i]).0 != (#[trigger] out[j]).0 by { lem_once(its, t, i, j); }
}
/// an entry of the report is about a number with dangling values, and lists these
pub open spec fn told(l: Link, es: Seq<Event>, p: (Seq<u8>, Option<Seq<u8>>)) -> bool { dangling(l, es, p.0).len() > 0 && p.1 == Some(joined(dangling(l, es, p.0), comma())) }
/// a number is reported if and only if a record in scope has a source value that no record has as target value
pub proof fn ob_link_iff(l: Link, es: Seq<Event>, k: Seq<u8>)
    ensures (dangling(l, es, k).len() > 0) == exists|i: int, v: Seq<u8>| 0 <= i < es.len() && (#[trigger] es[i]).scope && idn(es[i].record) == k && #[trigger] sources(l, es[i].record).contains(v) && !known(l, es, v)
{
    lem_some(l, es, k, known_fn(l, es));
}
pub open spec fn dangles(l: Link, es: Seq<Event>, k: Seq<u8>, t: Bad) -> bool { exists|i: int, v: Seq<u8>| 0 <= i < es.len() && (#[trigger] es[i]).scope && idn(es[i].record) == k && #[trigger] sources(l, es[i].record).contains(v) && !t(v) }
pub proof fn lem_some(l: Link, es: Seq<Event>, k: Seq<u8>, t: Bad)
    ensures (outside(linked(l, es, k), t).len() > 0) == dangles(l, es, k, t)
    decreases es.len()
{
    if es.len() > 0 {
        let ds = es.drop_last();
        let e = es.last();
        lem_some(l, ds, k, t);
        let extra = if e.scope && idn(e.record) == k { sources(l, e.record) } else { none() };
        lem_outside_add(linked(l, ds, k), extra, t);
        lem_outside_some(extra, t);
        if dangles(l, ds, k, t) {
            let (i, v) = choose|i: int, v: Seq<u8>| 0 <= i < ds.len() && (#[trigger] ds[i]).scope && idn(ds[i].record) == k && #[trigger] sources(l, ds[i].record).contains(v) && !t(v);
            assert(es[i] == ds[i]);
        }
        if outside(extra, t).len() > 0 {
            let v = choose|v: Seq<u8>| #[trigger] extra.contains(v) && !t(v);
            assert(es[es.len() - 1] == e);
            assert(sources(l, es[es.len() - 1].record).contains(v));
        }
        if dangles(l, es, k, t) {
            let (i, v) = choose|i: int, v: Seq<u8>| 0 <= i < es.len() && (#[trigger] es[i]).scope && idn(es[i].record) == k && #[trigger] sources(l, es[i].record).contains(v) && !t(v);
            if i < ds.len() { assert(ds[i] == es[i]); assert(sources(l, ds[i].record).contains(v)); } else { assert(extra.contains(v)); }
        }
    }
}
pub proof fn lem_outside_some(s: Seq<Seq<u8>>, t: Bad)
    ensures (outside(s, t).len() > 0) == exists|v: Seq<u8>| #[trigger] s.contains(v) && !t(v)
    decreases s.len()
{
    if s.len() > 0 {
        lem_outside_some(s.drop_last(), t);
        if exists|v: Seq<u8>| #[trigger] s.drop_last().contains(v) && !t(v) { let v = choose|v: Seq<u8>| #[trigger] s.drop_last().contains(v) && !t(v); let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_last()[i] == v; assert(s[i] == v); assert(s.contains(v)); }
        if exists|v: Seq<u8>| #[trigger] s.contains(v) && !t(v) {
            let v = choose|v: Seq<u8>| #[trigger] s.contains(v) && !t(v);
            let i = choose|i: int| 0 <= i < s.len() && s[i] == v;
            if i < s.len() - 1 { assert(s.drop_last()[i] == v); assert(s.drop_last().contains(v)); }
        }
        if !t(s.last()) { assert(s[s.len() - 1] == s.last()); assert(s.contains(s.last())); }
    }
}
}
}
