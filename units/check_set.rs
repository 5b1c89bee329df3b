// a rule set over the records of a run
pub mod set_p {
use super::*;
use super::link_p::Event;
use super::rule_p::{verdict, seen, checked, row, rows_of, late, found_late, after, ob_rule_preprocess, ob_rule_check, ob_rule_finish};
verus! {
pub type Entry = (Seq<u8>, Rule);
pub type Rows = Seq<super::Report>;
pub type Rules = Map<Seq<u8>, Rule>;
/// iterating the map of rules comes across each of them once, in some order
pub open spec fn entries() -> bool { forall|m: Rules| lists_entries(#[trigger] map_items(m), m) }
pub open spec fn in_scope(s: RuleSet, r: ByteRecord) -> bool { match s.scope { None => true, Some(m) => m.is_match(r, MatcherOptions::x_default()) } }
pub open spec fn fast(s: RuleSet) -> bool { s.termination is Fast }
pub open spec fn with_check(u: Rule, c: Checks) -> Rule { Rule { check: c, ..u } }
pub type Map1 = spec_fn(Rule) -> Rule;
pub open spec fn after_seen(r: ByteRecord) -> Map1 { |u: Rule| with_check(u, seen(u.check, r)) }
pub open spec fn after_checked(r: ByteRecord) -> Map1 { |u: Rule| with_check(u, checked(u.check, r)) }
/// the same keys, with each rule changed in this way
pub open spec fn each(m: Rules, n: Rules, g: Map1) -> bool { m.dom() =~= n.dom() && forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> n[k] == g(m[k]) }
pub open spec fn keyed(its: Seq<Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < its.len() ==> (#[trigger] its[i]).0 != (#[trigger] its[j]).0 }
pub open spec fn held(its: Seq<Entry>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < its.len() && (#[trigger] its[i]).0 == k }
pub open spec fn tail(its: Seq<Entry>) -> Seq<Entry> { its.subrange(1, its.len() as int) }

// ---- writing the entries back
pub open spec fn puts(its: Seq<Entry>, m: Rules, g: Map1) -> Rules decreases its.len() {
    if its.len() == 0 { m } else { puts(its.drop_last(), m, g).insert(its.last().0, g(its.last().1)) }
}
proof fn lem_puts(its: Seq<Entry>, m: Rules, g: Map1, k: Seq<u8>)
    requires keyed(its)
    ensures
        puts(its, m, g).contains_key(k) == (m.contains_key(k) || held(its, k)),
        forall|i: int| 0 <= i < its.len() && (#[trigger] its[i]).0 == k ==> puts(its, m, g)[k] == g(its[i].1),
        !held(its, k) ==> puts(its, m, g)[k] == m[k],
    decreases its.len()
{
    if its.len() > 0 {
        let d = its.drop_last();
        assert(keyed(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(its[i].0 != its[j].0); } }
        lem_puts(d, m, g, k);
        if held(d, k) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k; assert(its[i].0 == k); }
        if held(its, k) && its.last().0 != k { let i = choose|i: int| 0 <= i < its.len() && (#[trigger] its[i]).0 == k; assert(d[i].0 == k); }
        if its.last().0 == k { assert(its[its.len() - 1].0 == k); }
        assert forall|i: int| 0 <= i < its.len() && (#[trigger] its[i]).0 == k implies puts(its, m, g)[k] == g(its[i].1) by {
            if i < its.len() - 1 { assert(d[i].0 == k); assert(its[i].0 != its[its.len() - 1].0); }
        }
    }
}
proof fn lem_each(m: Rules, g: Map1)
    requires entries()
    ensures each(m, puts(map_items(m), m, g), g)
{
    let its = map_items(m);
    let n = puts(its, m, g);
    assert(lists_entries(its, m));
    assert(keyed(its));
    assert forall|k: Seq<u8>| #[trigger] m.contains_key(k) implies n[k] == g(m[k]) by {
        lem_puts(its, m, g, k);
        let i = choose|i: int| 0 <= i < its.len() && #[trigger] its[i] == (k, m[k]);
        assert(its[i].0 == k);
    }
    assert forall|k: Seq<u8>| m.dom().contains(k) == n.dom().contains(k) by {
        lem_puts(its, m, g, k);
        if held(its, k) { let i = choose|i: int| 0 <= i < its.len() && (#[trigger] its[i]).0 == k; assert(m.contains_key(its[i].0)); }
    }
    assert(m.dom() =~= n.dom());
}

// ---- preprocess
pub open spec fn the_map(g: Map1) -> bool { true }
pub broadcast proof fn lem_fold_each(its: Seq<Entry>, s: RuleSet, f: spec_fn(RuleSet, Entry) -> RuleSet, g: Map1)
    requires forall|a: RuleSet, p: Entry| #[trigger] f(a, p) == a.upd_rules(a.rules.insert(p.0, g(p.1)))
    ensures #![trigger seq_fold(its, s, f), the_map(g)] seq_fold(its, s, f) == s.upd_rules(puts(its, s.rules, g))
    decreases its.len()
{ if its.len() > 0 { lem_fold_each(its.drop_last(), s, f, g); } }
/// every rule sees every record
pub proof fn ob_set_preprocess(s: RuleSet, r: ByteRecord)
    requires entries()
    ensures s.preprocess(r).scope == s.scope, s.preprocess(r).termination == s.termination, each(s.rules, s.preprocess(r).rules, after_seen(r))
{
    hide(Rule::preprocess);
    broadcast use lem_fold_each;
    let g = after_seen(r);
    assert(the_map(g));
    assert forall|u: Rule| #[trigger] u.preprocess(r) == g(u) by { ob_rule_preprocess(u, r); }
    lem_each(s.rules, g);
}

// ---- check
pub open spec fn stops(s: RuleSet, u: Rule, r: ByteRecord) -> bool { fast(s) && verdict(u.check, r).0 }
/// the rules that are checked: all, or up to the first that reports the record
pub open spec fn tried(its: Seq<Entry>, s: RuleSet, r: ByteRecord) -> Seq<Entry> decreases its.len() {
    if its.len() == 0 { its } else if stops(s, its[0].1, r) { seq![its[0]] } else { seq![its[0]] + tried(tail(its), s, r) }
}
pub open spec fn rows_all(its: Seq<Entry>, r: ByteRecord) -> Rows decreases its.len() {
    if its.len() == 0 { Seq::empty() } else { rows_of(its[0].1, r) + rows_all(tail(its), r) }
}
pub open spec fn puts_f(its: Seq<Entry>, m: Rules, g: Map1) -> Rules decreases its.len() {
    if its.len() == 0 { m } else { puts_f(tail(its), m.insert(its[0].0, g(its[0].1)), g) }
}
proof fn lem_puts_f(its: Seq<Entry>, m: Rules, g: Map1)
    ensures puts_f(its, m, g) == puts(its, m, g)
    decreases its.len()
{
    if its.len() == 1 { assert(its.drop_last() =~= Seq::empty()); assert(tail(its) =~= Seq::empty()); reveal_with_fuel(puts, 3); reveal_with_fuel(puts_f, 3); }
    else if its.len() > 1 {
        let m1 = m.insert(its[0].0, g(its[0].1));
        lem_puts_f(tail(its), m1, g);
        lem_puts_f(its.drop_last(), m, g);
        lem_puts_f(tail(its).drop_last(), m1, g);
        assert(tail(its.drop_last()) =~= tail(its).drop_last());
        assert(tail(its).last() == its.last());
        assert(its.drop_last()[0] == its[0]);
    }
}
pub open spec fn outcome(c: Ctl<(RuleSet, Reports), (Result<(), XErr>, RuleSet, Reports)>) -> (Result<(), XErr>, RuleSet, Reports) {
    match c { Ctl::Ret(x) => x, Ctl::Next((s, w)) => (Ok(()), s, w), Ctl::Brk((s, w)) => (Ok(()), s, w) }
}
pub type Body = spec_fn((RuleSet, Reports), Entry) -> Ctl<(RuleSet, Reports), (Result<(), XErr>, RuleSet, Reports)>;
pub open spec fn the_rec(r: ByteRecord) -> bool { true }
/// one rule of the set, in whatever way the loop goes on
pub open spec fn goes(f: Body, a: (RuleSet, Reports), p: Entry, r: ByteRecord) -> bool {
    let t = (a.0.upd_rules(a.0.rules.insert(p.0, after_checked(r)(p.1))), a.1.with(rows_of(p.1, r)));
    if stops(a.0, p.1, r) { f(a, p) == Ctl::<(RuleSet, Reports), (Result<(), XErr>, RuleSet, Reports)>::Brk(t) } else { f(a, p) == Ctl::<(RuleSet, Reports), (Result<(), XErr>, RuleSet, Reports)>::Next(t) }
}
pub broadcast proof fn lem_visit(its: Seq<Entry>, a: (RuleSet, Reports), f: Body, r: ByteRecord)
    requires forall|a: (RuleSet, Reports), p: Entry| #![trigger f(a, p)] goes(f, a, p, r)
    ensures
        #![trigger seq_for(its, a, f), the_rec(r)]
        !(seq_for(its, a, f) is Ret),
        outcome(seq_for(its, a, f)) == (Ok::<(), XErr>(()), a.0.upd_rules(puts_f(tried(its, a.0, r), a.0.rules, after_checked(r))), a.1.with(rows_all(tried(its, a.0, r), r))),
    decreases its.len()
{
    let g = after_checked(r);
    if its.len() == 0 { assert(a.1.rows + rows_all(its, r) =~= a.1.rows); }
    else {
        let t = (a.0.upd_rules(a.0.rules.insert(its[0].0, g(its[0].1))), a.1.with(rows_of(its[0].1, r)));
        assert(goes(f, a, its[0], r)) by { let x = f(a, its[0]); }
        let tr = tried(its, a.0, r);
        assert(tr[0] == its[0]);
        if stops(a.0, its[0].1, r) {
            assert(tail(tr) =~= Seq::empty());
            assert(rows_all(tr, r) =~= rows_of(its[0].1, r)) by { reveal_with_fuel(rows_all, 3); }
            assert(puts_f(tr, a.0.rules, g) == t.0.rules) by { reveal_with_fuel(puts_f, 3); }
        } else {
            lem_visit(tail(its), t, f, r);
            lem_tried(tail(its), a.0, t.0, r);
            assert(tail(tr) =~= tried(tail(its), a.0, r));
            assert(a.1.rows + rows_all(tr, r) =~= t.1.rows + rows_all(tail(tr), r));
        }
    }
}
proof fn lem_tried(its: Seq<Entry>, a: RuleSet, b: RuleSet, r: ByteRecord)
    requires fast(a) == fast(b)
    ensures tried(its, a, r) == tried(its, b, r)
    decreases its.len()
{ if its.len() > 0 { lem_tried(tail(its), a, b, r); } }
proof fn lem_all(its: Seq<Entry>, s: RuleSet, r: ByteRecord)
    requires !fast(s)
    ensures tried(its, s, r) == its
    decreases its.len()
{ if its.len() > 0 { lem_all(tail(its), s, r); assert(seq![its[0]] + tail(its) =~= its); } }
pub open spec fn hit(its: Seq<Entry>, r: ByteRecord) -> bool { exists|i: int| 0 <= i < its.len() && verdict((#[trigger] its[i]).1.check, r).0 }
proof fn lem_first(its: Seq<Entry>, s: RuleSet, r: ByteRecord)
    requires fast(s)
    ensures
        rows_all(tried(its, s, r), r).len() == (if hit(its, r) { 1int } else { 0 }),
        hit(its, r) ==> exists|i: int| 0 <= i < its.len() && verdict((#[trigger] its[i]).1.check, r).0 && rows_all(tried(its, s, r), r) == rows_of(its[i].1, r),
    decreases its.len()
{
    if its.len() > 0 {
        let tr = tried(its, s, r);
        assert(tr[0] == its[0]);
        if stops(s, its[0].1, r) {
            assert(tail(tr) =~= Seq::empty());
            assert(rows_all(tr, r) =~= rows_of(its[0].1, r)) by { reveal_with_fuel(rows_all, 3); }
            assert(verdict(its[0].1.check, r).0);
        } else {
            lem_first(tail(its), s, r);
            assert(tail(tr) =~= tried(tail(its), s, r));
            assert(rows_all(tr, r) =~= rows_all(tail(tr), r));
            if hit(its, r) {
                let i = choose|i: int| 0 <= i < its.len() && verdict((#[trigger] its[i]).1.check, r).0;
                assert(i > 0);
                assert(tail(its)[i - 1] == its[i]);
                let j = choose|j: int| 0 <= j < tail(its).len() && verdict((#[trigger] tail(its)[j]).1.check, r).0 && rows_all(tried(tail(its), s, r), r) == rows_of(tail(its)[j].1, r);
                assert(its[j + 1] == tail(its)[j]);
            }
            if hit(tail(its), r) { let j = choose|j: int| 0 <= j < tail(its).len() && verdict((#[trigger] tail(its)[j]).1.check, r).0; assert(its[j + 1] == tail(its)[j]); }
        }
    }
}
proof fn lem_check_set(s: RuleSet, r: ByteRecord, w: Reports)
    ensures s.x_check_set(r, w) == (if in_scope(s, r) { let t = tried(map_items(s.rules), s, r); (Ok::<(), XErr>(()), s.upd_rules(puts_f(t, s.rules, after_checked(r))), w.with(rows_all(t, r))) } else { (Ok::<(), XErr>(()), s, w) })
{
    hide(Rule::x_check_each); hide(verdict); hide(checked);
    broadcast use lem_visit;
    assert(the_rec(r));
    assert forall|u: Rule, x: Reports| (#[trigger] u.x_check_each(r, x)) == (Ok::<bool, XErr>(verdict(u.check, r).0), after_checked(r)(u), x.with(rows_of(u, r))) by {
        ob_rule_check(u, r, x);
    }
}
/// a record out of scope is not checked; in scope every rule is, each reports its row
pub proof fn ob_set_check(s: RuleSet, r: ByteRecord, w: Reports)
    requires entries(), !fast(s)
    ensures
        s.x_check_set(r, w).0 is Ok,
        s.x_check_set(r, w).1.scope == s.scope, s.x_check_set(r, w).1.termination == s.termination,
        !in_scope(s, r) ==> s.x_check_set(r, w).1 == s && s.x_check_set(r, w).2 == w,
        in_scope(s, r) ==> each(s.rules, s.x_check_set(r, w).1.rules, after_checked(r)) && s.x_check_set(r, w).2 == w.with(rows_all(map_items(s.rules), r)),
{
    hide(RuleSet::x_check_set);
    lem_check_set(s, r, w);
    lem_all(map_items(s.rules), s, r);
    lem_puts_f(map_items(s.rules), s.rules, after_checked(r));
    lem_each(s.rules, after_checked(r));
}
/// fast termination: a record gets at most one row, and one if and only if some rule reports it
pub proof fn ob_set_fast(s: RuleSet, r: ByteRecord, w: Reports)
    requires fast(s), in_scope(s, r)
    ensures ({
        let its = map_items(s.rules);
        let x = s.x_check_set(r, w).2;
        &&& !hit(its, r) ==> x.rows =~= w.rows
        &&& hit(its, r) ==> exists|i: int| 0 <= i < its.len() && verdict((#[trigger] its[i]).1.check, r).0 && x.rows =~= w.rows + rows_of(its[i].1, r)
    })
{
    hide(RuleSet::x_check_set);
    lem_check_set(s, r, w);
    let its = map_items(s.rules);
    lem_first(its, s, r);
    if hit(its, r) {
        let i = choose|i: int| 0 <= i < its.len() && verdict((#[trigger] its[i]).1.check, r).0 && rows_all(tried(its, s, r), r) == rows_of(its[i].1, r);
        assert(s.x_check_set(r, w).2.rows =~= w.rows + rows_of(its[i].1, r));
    }
}

// ---- finish
pub open spec fn late_all(its: Seq<Entry>) -> Rows decreases its.len() {
    if its.len() == 0 { Seq::empty() } else { late(its[0].1, found_late(its[0].1.check)) + late_all(tail(its)) }
}
pub open spec fn ends(f: Body, a: (RuleSet, Reports), p: Entry) -> bool {
    f(a, p) matches Ctl::Next(t) && t.1.done && t.1.rows =~= a.1.rows + late(p.1, found_late(p.1.check))
}
pub broadcast proof fn lem_ends(its: Seq<Entry>, a: (RuleSet, Reports), f: Body)
    requires forall|a: (RuleSet, Reports), p: Entry| #![trigger f(a, p)] ends(f, a, p)
    ensures
        #![trigger seq_for(its, a, f)]
        !(seq_for(its, a, f) is Ret),
        outcome(seq_for(its, a, f)).0 is Ok,
        outcome(seq_for(its, a, f)).2.rows =~= a.1.rows + late_all(its),
    decreases its.len()
{
    if its.len() > 0 {
        assert(ends(f, a, its[0])) by { let x = f(a, its[0]); }
        let t = f(a, its[0])->Next_0;
        lem_ends(tail(its), t, f);
        assert(a.1.rows + late_all(its) =~= t.1.rows + late_all(tail(its)));
    }
}
/// at the end every rule of the set adds what it has found over all records
pub proof fn ob_set_finish(s: RuleSet, w: Reports)
    ensures s.x_finish_set(w).0 is Ok, s.x_finish_set(w).2.rows =~= w.rows + late_all(map_items(s.rules))
{
    hide(Rule::x_finish_each); hide(late); hide(found_late);
    broadcast use lem_ends;
    assert forall|u: Rule, x: Reports| (#[trigger] u.x_finish_each(x)).0 == Ok::<(), XErr>(()) && u.x_finish_each(x).2.done && u.x_finish_each(x).2.rows =~= x.rows + late(u, found_late(u.check)) by { ob_rule_finish(u, x); }
}

// ---- a run
pub open spec fn sweep(s: RuleSet, w: Reports, rs: Seq<ByteRecord>) -> (RuleSet, Reports) decreases rs.len() {
    if rs.len() == 0 { (s, w) } else {
        let (t, x) = sweep(s, w, rs.drop_last());
        let o = t.preprocess(rs.last()).x_check_set(rs.last(), x);
        (o.1, o.2)
    }
}
pub open spec fn events(s: RuleSet, rs: Seq<ByteRecord>) -> Seq<Event> { rs.map_values(|r: ByteRecord| Event { record: r, scope: in_scope(s, r) }) }
/// over any records each rule of the set ends in the state that its check has after them (`after`, see ob_rule_run and ob_link)
pub proof fn ob_set_run(s: RuleSet, w: Reports, rs: Seq<ByteRecord>)
    requires entries(), !fast(s)
    ensures
        sweep(s, w, rs).0.scope == s.scope, sweep(s, w, rs).0.termination == s.termination,
        s.rules.dom() =~= sweep(s, w, rs).0.rules.dom(),
        forall|k: Seq<u8>| #[trigger] s.rules.contains_key(k) ==> sweep(s, w, rs).0.rules[k] == with_check(s.rules[k], after(s.rules[k].check, events(s, rs))),
    decreases rs.len()
{
    hide(RuleSet::preprocess); hide(RuleSet::x_check_set); hide(Link::preprocess); hide(Link::x_check_mut);
    if rs.len() == 0 {
        assert(events(s, rs) =~= Seq::empty());
    } else {
        let d = rs.drop_last();
        let r = rs.last();
        ob_set_run(s, w, d);
        let (t, x) = sweep(s, w, d);
        ob_set_preprocess(t, r);
        let p = t.preprocess(r);
        ob_set_check(p, r, x);
        assert(events(s, rs).drop_last() =~= events(s, d));
        assert(events(s, rs).last() == Event { record: r, scope: in_scope(s, r) });
        let n = sweep(s, w, rs).0;
        assert forall|k: Seq<u8>| #[trigger] s.rules.contains_key(k) implies n.rules[k] == with_check(s.rules[k], after(s.rules[k].check, events(s, rs))) by {
            assert(t.rules.dom().contains(k));
            assert(t.rules.contains_key(k));
            assert(p.rules[k] == after_seen(r)(t.rules[k]));
            assert(p.rules.dom().contains(k));
            assert(p.rules.contains_key(k));
        }
    }
}
}
}
