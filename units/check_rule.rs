// a rule over the records of a run
pub mod rule_p {
use super::*;
use super::link_p::{Event, state, step, lem_check};
verus! {
/// what the check of the rule says about a record: whether it is reported at once, and the message
pub open spec fn verdict(c: Checks, r: ByteRecord) -> Outcome {
    match c {
        Checks::Allow(c) => c.check(r), Checks::DateTime(c) => c.check(r), Checks::Duplicates(c) => c.check(r),
        Checks::Filter(c) => c.check(r), Checks::Isni(c) => c.check(r), Checks::Iso639(c) => c.check(r),
        Checks::Jel(c) => c.check(r), Checks::Unicode(c) => c.check(r), Checks::Link(_) => (false, None),
    }
}
/// the state of the check before and after a record in scope is checked
pub open spec fn seen(c: Checks, r: ByteRecord) -> Checks { match c { Checks::Link(l) => Checks::Link(l.preprocess(r)), c => c } }
pub open spec fn checked(c: Checks, r: ByteRecord) -> Checks { match c { Checks::Link(l) => Checks::Link(l.x_check_mut(r).1), c => c } }
/// the row for a record, under the identifier and level of the rule
pub open spec fn row(u: Rule, ppn: Option<Seq<u8>>, message: Option<Seq<u8>>) -> super::Report { super::Report { ppn, rule: u.id, level: u.level, message } }
pub open spec fn alike(a: Rule, b: Rule) -> bool { a.id == b.id && a.level == b.level && a.tags == b.tags && a.description == b.description && a.link == b.link }

pub proof fn ob_rule_preprocess(u: Rule, r: ByteRecord)
    ensures alike(u, u.preprocess(r)), u.preprocess(r).check == seen(u.check, r)
{ }
/// exactly the records with a positive verdict get a row, exactly one, with the number, identifier, level and message
pub proof fn ob_rule_check(u: Rule, r: ByteRecord, w: Reports)
    ensures
        u.x_check_each(r, w).0 == Ok::<bool, XErr>(verdict(u.check, r).0),
        alike(u, u.x_check_each(r, w).1), u.x_check_each(r, w).1.check == checked(u.check, r),
        u.x_check_each(r, w).2.done == w.done,
        u.x_check_each(r, w).2.rows =~= w.rows + rows_of(u, r),
{ if let Checks::Link(l) = u.check { lem_check(l, r); } }
pub open spec fn rows_of(u: Rule, r: ByteRecord) -> Seq<super::Report> { if verdict(u.check, r).0 { seq![row(u, r.ppn(), verdict(u.check, r).1)] } else { Seq::empty() } }

/// the rows for what is found at the end
pub open spec fn late(u: Rule, s: Seq<(Seq<u8>, Option<Seq<u8>>)>) -> Seq<super::Report> { s.map_values(|p: (Seq<u8>, Option<Seq<u8>>)| row(u, if p.0.len() == 0 { None } else { Some(p.0) }, p.1)) }
pub broadcast proof fn lem_late(s: Seq<(Seq<u8>, Option<Seq<u8>>)>, w: Reports, f: spec_fn(Reports, (Seq<u8>, Option<Seq<u8>>)) -> Reports, u: Rule)
    requires forall|a: Reports, p: (Seq<u8>, Option<Seq<u8>>)| #[trigger] f(a, p) == a.write_record(row(u, if p.0.len() == 0 { None } else { Some(p.0) }, p.1)).1
    ensures #![trigger seq_fold(s, w, f), the_rule(u)] seq_fold(s, w, f) == w.with(late(u, s))
    decreases s.len()
{
    if s.len() > 0 { lem_late(s.drop_last(), w, f, u); assert(w.rows + late(u, s) =~= (w.rows + late(u, s.drop_last())).push(late(u, s).last())); }
    else { assert(w.rows + late(u, s) =~= w.rows); }
}
pub open spec fn the_rule(u: Rule) -> bool { true }
pub open spec fn found_late(c: Checks) -> Seq<(Seq<u8>, Option<Seq<u8>>)> { match c { Checks::Link(l) => l.finish().0, _ => Seq::empty() } }
/// at the end one row for each entry of the link check, none for the others; the report is flushed
pub proof fn ob_rule_finish(u: Rule, w: Reports)
    ensures u.x_finish_each(w).0 == Ok::<(), XErr>(()), u.x_finish_each(w).2.done, u.x_finish_each(w).2.rows =~= w.rows + late(u, found_late(u.check))
{
    hide(Link::finish);
    broadcast use lem_late;
    assert(the_rule(u));
}

// ---- a run
pub open spec fn turn(p: (Rule, Reports), e: Event) -> (Rule, Reports) {
    let u = p.0.preprocess(e.record);
    if e.scope { (u.x_check_each(e.record, p.1).1, u.x_check_each(e.record, p.1).2) } else { (u, p.1) }
}
pub open spec fn run(u: Rule, w: Reports, es: Seq<Event>) -> (Rule, Reports) decreases es.len() {
    if es.len() == 0 { (u, w) } else { turn(run(u, w, es.drop_last()), es.last()) }
}
pub open spec fn rows(u: Rule, es: Seq<Event>) -> Seq<super::Report> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { rows(u, es.drop_last()) + (if es.last().scope { rows_of(u, es.last().record) } else { Seq::empty() }) }
}
pub open spec fn after(c: Checks, es: Seq<Event>) -> Checks { match c { Checks::Link(l) => Checks::Link(state(l, es)), c => c } }
proof fn lem_run(u: Rule, w: Reports, es: Seq<Event>)
    ensures alike(u, run(u, w, es).0), run(u, w, es).0.check == after(u.check, es), run(u, w, es).1 == w.with(rows(u, es))
    decreases es.len()
{
    hide(Rule::x_check_each); hide(Rule::preprocess); hide(Link::x_check_mut); hide(Link::preprocess);
    if es.len() > 0 {
        let (v, x) = run(u, w, es.drop_last());
        lem_run(u, w, es.drop_last());
        ob_rule_preprocess(v, es.last().record);
        ob_rule_check(v.preprocess(es.last().record), es.last().record, x);
        assert(rows_of(v.preprocess(es.last().record), es.last().record) == rows_of(u, es.last().record));
        assert(run(u, w, es).1.rows =~= w.rows + rows(u, es));
    } else { assert(w.rows + rows(u, es) =~= w.rows); }
}
/// after any records: the rows of those in scope with a positive verdict, in order, then what the link check found over all of them (ob_link)
pub proof fn ob_rule_run(u: Rule, w: Reports, es: Seq<Event>)
    ensures ({ let (v, x) = run(u, w, es); v.x_finish_each(x).2.done && v.x_finish_each(x).2.rows =~= w.rows + rows(u, es) + late(u, found_late(after(u.check, es))) })
{
    lem_run(u, w, es);
    let (v, x) = run(u, w, es);
    ob_rule_finish(v, x);
    assert(late(v, found_late(v.check)) =~= late(u, found_late(v.check)));
}
}
}
