//@include cli_m.rs
//@include cli_opts.rs
//@include cli_fold.rs
//@include cli_multi.rs
//@mut write_to 0
//@ret ByteRecord::from_bytes = Result<ByteRecord, XErr>
verus! {
//@type src/primitives/tag.rs Level
impl TagMatcher { pub uninterp spec fn is_match(self, t: Seq<u8>) -> bool; }
impl OccurrenceMatcher { pub uninterp spec fn is_match(self, o: Option<Seq<u8>>) -> bool; }
/// the level a tag begins with
pub trait XLevel: Sized { spec fn level(self) -> Level; }
impl XLevel for Seq<u8> {
//@fn src/primitives/tag.rs TagRef::level => level intrait
}
impl FieldRef {
//@fn src/primitives/field.rs FieldRef::level => level
    pub uninterp spec fn write_to(self, w: Seq<u8>) -> Seq<u8>;
}
//@fn crates/pica-cli/src/commands/explode.rs process_main => process_main free
//@fn crates/pica-cli/src/commands/explode.rs process_local => process_local free
//@fn crates/pica-cli/src/commands/explode.rs process_copy => process_copy free
//@type crates/pica-cli/src/commands/explode.rs Explode
impl ByteRecord {
    pub uninterp spec fn from_bytes(b: Seq<u8>) -> Result<ByteRecord, XErr>;
    /// the record with other fields (C02)
    pub uninterp spec fn with_fields(self, s: Seq<FieldRef>) -> ByteRecord;
    pub open spec fn retain(self, f: spec_fn(FieldRef) -> bool) -> ByteRecord { self.with_fields(self.record.fields().filter(f)) }
}
impl Explode {
//@fn crates/pica-cli/src/commands/explode.rs Explode::execute => execute out=writer ret=Result<Writer,~XErr>
}
//@helpers
}

// ---- the units of a record
pub mod units_x {
use super::*;
verus! {
pub type Fields = Seq<FieldRef>;
pub open spec fn main_f() -> spec_fn(FieldRef) -> bool { |f: FieldRef| f.level() is Main }
pub open spec fn body_f() -> spec_fn(FieldRef) -> bool { |f: FieldRef| !(f.level() is Main) }
pub open spec fn local_f() -> spec_fn(FieldRef) -> bool { |f: FieldRef| f.level() is Local }
pub open spec fn copy_f() -> spec_fn(FieldRef) -> bool { |f: FieldRef| f.level() is Copy }
/// the level-0 fields
#[verifier::opaque]
pub open spec fn mains(s: Fields) -> Fields { s.filter(main_f()) }
/// the level-1 and level-2 fields
#[verifier::opaque]
pub open spec fn bodies(s: Fields) -> Fields { s.filter(body_f()) }
/// the level-0 fields come first
#[verifier::opaque]
pub open spec fn main_first(s: Fields) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() && !((#[trigger] s[i]).level() is Main) ==> !((#[trigger] s[j]).level() is Main) }
/// a level-2 field directly followed by a level-1 field
pub open spec fn ends(a: FieldRef, b: FieldRef) -> bool { a.level() is Copy && b.level() is Local }
/// the fields, cut after every level-2 field that is followed by a level-1 field
pub open spec fn local_units(b: Fields) -> Seq<Fields> decreases b.len() {
    if b.len() == 0 { Seq::empty() } else {
        let p = b.drop_last();
        let u = local_units(p);
        if p.len() == 0 || ends(p.last(), b.last()) { u.push(seq![b.last()]) } else { u.update(u.len() - 1, u.last().push(b.last())) }
    }
}
/// the maximal runs of level-2 fields with the same occurrence
pub open spec fn runs(u: Fields) -> Seq<Fields> decreases u.len() {
    if u.len() == 0 { Seq::empty() } else {
        let p = u.drop_last();
        let r = runs(p);
        let x = u.last();
        if !(x.level() is Copy) { r } else if p.len() > 0 && p.last().level() is Copy && p.last().occurrence == x.occurrence { r.update(r.len() - 1, r.last().push(x)) } else { r.push(seq![x]) }
    }
}
/// the copies of a local unit: its level-1 fields and a run
pub open spec fn with_local(u: Fields) -> spec_fn(Fields) -> Fields { |r: Fields| u.filter(local_f()) + r }
pub open spec fn copies_of() -> spec_fn(Fields) -> Seq<Fields> { |u: Fields| runs(u).map_values(with_local(u)) }
pub open spec fn under(main: Fields) -> spec_fn(Fields) -> Fields { |u: Fields| main + u }
pub open spec fn units_of(level: Level, s: Fields) -> Seq<Fields> {
    let main = mains(s);
    let b = bodies(s);
    match level {
        Level::Main => seq![s],
        Level::Local => local_units(b).map_values(under(main)),
        Level::Copy => seq_flat(local_units(b).map_values(copies_of())).map_values(under(main)),
    }
}
/// level-1 fields, then level-2 fields
pub open spec fn unit_like(u: Fields) -> bool {
    u.len() > 0 && forall|i: int, j: int| 0 <= i < j < u.len() && (#[trigger] u[i]).level() is Copy ==> (#[trigger] u[j]).level() is Copy
}
pub open spec fn no_main(b: Fields) -> bool { forall|i: int| 0 <= i < b.len() ==> !((#[trigger] b[i]).level() is Main) }
/// units are level-1 fields, then level-2 fields; a unit ends where a level-1 field follows a level-2 field
pub open spec fn well_cut(u: Seq<Fields>) -> bool {
    (forall|i: int| 0 <= i < u.len() ==> unit_like(#[trigger] u[i]) && no_main(u[i]))
    && (forall|i: int, j: int| 0 <= i && j == i + 1 && j < u.len() ==> ends((#[trigger] u[i]).last(), (#[trigger] u[j])[0]))
}
pub proof fn lem_local_units(b: Fields)
    requires no_main(b)
    ensures seq_flat(local_units(b)) == b, b.len() > 0 ==> local_units(b).len() > 0 && local_units(b).last().last() == b.last(),
        forall|i: int| 0 <= i < local_units(b).len() ==> unit_like(#[trigger] local_units(b)[i]) && no_main(local_units(b)[i]),
        forall|i: int, j: int| 0 <= i && j == i + 1 && j < local_units(b).len() ==> ends((#[trigger] local_units(b)[i]).last(), (#[trigger] local_units(b)[j])[0])
    decreases b.len()
{
    if b.len() > 0 {
        let p = b.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies !((#[trigger] p[i]).level() is Main) by { assert(p[i] == b[i]); }
        lem_local_units(p);
        let u = local_units(p);
        let v = local_units(b);
        let x = b.last();
        assert(x == b[b.len() - 1]);
        if p.len() == 0 || ends(p.last(), x) {
            assert(v.drop_last() =~= u);
            assert(seq_flat(v) =~= p.push(x));
            assert forall|i: int| 0 <= i < v.len() implies unit_like(#[trigger] v[i]) && no_main(v[i]) by { if i < u.len() { assert(v[i] == u[i]); } else { assert(v[i] =~= seq![x]); } }
            assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < v.len() implies ends((#[trigger] v[i]).last(), (#[trigger] v[j])[0]) by { assert(v[i] == u[i]); if j < u.len() { assert(v[j] == u[j]); } }
        } else {
            let n = u.len() - 1;
            let l = u.last();
            assert(v.drop_last() =~= u.drop_last());
            assert(v.last() == l.push(x));
            assert(seq_flat(v) =~= seq_flat(u).push(x));
            assert(l == u[n]);
            assert(p.last() == l.last());
            assert forall|i: int| 0 <= i < v.len() implies unit_like(#[trigger] v[i]) && no_main(v[i]) by {
                if i < n { assert(v[i] == u[i]); } else {
                    assert(unit_like(l) && no_main(l));
                    let m = l.push(x);
                    assert(m[l.len() as int] == x);
                    assert forall|a: int, c: int| 0 <= a < c < m.len() && (#[trigger] m[a]).level() is Copy implies (#[trigger] m[c]).level() is Copy by {
                        assert(m[a] == l[a]);
                        if c < l.len() { assert(m[c] == l[c]); } else { if a < l.len() - 1 { assert(l[l.len() - 1].level() is Copy); } assert(l.last().level() is Copy); }
                    }
                    assert forall|a: int| 0 <= a < m.len() implies !((#[trigger] m[a]).level() is Main) by { if a < l.len() { assert(m[a] == l[a]); } }
                }
            }
            assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < v.len() implies ends((#[trigger] v[i]).last(), (#[trigger] v[j])[0]) by {
                assert(v[i] == u[i]);
                assert(ends(u[i].last(), u[j][0]));
                assert(unit_like(u[j]));
                if j < n { assert(v[j] == u[j]); } else { assert(v[j] == l.push(x)); assert(v[j][0] == l[0]); }
            }
        }
        assert(p.push(x) =~= b);
    }
}
pub proof fn lem_body(s: Fields)
    ensures no_main(bodies(s))
{
    reveal(bodies);
    let b = s.filter(body_f());
    assert forall|i: int| 0 <= i < b.len() implies !((#[trigger] b[i]).level() is Main) by { lem_filter_elem(s, body_f(), i); assert(body_f()(b[i])); }
}
pub proof fn lem_well_cut(b: Fields)
    requires no_main(b)
    ensures well_cut(local_units(b)), seq_flat(local_units(b)) == b
{ lem_local_units(b); }
/// in order, every level-1 and level-2 field is in exactly one local unit; a unit ends exactly where a level-1 field follows a level-2 field
pub proof fn ob_local_units(s: Fields)
    requires main_first(s)
    ensures s == mains(s) + seq_flat(local_units(bodies(s))), well_cut(local_units(bodies(s)))
{
    lem_body(s);
    lem_well_cut(bodies(s));
    lem_main_first(s);
}
pub proof fn lem_filter_push<T>(p: Seq<T>, x: T, f: spec_fn(T) -> bool)
    ensures p.push(x).filter(f) == (if f(x) { p.filter(f).push(x) } else { p.filter(f) })
{ reveal(Seq::filter); assert(p.push(x).drop_last() =~= p); }
pub proof fn lem_parts_push(p: Fields, x: FieldRef)
    ensures mains(p.push(x)) == (if x.level() is Main { mains(p).push(x) } else { mains(p) }), bodies(p.push(x)) == (if x.level() is Main { bodies(p) } else { bodies(p).push(x) }),
        mains(Seq::empty()) == Seq::<FieldRef>::empty(), bodies(Seq::empty()) == Seq::<FieldRef>::empty()
{ reveal(mains); reveal(bodies); reveal(Seq::filter); lem_filter_push(p, x, main_f()); lem_filter_push(p, x, body_f()); }
pub proof fn lem_no_body(p: Fields)
    requires forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).level() is Main
    ensures mains(p) == p, bodies(p) == Seq::<FieldRef>::empty()
    decreases p.len()
{
    lem_parts_push(p, p[0]);
    if p.len() == 0 { assert(p =~= Seq::empty()); } else {
        let q = p.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).level() is Main by { assert(q[i] == p[i]); }
        lem_no_body(q);
        assert(p[p.len() - 1].level() is Main);
        assert(q.push(p.last()) =~= p);
        lem_parts_push(q, p.last());
    }
}
pub proof fn lem_main_first_prefix(s: Fields)
    requires main_first(s), s.len() > 0
    ensures main_first(s.drop_last()), s.last().level() is Main ==> bodies(s.drop_last()) == Seq::<FieldRef>::empty() && mains(s.drop_last()) == s.drop_last()
{
    reveal(main_first);
    let p = s.drop_last();
    assert forall|i: int, j: int| 0 <= i < j < p.len() && !((#[trigger] p[i]).level() is Main) implies !((#[trigger] p[j]).level() is Main) by { assert(p[i] == s[i] && p[j] == s[j]); }
    if s.last().level() is Main {
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).level() is Main by { assert(p[i] == s[i]); assert(s[s.len() - 1] == s.last()); }
        lem_no_body(p);
    }
}
pub proof fn lem_main_first(s: Fields)
    requires main_first(s)
    ensures s == mains(s) + bodies(s)
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        let x = s.last();
        lem_main_first_prefix(s);
        lem_main_first(p);
        assert(p.push(x) =~= s);
        lem_parts_push(p, x);
    } else { lem_no_body(s); }
    assert(s =~= mains(s) + bodies(s));
}
/// in order, every level-2 field of a unit is in exactly one run; a run has one occurrence, neighbouring runs have different ones
pub proof fn ob_runs(u: Fields)
    requires unit_like(u)
    ensures seq_flat(runs(u)) == u.filter(copy_f()),
        forall|i: int| 0 <= i < runs(u).len() ==> one_occurrence(#[trigger] runs(u)[i]),
        forall|i: int, j: int| 0 <= i && j == i + 1 && j < runs(u).len() ==> (#[trigger] runs(u)[i]).last().occurrence != (#[trigger] runs(u)[j])[0].occurrence
    decreases u.len()
{
    lem_runs(u);
}
pub open spec fn one_occurrence(r: Fields) -> bool { r.len() > 0 && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).occurrence == r[0].occurrence }
pub proof fn lem_runs(u: Fields)
    requires forall|i: int, j: int| 0 <= i < j < u.len() && (#[trigger] u[i]).level() is Copy ==> (#[trigger] u[j]).level() is Copy
    ensures seq_flat(runs(u)) == u.filter(copy_f()),
        forall|i: int| 0 <= i < runs(u).len() ==> one_occurrence(#[trigger] runs(u)[i]),
        forall|i: int, j: int| 0 <= i && j == i + 1 && j < runs(u).len() ==> (#[trigger] runs(u)[i]).last().occurrence != (#[trigger] runs(u)[j])[0].occurrence,
        u.len() > 0 && u.last().level() is Copy ==> runs(u).len() > 0 && runs(u).last().last() == u.last(),
        u.len() > 0 && !(u.last().level() is Copy) ==> runs(u).len() == 0
    decreases u.len()
{
    reveal(Seq::filter);
    if u.len() > 0 {
        let p = u.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < p.len() && (#[trigger] p[i]).level() is Copy implies (#[trigger] p[j]).level() is Copy by { assert(p[i] == u[i] && p[j] == u[j]); }
        lem_runs(p);
        let r = runs(p); let v = runs(u); let x = u.last();
        if p.len() > 0 { assert(p.last() == u[u.len() - 2]); assert(x == u[u.len() - 1]); }
        if x.level() is Copy {
            if p.len() > 0 && p.last().level() is Copy && p.last().occurrence == x.occurrence {
                let n = r.len() - 1;
                let l = r.last();
                assert(l == r[n]);
                assert(v.drop_last() =~= r.drop_last());
                assert(seq_flat(v) =~= seq_flat(r).push(x));
                assert forall|i: int| 0 <= i < v.len() implies one_occurrence(#[trigger] v[i]) by { if i < n { assert(v[i] == r[i]); } else {
                    let m = l.push(x);
                    assert(one_occurrence(l));
                    assert(l[l.len() - 1] == p.last());
                    assert(v[i] == m);
                    assert forall|a: int| 0 <= a < m.len() implies (#[trigger] m[a]).occurrence == m[0].occurrence by { if a < l.len() { assert(m[a] == l[a]); } }
                } }
                assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < v.len() implies (#[trigger] v[i]).last().occurrence != (#[trigger] v[j])[0].occurrence by {
                    assert(v[i] == r[i]); assert(r[i].last().occurrence != r[j][0].occurrence); assert(one_occurrence(r[j]));
                    if j == n { assert(v[j] == l.push(x)); assert(v[j][0] == l[0]); } else { assert(v[j] == r[j]); } }
            } else {
                assert(v.drop_last() =~= r);
                assert(seq_flat(v) =~= seq_flat(r).push(x));
                assert forall|i: int| 0 <= i < v.len() implies one_occurrence(#[trigger] v[i]) by { if i < r.len() { assert(v[i] == r[i]); } else { assert(v[i] =~= seq![x]); } }
                assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < v.len() implies (#[trigger] v[i]).last().occurrence != (#[trigger] v[j])[0].occurrence by {
                    assert(v[i] == r[i]); if j < r.len() { assert(v[j] == r[j]); } else { assert(v[j] =~= seq![x]); assert(v[i] == r.last()); } }
            }
        } else {
            if p.len() > 0 && p.last().level() is Copy { assert(u[u.len() - 2].level() is Copy ==> u[u.len() - 1].level() is Copy); }
        }
    } else { assert(seq_flat(runs(u)) =~= u.filter(copy_f())); }
}
}
}
pub use units_x::*;

// ---- the code computes the units
pub mod process_x {
use super::*;
verus! {
pub broadcast proof fn lem_fold_ext<T, S>(s: Seq<T>, i: S, f: spec_fn(S, T) -> S, g: spec_fn(S, T) -> S)
    requires forall|a: S, x: T| #[trigger] f(a, x) == g(a, x)
    ensures #![trigger seq_fold(s, i, f), seq_fold(s, i, g)] seq_fold(s, i, f) == seq_fold(s, i, g)
    decreases s.len()
{ if s.len() > 0 { lem_fold_ext(s.drop_last(), i, f, g); assert(f(seq_fold(s.drop_last(), i, f), s.last()) == g(seq_fold(s.drop_last(), i, f), s.last())); } }
pub type LState = (Fields, Fields, Seq<Fields>);
/// the next field begins a local unit
pub open spec fn local_next(s: Fields, i: int) -> bool { 0 <= i + 1 < s.len() && s[i + 1].level() is Local }
pub open spec fn loc_step(s: Fields) -> spec_fn(LState, (int, FieldRef)) -> LState {
    |a: LState, p: (int, FieldRef)| match p.1.level() {
        Level::Main => (a.0, a.1.push(p.1), a.2),
        Level::Local => (a.0.push(p.1), a.1, a.2),
        Level::Copy => if local_next(s, p.0) { (Seq::empty(), a.1, a.2.push(a.1 + a.0.push(p.1))) } else { (a.0.push(p.1), a.1, a.2) },
    }
}
/// the open unit was closed by looking ahead
pub open spec fn closed_at(s: Fields, i: int) -> bool { 0 < i < s.len() && ends(s[i - 1], s[i]) }
pub open spec fn last_or<T>(s: Seq<Seq<T>>) -> Seq<T> { if s.len() > 0 { s.last() } else { Seq::empty() } }
pub open spec fn loc_state(s: Fields, i: int) -> LState {
    let m = mains(s.take(i));
    let u = local_units(bodies(s.take(i)));
    if closed_at(s, i) { (Seq::empty(), m, u.map_values(under(m))) } else { (last_or(u), m, (if u.len() > 0 { u.drop_last() } else { u }).map_values(under(m))) }
}
pub proof fn lem_take(s: Fields, i: int)
    requires main_first(s), 0 <= i < s.len()
    ensures mains(s.take(i + 1)) == (if s[i].level() is Main { mains(s.take(i)).push(s[i]) } else { mains(s.take(i)) }),
        bodies(s.take(i + 1)) == (if s[i].level() is Main { bodies(s.take(i)) } else { bodies(s.take(i)).push(s[i]) }),
        s[i].level() is Main ==> bodies(s.take(i)) == Seq::<FieldRef>::empty(),
        s[i].level() is Main && i > 0 ==> s[i - 1].level() is Main,
        no_main(bodies(s.take(i))),
        i > 0 && !(s[i - 1].level() is Main) ==> bodies(s.take(i)).len() > 0 && bodies(s.take(i)).last() == s[i - 1],
        bodies(s.take(i)).len() > 0 ==> i > 0 && !(s[i - 1].level() is Main)
{
    let p = s.take(i);
    assert(p.push(s[i]) =~= s.take(i + 1));
    lem_parts_push(p, s[i]);
    lem_body(p);
    if s[i].level() is Main {
        reveal(main_first);
        assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).level() is Main by { assert(p[k] == s[k]); assert(!(s[k].level() is Main) ==> !(s[i].level() is Main)); }
        lem_no_body(p);
        if i > 0 { assert(p[i - 1] == s[i - 1]); }
    }
    if i > 0 {
        assert(s.take(i - 1).push(s[i - 1]) =~= p);
        lem_parts_push(s.take(i - 1), s[i - 1]);
        if s[i - 1].level() is Main {
            reveal(main_first);
            assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).level() is Main by { assert(p[k] == s[k]); if k < i - 1 { assert(!(s[k].level() is Main) ==> !(s[i - 1].level() is Main)); } }
            lem_no_body(p);
        }
    } else { assert(p =~= Seq::empty()); lem_parts_push(p, s[i]); }
}
pub proof fn lem_local_inv(s: Fields, i: int)
    requires main_first(s), 0 <= i <= s.len()
    ensures seq_fold(s.x_enumerate().take(i), (Seq::empty(), Seq::empty(), Seq::empty()), loc_step(s)) == loc_state(s, i)
    decreases i
{
    let e = s.x_enumerate();
    let st0: LState = (Seq::empty(), Seq::empty(), Seq::empty());
    if i == 0 {
        assert(s.take(0) =~= Seq::empty());
        assert(e.take(0) =~= Seq::empty());
        lem_parts_push(s.take(0), arbitrary());
        assert(loc_state(s, 0).2 =~= Seq::empty());
    } else {
        let k = i - 1;
        let x = s[k];
        lem_local_inv(s, k);
        assert(e.take(i).drop_last() =~= e.take(k));
        assert(e.take(i).last() == (k, x));
        lem_take(s, k);
        let p = s.take(k);
        let m = mains(p);
        let b = bodies(p);
        let u = local_units(b);
        let st = loc_state(s, k);
        let n = loc_step(s)(st, (k, x));
        if x.level() is Main {
            assert(b =~= Seq::empty());
            assert(n.2 =~= loc_state(s, i).2);
        } else {
            let b2 = b.push(x);
            assert(b2.drop_last() =~= b);
            lem_local_units(b);
            let v = local_units(b2);
            assert(b.len() > 0 ==> b.last() == s[k - 1]);
            if closed_at(s, k) || b.len() == 0 {
                assert(v =~= u.push(seq![x]));
                assert(v.drop_last() =~= u);
                assert(st.0 =~= Seq::empty());
                assert(st.0.push(x) =~= seq![x]);
            } else {
                assert(v =~= u.update(u.len() - 1, u.last().push(x)));
                assert(v.drop_last() =~= u.drop_last());
                assert(st.0.push(x) =~= v.last());
            }
            assert(st.2 =~= v.drop_last().map_values(under(m)));
            assert(n.0 =~= loc_state(s, i).0);
            assert(v.drop_last().push(v.last()) =~= v);
            assert(n.2 =~= loc_state(s, i).2);
        }
    }
}
/// explode local: one record per local unit
pub proof fn ob_process_local(r: ByteRecord)
    requires main_first(r.record.fields())
    ensures process_local(r) == units_of(Level::Local, r.record.fields())
{
    broadcast use lem_fold_ext;
    let s = r.record.fields();
    let e = s.x_enumerate();
    let n = s.len() as int;
    lem_local_inv(s, n);
    assert(e.take(n) =~= e);
    assert(s.take(n) =~= s);
    let st0: LState = (Seq::empty(), Seq::empty(), Seq::empty());
    let st = seq_fold(e, st0, loc_step(s));
    let u = local_units(bodies(s));
    lem_body(s);
    lem_local_units(bodies(s));
    if u.len() > 0 { assert(u.drop_last().push(u.last()) =~= u); assert(unit_like(u[u.len() - 1])); assert(st.2.push(st.1 + st.0) =~= u.map_values(under(mains(s)))); }
    assert(process_local(r) == (if st.0.len() > 0 { st.2.push(st.1 + st.0) } else { st.2 }));
}
pub type CState = (Fields, Option<Seq<u8>>, Fields, Fields, Seq<Fields>);
pub open spec fn flush(a: CState) -> Seq<Fields> { if a.0.len() > 0 { a.4.push((if a.2.len() > 0 { a.3 + a.2 } else { a.3 }) + a.0) } else { a.4 } }
pub open spec fn copy_step(s: Fields) -> spec_fn(CState, (int, FieldRef)) -> CState {
    |a: CState, p: (int, FieldRef)| match p.1.level() {
        Level::Main => (a.0, a.1, a.2, a.3.push(p.1), a.4),
        Level::Local => (a.0, a.1, a.2.push(p.1), a.3, a.4),
        Level::Copy => {
            let b = if a.1 != p.1.occurrence() { (Seq::empty(), p.1.occurrence(), a.2, a.3, flush(a)) } else { a };
            let c = (b.0.push(p.1), b.1, b.2, b.3, b.4);
            if local_next(s, p.0) { (Seq::empty(), None, Seq::empty(), c.3, flush(c)) } else { c }
        }
    }
}
/// the copies of complete units
pub open spec fn copies(u: Seq<Fields>) -> Seq<Fields> { seq_flat(u.map_values(copies_of())) }
pub open spec fn copy_inv(s: Fields, i: int, a: CState) -> bool {
    let m = mains(s.take(i));
    let u = local_units(bodies(s.take(i)));
    &&& a.3 == m
    &&& if closed_at(s, i) || u.len() == 0 { a.0.len() == 0 && a.2.len() == 0 && a.4 == copies(u).map_values(under(m)) } else {
        let l = u.last();
        let r = runs(l);
        &&& a.2 == l.filter(local_f())
        &&& a.0 == last_or(r)
        &&& a.0.len() > 0 ==> a.1 == a.0.last().occurrence
        &&& a.4 == (copies(u.drop_last()) + (if r.len() > 0 { r.drop_last() } else { r }).map_values(with_local(l))).map_values(under(m))
    }
}
pub proof fn lem_copies_push(u: Seq<Fields>, x: Fields)
    ensures copies(u.push(x)) == copies(u) + runs(x).map_values(with_local(x)), u.push(x).drop_last() == u
{
    assert(u.push(x).drop_last() =~= u);
    assert(u.push(x).map_values(copies_of()).drop_last() =~= u.map_values(copies_of()));
}
pub proof fn lem_flush(c: Seq<Fields>, r: Seq<Fields>, l: Fields, m: Fields, a: CState)
    requires a.3 == m, a.2 == l.filter(local_f()), a.0 == last_or(r), r.len() > 0 ==> r.last().len() > 0,
        a.4 == (c + (if r.len() > 0 { r.drop_last() } else { r }).map_values(with_local(l))).map_values(under(m))
    ensures flush(a) == (c + r.map_values(with_local(l))).map_values(under(m))
{
    if r.len() > 0 { assert(r.drop_last().push(r.last()) =~= r); let f = (if a.2.len() > 0 { a.3 + a.2 } else { a.3 }) + a.0; assert(f =~= m + (l.filter(local_f()) + r.last())); }
    assert(flush(a) =~= (c + r.map_values(with_local(l))).map_values(under(m)));
}
/// a level-2 field in its unit
pub proof fn lem_copy_field(s: Fields, k: int, a: CState, pre: Seq<Fields>, l: Fields, m: Fields)
    requires 0 <= k < s.len(), s[k].level() is Copy, a.3 == m, a.2 == l.filter(local_f()), a.0 == last_or(runs(l)), a.0.len() > 0 ==> a.1 == a.0.last().occurrence,
        l.len() == 0 || unit_like(l), l.len() > 0 ==> k > 0 && l.last() == s[k - 1],
        a.4 == (copies(pre) + (if runs(l).len() > 0 { runs(l).drop_last() } else { runs(l) }).map_values(with_local(l))).map_values(under(m))
    ensures ({
        let l2 = l.push(s[k]);
        let r2 = runs(l2);
        let n = copy_step(s)(a, (k, s[k]));
        &&& n.3 == m
        &&& if local_next(s, k) { n.0.len() == 0 && n.2.len() == 0 && n.4 == (copies(pre) + r2.map_values(with_local(l2))).map_values(under(m)) }
            else { n.2 == l2.filter(local_f()) && r2.len() > 0 && n.0 == r2.last() && n.0.len() > 0 && n.1 == n.0.last().occurrence
                && n.4 == (copies(pre) + r2.drop_last().map_values(with_local(l2))).map_values(under(m)) }
    })
{
    let x = s[k];
    let l2 = l.push(x);
    let r = runs(l); let r2 = runs(l2);
    assert(l2.drop_last() =~= l);
    assert(l2.last() == x);
    lem_filter_push(l, x, local_f());
    assert(with_local(l2) =~= with_local(l)) by { assert forall|q: Fields| #[trigger] with_local(l2)(q) == with_local(l)(q) by { } }
    if l.len() > 0 { lem_runs(l); } else { assert(l =~= Seq::empty()); assert(r.len() == 0); }
    if r.len() > 0 { assert(one_occurrence(r[r.len() - 1])); }
    let b: CState = if a.1 != x.occurrence() { (Seq::empty(), x.occurrence(), a.2, a.3, flush(a)) } else { a };
    let c: CState = (b.0.push(x), b.1, b.2, b.3, b.4);
    lem_flush(copies(pre), r, l, m, a);
    if r.len() > 0 && l.last().level() is Copy && l.last().occurrence == x.occurrence {
        assert(r2 =~= r.update(r.len() - 1, r.last().push(x)));
        assert(r2.drop_last() =~= r.drop_last());
        assert(r2.last() == r.last().push(x));
        assert(a.1 == x.occurrence());
        assert(c.0 == r2.last());
    } else {
        assert(r2 =~= r.push(seq![x]));
        assert(r2.drop_last() =~= r);
        if a.1 != x.occurrence() { assert(b.0.push(x) =~= seq![x]); } else {
            if r.len() > 0 { assert(a.0.last() == r.last().last()); assert(false); }
            assert(a.0.len() == 0);
            assert(a.0 =~= Seq::empty());
            assert(a.0.push(x) =~= seq![x]);
        }
        assert(c.0 == r2.last());
    }
    assert(c.4 == (copies(pre) + r2.drop_last().map_values(with_local(l2))).map_values(under(m)));
    lem_flush(copies(pre), r2, l2, m, c);
}
pub proof fn lem_copy_inv(s: Fields, i: int)
    requires main_first(s), 0 <= i <= s.len()
    ensures copy_inv(s, i, seq_fold(s.x_enumerate().take(i), (Seq::empty(), None, Seq::empty(), Seq::empty(), Seq::empty()), copy_step(s)))
    decreases i
{
    let e = s.x_enumerate();
    let st0: CState = (Seq::empty(), None, Seq::empty(), Seq::empty(), Seq::empty());
    let a2 = seq_fold(e.take(i), st0, copy_step(s));
    if i == 0 {
        assert(s.take(0) =~= Seq::empty());
        assert(e.take(0) =~= Seq::empty());
        lem_parts_push(s.take(0), arbitrary());
        assert(a2.4 =~= copies(local_units(bodies(s.take(0)))).map_values(under(mains(s.take(0)))));
    } else {
        let k = i - 1;
        let x = s[k];
        lem_copy_inv(s, k);
        assert(e.take(i).drop_last() =~= e.take(k));
        assert(e.take(i).last() == (k, x));
        lem_take(s, k);
        let p = s.take(k);
        let m = mains(p);
        let b = bodies(p);
        let u = local_units(b);
        let a = seq_fold(e.take(k), st0, copy_step(s));
        assert(a2 == copy_step(s)(a, (k, x)));
        lem_local_units(b);
        if x.level() is Main {
            assert(b =~= Seq::empty());
            assert(u.len() == 0);
            assert(copies(u) =~= Seq::<Fields>::empty());
            assert(a2.4 =~= copies(u).map_values(under(m.push(x))));
            assert(!closed_at(s, i));
        } else {
            let b2 = b.push(x);
            assert(b2.drop_last() =~= b);
            let v = local_units(b2);
            let fresh = closed_at(s, k) || b.len() == 0;
            let pre = if fresh { u } else { u.drop_last() };
            let l = if fresh { Seq::<FieldRef>::empty() } else { u.last() };
            if fresh { assert(v =~= u.push(seq![x])); assert(Seq::<FieldRef>::empty().push(x) =~= seq![x]); assert(a.0 =~= Seq::empty()); assert(a.2 =~= Seq::empty());
                lem_filter_false(l, local_f());
                assert(runs(l) =~= Seq::<Fields>::empty());
                assert(copies(pre) + Seq::<Fields>::empty().map_values(with_local(l)) =~= copies(pre));
                if b.len() == 0 { assert(u.len() == 0); }
            } else { assert(v =~= u.drop_last().push(u.last().push(x))); assert(unit_like(u[u.len() - 1])); }
            let l2 = l.push(x);
            assert(v == pre.push(l2));
            lem_copies_push(pre, l2);
            assert(v.last() == l2);
            if x.level() is Copy {
                lem_copy_field(s, k, a, pre, l, m);
                assert(closed_at(s, i) == local_next(s, k));
            } else {
                // no level-2 field in the unit yet
                if !fresh { lem_runs(l); if l.last().level() is Copy { assert(ends(s[k - 1], s[k])); assert(false); } }
                assert(runs(l).len() == 0);
                assert(l2.drop_last() =~= l);
                assert(runs(l2).len() == 0);
                lem_filter_push(l, x, local_f());
                assert(a2.2 =~= l2.filter(local_f()));
                assert(a2.4 =~= (copies(pre) + runs(l2).map_values(with_local(l2))).map_values(under(m)));
                assert(!closed_at(s, i));
            }
        }
    }
}
/// explode copy: one record per run of level-2 fields of a unit
pub proof fn ob_process_copy(r: ByteRecord)
    requires main_first(r.record.fields())
    ensures process_copy(r) == units_of(Level::Copy, r.record.fields())
{
    broadcast use lem_fold_ext;
    let s = r.record.fields();
    let e = s.x_enumerate();
    let n = s.len() as int;
    lem_copy_inv(s, n);
    assert(e.take(n) =~= e);
    assert(s.take(n) =~= s);
    let st0: CState = (Seq::empty(), None, Seq::empty(), Seq::empty(), Seq::empty());
    let st = seq_fold(e, st0, copy_step(s));
    let u = local_units(bodies(s));
    lem_body(s);
    lem_local_units(bodies(s));
    if u.len() > 0 {
        let l = u.last();
        assert(unit_like(u[u.len() - 1]));
        lem_runs(l);
        if runs(l).len() > 0 { assert(one_occurrence(runs(l)[runs(l).len() - 1])); }
        lem_flush(copies(u.drop_last()), runs(l), l, mains(s), st);
        lem_copies_push(u.drop_last(), l);
        assert(u.drop_last().push(l) =~= u);
    }
    assert(flush(st) == units_of(Level::Copy, s));
    assert(process_copy(r) == flush(st));
}
pub proof fn ob_process_main(r: ByteRecord)
    ensures process_main(r) == units_of(Level::Main, r.record.fields())
{ }
}
}
pub use process_x::*;

// ---- the command
verus! {
pub type Preds = Seq<(TagMatcher, OccurrenceMatcher)>;
pub open spec fn add_field() -> spec_fn(Seq<u8>, FieldRef) -> Seq<u8> { |d: Seq<u8>, f: FieldRef| f.write_to(d) }
/// the record made of some fields
pub open spec fn record_of(fs: Fields) -> ByteRecord { ByteRecord::from_bytes(seq_fold(fs, Seq::empty(), add_field()).push(10u8)).x_unwrap() }
pub open spec fn listed(p: Preds, f: FieldRef) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0.is_match(f.tag()) && p[i].1.is_match(f.occurrence()) }
pub open spec fn keeps(p: Preds) -> spec_fn(FieldRef) -> bool { |f: FieldRef| listed(p, f) }
pub open spec fn drops(p: Preds) -> spec_fn(FieldRef) -> bool { |f: FieldRef| !listed(p, f) }
/// keep, then discard
pub open spec fn shaped(r: ByteRecord, k: Preds, d: Preds) -> ByteRecord {
    let a = if k.len() > 0 { r.retain(keeps(k)) } else { r };
    if d.len() > 0 { a.retain(drops(d)) } else { a }
}
pub open spec fn unit_out(fs: FilterSet, m: Option<RecordMatcher>, o: MatcherOptions, k: Preds, d: Preds) -> spec_fn(Fields) -> Option<ByteRecord> {
    |u: Fields| if wanted(fs, m, o, record_of(u)) { Some(shaped(record_of(u), k, d)) } else { None }
}
/// the units of the level; what is made of a record whose level-0 fields do not come first is not specified
pub open spec fn pieces(level: Level, r: ByteRecord) -> Seq<Fields> {
    let s = r.record.fields();
    if level is Main || main_first(s) { units_of(level, s) } else if level is Local { process_local(r) } else { process_copy(r) }
}
pub open spec fn explodes(level: Level, f: spec_fn(Fields) -> Option<ByteRecord>) -> ManyFn<ByteRecord> {
    |x: Option<Item>| match x { Some(Ok(r)) => seq_somes(pieces(level, r).map_values(f)), _ => Seq::empty() }
}
pub type XState = (int, Seq<u8>, Writer);
pub type XCtl = Ctl<XState, Result<Writer, XErr>>;
pub open spec fn xp_err() -> Result<Writer, XErr> { Err(x_err()) }
pub open spec fn xp_inner(limit: int, f: spec_fn(Fields) -> Option<ByteRecord>) -> spec_fn(XState, Fields) -> XCtl {
    |a: XState, u: Fields| {
        let t = seq_fold(u, Seq::empty(), add_field()).push(10u8);
        match f(u) { None => Ctl::Next((a.0, t, a.2)), Some(r) => if limit > 0 && a.0 + 1 >= limit { Ctl::Brk((a.0 + 1, t, a.2.write_byte_record(r))) } else { Ctl::Next((a.0 + 1, t, a.2.write_byte_record(r))) } }
    }
}
pub open spec fn xp_step(level: Level, skip: bool, limit: int, f: spec_fn(Fields) -> Option<ByteRecord>) -> StepFn<XState, Result<Writer, XErr>> {
    |a: XState, x: Item| if bad(Some(x), skip) { Ctl::Ret(xp_err()) } else { match x { Ok(r) => seq_for(pieces(level, r), (a.0, a.1, a.2), xp_inner(limit, f)), Err(_) => Ctl::Next(a) } }
}
pub open spec fn xp_inv(w: Writer) -> spec_fn(Seq<ByteRecord>, XState) -> bool { |o: Seq<ByteRecord>, a: XState| a.0 == o.len() && a.2 == w.with(o) }
proof fn lem_somes_cons<T>(s: Seq<Option<T>>)
    requires s.len() > 0
    ensures seq_somes(s) == (match s[0] { Some(x) => seq![x], None => Seq::empty() }) + seq_somes(s.subrange(1, s.len() as int))
    decreases s.len()
{
    let t = s.subrange(1, s.len() as int);
    let h: Seq<T> = match s[0] { Some(x) => seq![x], None => Seq::empty() };
    reveal_with_fuel(seq_somes, 3);
    if s.len() == 1 { assert(t.len() == 0); assert(s.drop_last().len() == 0); assert(s.last() == s[0]); assert(seq_somes(s) =~= h + seq_somes(t)); }
    else {
        lem_somes_cons(s.drop_last());
        assert(s.drop_last().subrange(1, s.len() - 1) =~= t.drop_last());
        assert(t.last() == s.last());
        assert(seq_somes(s) =~= h + seq_somes(t));
    }
}
proof fn lem_inner(us: Seq<Fields>, a: XState, o: Seq<ByteRecord>, w: Writer, limit: int, f: spec_fn(Fields) -> Option<ByteRecord>)
    requires xp_inv(w)(o, a), limit > 0 ==> o.len() < limit
    ensures ({
        let e = o + seq_somes(us.map_values(f));
        match seq_for(us, a, xp_inner(limit, f)) {
            Ctl::Next(b) => xp_inv(w)(e, b) && (limit > 0 ==> e.len() < limit),
            Ctl::Brk(b) => limit > 0 && e.len() >= limit && xp_inv(w)(e.take(limit), b),
            Ctl::Ret(_) => false,
        }
    })
    decreases us.len()
{
    let ms = us.map_values(f);
    if us.len() == 0 { assert(o + seq_somes(ms) =~= o); } else {
        let t = us.subrange(1, us.len() as int);
        lem_somes_cons(ms);
        assert(ms.subrange(1, ms.len() as int) =~= t.map_values(f));
        let e = o + seq_somes(ms);
        match f(us[0]) {
            None => { assert(o + (Seq::<ByteRecord>::empty() + seq_somes(t.map_values(f))) =~= o + seq_somes(t.map_values(f)));
                match xp_inner(limit, f)(a, us[0]) { Ctl::Next(b) => { lem_inner(t, b, o, w, limit, f); } _ => {} } }
            Some(r) => {
                assert(e =~= o.push(r) + seq_somes(t.map_values(f)));
                assert((w.out + o).push(r) =~= w.out + o.push(r));
                match xp_inner(limit, f)(a, us[0]) {
                    Ctl::Next(b) => { lem_inner(t, b, o.push(r), w, limit, f); }
                    Ctl::Brk(b) => { assert(e.take(limit) =~= o.push(r)); }
                    Ctl::Ret(_) => {}
                }
            }
        }
    }
}
proof fn lem_inner_no_ret(us: Seq<Fields>, a: XState, limit: int, f: spec_fn(Fields) -> Option<ByteRecord>)
    ensures !(seq_for(us, a, xp_inner(limit, f)) is Ret)
    decreases us.len()
{
    if us.len() > 0 { match xp_inner(limit, f)(a, us[0]) { Ctl::Next(b) => { lem_inner_no_ret(us.subrange(1, us.len() as int), b, limit, f); } _ => {} } }
}
proof fn lem_adds(level: Level, skip: bool, limit: int, f: spec_fn(Fields) -> Option<ByteRecord>, w: Writer)
    ensures adds(xp_step(level, skip, limit, f), skip, limit, explodes(level, f), xp_inv(w), xp_err())
{
    let step = xp_step(level, skip, limit, f);
    let g = explodes(level, f);
    assert forall|a: XState, x: Item| !bad(Some(x), skip) implies !((#[trigger] step(a, x)) is Ret) by {
        match x { Ok(r) => { lem_inner_no_ret(pieces(level, r), a, limit, f); } Err(_) => {} }
    }
    assert forall|o: Seq<ByteRecord>, a: XState, x: Item| #![trigger xp_inv(w)(o, a), step(a, x)] xp_inv(w)(o, a) && !bad(Some(x), skip) && (limit > 0 ==> o.len() < limit) implies (match step(a, x) {
        Ctl::Next(b) => xp_inv(w)(o + g(Some(x)), b) && (limit > 0 ==> (o + g(Some(x))).len() < limit),
        Ctl::Brk(b) => limit > 0 && (o + g(Some(x))).len() >= limit && xp_inv(w)((o + g(Some(x))).take(limit), b),
        Ctl::Ret(_) => false,
    }) by {
        match x { Ok(r) => { lem_inner(pieces(level, r), a, o, w, limit, f); } Err(_) => { assert(o + g(Some(x)) =~= o); } }
    }
}
proof fn lem_pieces(level: Level, r: ByteRecord)
    ensures pieces(level, r) == (match level { Level::Main => process_main(r), Level::Local => process_local(r), Level::Copy => process_copy(r) })
{
    match level { Level::Main => { ob_process_main(r); } Level::Local => { if main_first(r.record.fields()) { ob_process_local(r); } } Level::Copy => { if main_first(r.record.fields()) { ob_process_copy(r); } } }
}
pub open spec fn xp_file(step: StepFn<XState, Result<Writer, XErr>>) -> spec_fn(XState, Seq<u8>) -> XCtl {
    |a: XState, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, (a.0, a.1, a.2), step), Err(_) => Ctl::Ret(xp_err()) }
}
impl Explode {
    pub open spec fn writer(self) -> Result<Writer, XErr> { open_writer(self.output, self.gzip, false) }
    pub open spec fn emits(self, fs: FilterSet, m: Option<RecordMatcher>, k: Preds, d: Preds) -> spec_fn(Fields) -> Option<ByteRecord> { unit_out(fs, m, self.filter_opts.opts(), k, d) }
}
}
pub mod run_x {
use super::*;
verus! {
#[verifier::rlimit(100)]
pub proof fn ob_explode_run(c: Explode, config: Config, fs: FilterSet, m: Option<RecordMatcher>, w: Writer, k: Preds, d: Preds)
    requires c.filter_opts.lists() == Ok::<FilterSet, XErr>(fs), c.filter_opts.matcher_spec(config.normalization) == Ok::<Option<RecordMatcher>, XErr>(m), c.writer() == Ok::<Writer, XErr>(w),
        parse_predicates(c.keep) == Ok::<Preds, XErr>(k), parse_predicates(c.discard) == Ok::<Preds, XErr>(d)
    ensures ({
        let step = xp_step(c.level, c.filter_opts.skip_invalid || config.skip_invalid, c.filter_opts.limit as int, c.emits(fs, m, k, d));
        c.execute(config) == (match seq_for(c.filenames, (0int, Seq::<u8>::empty(), w), file_step(step, xp_err())) { Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok(st.2.finish()) })
    })
{
    broadcast use {lem_for_ext, process_x::lem_fold_ext, lem_filter_ext};
    let fo = c.filter_opts;
    ob_opts_lists(fo); ob_opts_options(fo); ob_opts_matcher(fo, config.normalization);
    assert forall|r: ByteRecord| #[trigger] fs.check(r) == fs.allows(r) by { ob_filter_set(fs, r); }
    assert forall|r: ByteRecord| #[trigger] pieces(c.level, r) == (match c.level { Level::Main => process_main(r), Level::Local => process_local(r), Level::Copy => process_copy(r) }) by { lem_pieces(c.level, r); }
    let step = xp_step(c.level, fo.skip_invalid || config.skip_invalid, fo.limit as int, c.emits(fs, m, k, d));
    assert forall|st: XState, p: Seq<u8>| #[trigger] xp_file(step)(st, p) == file_step(step, xp_err())(st, p) by { assert(st == (st.0, st.1, st.2)); }
    let res = seq_for(c.filenames, (0int, Seq::<u8>::empty(), w), xp_file(step));
    assert(res == seq_for(c.filenames, (0int, Seq::<u8>::empty(), w), file_step(step, xp_err())));
}
}
}
pub use run_x::*;
verus! {
/// explode writes, for every record, its units that pass the filters, up to the limit
pub proof fn ob_explode(c: Explode, config: Config)
    requires c.filter_opts.limit >= 0
    ensures ({
        let skip = c.filter_opts.skip_invalid || config.skip_invalid;
        match (c.filter_opts.lists(), c.filter_opts.matcher_spec(config.normalization), c.writer(), parse_predicates(c.keep), parse_predicates(c.discard)) {
            (Ok(fs), Ok(m), Ok(w), Ok(k), Ok(d)) => match limited_many(stream(c.filenames), skip, c.filter_opts.limit as int, explodes(c.level, c.emits(fs, m, k, d))) {
                Some(o) => c.execute(config) == Ok::<Writer, XErr>(w.with(o).finish()),
                None => c.execute(config) is Err,
            },
            _ => c.execute(config) is Err,
        }
    })
{
    let fo = c.filter_opts;
    let skip = fo.skip_invalid || config.skip_invalid;
    match (fo.lists(), fo.matcher_spec(config.normalization), c.writer(), parse_predicates(c.keep), parse_predicates(c.discard)) {
        (Ok(fs), Ok(m), Ok(w), Ok(k), Ok(d)) => {
            let f = c.emits(fs, m, k, d);
            let step = xp_step(c.level, skip, fo.limit as int, f);
            ob_explode_run(c, config, fs, m, w, k, d);
            lem_adds(c.level, skip, fo.limit as int, f, w);
            assert(w.out + Seq::<ByteRecord>::empty() =~= w.out);
            assert(xp_inv(w)(Seq::empty(), (0int, Seq::<u8>::empty(), w)));
            lem_many(c.filenames, (0int, Seq::<u8>::empty(), w), step, skip, fo.limit as int, explodes(c.level, f), xp_inv(w), xp_err());
        }
        _ => { ob_opts_lists(fo); ob_opts_matcher(fo, config.normalization); }
    }
}
}
