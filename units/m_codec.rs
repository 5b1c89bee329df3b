//@include codec_m.rs
pub mod codec {
use super::*;
verus! {
broadcast use group_x;
//@fn src/primitives/parse.rs parse_subfield_code => parse_subfield_code parser
//@fn src/primitives/parse.rs parse_subfield_value_ref => parse_subfield_value_ref parser
//@fn src/primitives/parse.rs parse_subfield_ref => parse_subfield_ref parser
//@fn src/primitives/parse.rs parse_tag_ref => parse_tag_ref parser
//@fn src/primitives/parse.rs parse_occurrence_ref => parse_occurrence_ref parser
//@fn src/primitives/parse.rs parse_field_ref => parse_field_ref parser
//@fn src/primitives/parse.rs parse_record_ref => parse_record_ref parser
impl TagRef {
    pub open spec fn from_unchecked(s: Seq<u8>) -> TagRef { TagRef(s) }
//@fn src/primitives/tag.rs TagRef::from_unchecked => code_from_unchecked
//@fn src/primitives/tag.rs TagRef::from_bytes => code_from_bytes
}
impl OccurrenceRef {
    pub open spec fn from_unchecked(s: Seq<u8>) -> OccurrenceRef { OccurrenceRef(s) }
//@fn src/primitives/occurrence.rs OccurrenceRef::from_unchecked => code_from_unchecked
//@fn src/primitives/occurrence.rs OccurrenceRef::from_bytes => code_from_bytes
}
impl SubfieldCode {
    pub open spec fn from_unchecked(c: u8) -> SubfieldCode { SubfieldCode(c) }
    pub open spec fn as_byte(self) -> u8 { self.0 }
//@fn src/primitives/subfield.rs SubfieldCode::from_unchecked => code_from_unchecked
//@fn src/primitives/subfield.rs SubfieldCode::as_byte => code_as_byte
//@fn src/primitives/subfield.rs SubfieldCode::new => code_new
}
impl SubfieldValueRef {
    pub open spec fn from_unchecked(s: Seq<u8>) -> SubfieldValueRef { SubfieldValueRef(s) }
//@fn src/primitives/subfield.rs SubfieldValueRef::from_unchecked => code_from_unchecked
//@fn src/primitives/subfield.rs SubfieldValueRef::from_bytes => code_from_bytes
//@fn src/primitives/subfield.rs SubfieldValueRef::new => code_new
}
impl SubfieldRef {
//@fn src/primitives/subfield.rs SubfieldRef::from_bytes => code_from_bytes
}
impl FieldRef {
//@fn src/primitives/field.rs FieldRef::from_bytes => code_from_bytes
}
impl RecordRef {
//@fn src/primitives/record.rs RecordRef::from_bytes => code_from_bytes
}
// ---------------------------------------------------------------- parsers
// every parser is an exact inverse of the bytes of its values: sound (what it
// returns is well formed and its bytes are the consumed input) and complete
// (the bytes of a well-formed value are parsed to that value)
proof fn ob_parse_tag(i: Seq<u8>)
    ensures parse_tag_ref()(i) == (if i.len() >= 4 && tag_ok(i.subrange(0, 4)) { PR::Ok(TagRef(i.subrange(0, 4)), p_skip(i, 4)) } else { PR::Err })
{
    if i.len() >= 4 {
        let a = p_skip(i, 1); let b = p_skip(a, 1); let c = p_skip(b, 1); let d = p_skip(c, 1);
        assert(a[0] == i[1] && b[0] == i[2] && c[0] == i[3]);
        assert(d =~= p_skip(i, 4));
        assert(i.subrange(0, i.len() - d.len()) =~= i.subrange(0, 4));
    }
}
proof fn ob_parse_occurrence(i: Seq<u8>)
    ensures ({
        let n = p_span(i, |c: u8| is_digit(c));
        let k = if n > 3 { 3 } else { n };
        parse_occurrence_ref()(i) == (if k >= 2 { PR::Ok(OccurrenceRef(i.subrange(0, k)), p_skip(i, k)) } else { PR::Err })
    })
{ lem_span(i, |c: u8| is_digit(c)); }

pub open spec fn not_sep(c: u8) -> bool { c != 0x1e && c != 0x1f }
proof fn lem_span_sep(i: Seq<u8>, f: spec_fn(u8) -> bool)
    requires forall|c: u8| #[trigger] f(c) == not_sep(c)
    ensures p_span(i, f) == p_span(i, |c: u8| not_sep(c))
    decreases i.len()
{ if i.len() > 0 { lem_span_sep(p_skip(i, 1), f); } }

proof fn ob_parse_value(i: Seq<u8>)
    ensures ({
        let n = p_span(i, |c: u8| not_sep(c));
        parse_subfield_value_ref()(i) == PR::Ok(SubfieldValueRef(i.subrange(0, n)), p_skip(i, n))
    })
{
    lem_span(i, |c: u8| not_sep(c));
    let g = |c: u8| !((|c: u8| (c == 31u8) || (c == 30u8))(c));
    lem_span_all(i);
}
/// two byte sets with the same members span the same prefix
proof fn lem_span_all(i: Seq<u8>)
    ensures forall|f: spec_fn(u8) -> bool| (forall|c: u8| #[trigger] f(c) == not_sep(c)) ==> #[trigger] p_span(i, f) == p_span(i, |c: u8| not_sep(c))
{
    assert forall|f: spec_fn(u8) -> bool| (forall|c: u8| #[trigger] f(c) == not_sep(c)) implies #[trigger] p_span(i, f) == p_span(i, |c: u8| not_sep(c)) by { lem_span_sep(i, f); }
}
proof fn ob_parse_code(i: Seq<u8>)
    ensures parse_subfield_code()(i) == (if i.len() > 0 && code_ok(i[0]) { PR::Ok(SubfieldCode(i[0]), p_skip(i, 1)) } else { PR::Err })
{ }
pub open spec fn at_sep(r: Seq<u8>) -> bool { r.len() == 0 || r[0] == 0x1e || r[0] == 0x1f }
proof fn ob_parse_subfield_sound(i: Seq<u8>)
    ensures match parse_subfield_ref()(i) {
        PR::Ok(s, r) => s.wf() && i == sf_bytes(s) + r && at_sep(r),
        PR::Err => i.len() < 2 || i[0] != 0x1f || !code_ok(i[1]),
        PR::Cut => false,
    }
{
    if i.len() > 0 {
        let a = p_skip(i, 1);
        ob_parse_code(a);
        if a.len() > 0 {
            let b = p_skip(a, 1);
            ob_parse_value(b);
            let n = p_span(b, |c: u8| not_sep(c));
            lem_span(b, |c: u8| not_sep(c));
            if i[0] == 0x1f && code_ok(i[1]) {
                let s = SubfieldRef(SubfieldCode(i[1]), SubfieldValueRef(b.subrange(0, n)));
                assert(parse_subfield_ref()(i) == PR::Ok(s, p_skip(b, n)));
                assert forall|k: int| 0 <= k < s.1.0.len() implies #[trigger] s.1.0[k] != 0x1e && s.1.0[k] != 0x1f by { assert(not_sep(b[k])); }
                assert(i =~= sf_bytes(s) + p_skip(b, n));
            }
        }
    }
}
proof fn ob_parse_subfield_complete(s: SubfieldRef, r: Seq<u8>)
    requires s.wf(), at_sep(r)
    ensures parse_subfield_ref()(sf_bytes(s) + r) == PR::Ok(s, r)
{
    let i = sf_bytes(s) + r;
    let a = p_skip(i, 1);
    let b = p_skip(a, 1);
    ob_parse_code(a);
    ob_parse_value(b);
    assert(b =~= s.1.0 + r);
    assert forall|k: int| 0 <= k < s.1.0.len() implies not_sep(#[trigger] b[k]) by { assert(b[k] == s.1.0[k]); }
    lem_span_is(b, |c: u8| not_sep(c), s.1.0.len() as int);
    assert(b.subrange(0, s.1.0.len() as int) =~= s.1.0);
    assert(p_skip(b, s.1.0.len() as int) =~= r);
}
pub open spec fn all_sf(xs: Seq<SubfieldRef>) -> bool { forall|k: int| 0 <= k < xs.len() ==> (#[trigger] xs[k]).wf() }
pub open spec fn all_f(xs: Seq<FieldRef>) -> bool { forall|k: int| 0 <= k < xs.len() ==> (#[trigger] xs[k]).wf() }

proof fn lem_many_sf_sound(i: Seq<u8>)
    ensures match p_many(i, None, parse_subfield_ref()) {
        PR::Ok(xs, r) => all_sf(xs) && i == sfs_bytes(xs) + r,
        _ => false,
    }
    decreases i.len()
{
    ob_parse_subfield_sound(i);
    match parse_subfield_ref()(i) {
        PR::Ok(s, r) => {
            lem_many_sf_sound(r);
            let xs = p_many(r, None, parse_subfield_ref())->Ok_0; let r2 = p_many(r, None, parse_subfield_ref())->Ok_1;
            let ys = seq![s] + xs;
            assert(ys.subrange(1, ys.len() as int) =~= xs);
            assert(i =~= sfs_bytes(ys) + r2);
        }
        _ => { assert(i =~= Seq::<u8>::empty() + i); }
    }
}
proof fn lem_sfs_sep(xs: Seq<SubfieldRef>, r: Seq<u8>)
    requires r.len() > 0, r[0] == 0x1e
    ensures at_sep(sfs_bytes(xs) + r), (sfs_bytes(xs) + r).len() > 0
{ if xs.len() == 0 { assert(sfs_bytes(xs) + r =~= r); } else { assert((sfs_bytes(xs) + r)[0] == 0x1f); } }
proof fn lem_many_sf_complete(xs: Seq<SubfieldRef>, r: Seq<u8>)
    requires all_sf(xs), r.len() > 0, r[0] == 0x1e
    ensures p_many(sfs_bytes(xs) + r, None, parse_subfield_ref()) == PR::Ok(xs, r)
    decreases xs.len()
{
    let i = sfs_bytes(xs) + r;
    if xs.len() == 0 {
        assert(i =~= r);
        ob_parse_subfield_sound(i);
        if let PR::Ok(s, q) = parse_subfield_ref()(i) { assert(i[0] == 0x1f); }
        assert(xs =~= Seq::<SubfieldRef>::empty());
    } else {
        let t = xs.subrange(1, xs.len() as int);
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).wf() by { assert(t[k] == xs[k + 1]); }
        lem_many_sf_complete(t, r);
        lem_sfs_sep(t, r);
        assert(xs[0].wf());
        ob_parse_subfield_complete(xs[0], sfs_bytes(t) + r);
        assert(i =~= sf_bytes(xs[0]) + (sfs_bytes(t) + r));
        assert(seq![xs[0]] + t =~= xs);
    }
}
proof fn lem_occ_sound(i: Seq<u8>)
    ensures match p_opt(p_preceded(p_byte(47u8), parse_occurrence_ref()))(i) {
        PR::Ok(o, r) => (o is Some ==> occ_ok(o.unwrap().0)) && i == occ_bytes(o) + r,
        _ => false,
    }
{
    let o = p_opt(p_preceded(p_byte(47u8), parse_occurrence_ref()))(i);
    if i.len() > 0 && i[0] == 47 {
        let a = p_skip(i, 1);
        ob_parse_occurrence(a);
        lem_span(a, |c: u8| is_digit(c));
        let n = p_span(a, |c: u8| is_digit(c));
        let k = if n > 3 { 3 } else { n };
        if k >= 2 {
            let v = a.subrange(0, k);
            assert forall|j: int| 0 <= j < v.len() implies is_digit(#[trigger] v[j]) by { assert(v[j] == a[j]); assert((|c: u8| is_digit(c))(a[j])); }
            assert(i =~= occ_bytes(Some(OccurrenceRef(v))) + p_skip(a, k));
        } else { assert(i =~= Seq::<u8>::empty() + i); }
    } else { assert(i =~= Seq::<u8>::empty() + i); }
}
proof fn lem_occ_complete(o: Option<OccurrenceRef>, r: Seq<u8>)
    requires o is Some ==> occ_ok(o.unwrap().0), r.len() > 0, r[0] == 32
    ensures p_opt(p_preceded(p_byte(47u8), parse_occurrence_ref()))(occ_bytes(o) + r) == PR::Ok(o, r)
{
    let i = occ_bytes(o) + r;
    match o {
        None => { assert(i =~= r); }
        Some(v) => {
            let a = p_skip(i, 1);
            assert(a =~= v.0 + r);
            assert(a.subrange(0, v.0.len() as int) =~= v.0);
            assert(p_skip(a, v.0.len() as int) =~= r);
            assert forall|k: int| 0 <= k < v.0.len() implies is_digit(#[trigger] a[k]) by { assert(a[k] == v.0[k]); }
            lem_span_is(a, |c: u8| is_digit(c), v.0.len() as int);
            ob_parse_occurrence(a);
        }
    }
}
proof fn ob_parse_field_sound(i: Seq<u8>)
    ensures match parse_field_ref()(i) {
        PR::Ok(f, r) => f.wf() && i == field_bytes(f) + r && r.len() < i.len(),
        PR::Err => true,
        PR::Cut => false,
    }
{
    ob_parse_tag(i);
    if i.len() >= 4 && tag_ok(i.subrange(0, 4)) {
        let a = p_skip(i, 4);
        lem_occ_sound(a);
        let o = p_opt(p_preceded(p_byte(47u8), parse_occurrence_ref()))(a)->Ok_0; let b = p_opt(p_preceded(p_byte(47u8), parse_occurrence_ref()))(a)->Ok_1;
        if b.len() > 0 && b[0] == 32 {
            let c = p_skip(b, 1);
            lem_many_sf_sound(c);
            let xs = p_many(c, None, parse_subfield_ref())->Ok_0; let d = p_many(c, None, parse_subfield_ref())->Ok_1;
            if d.len() > 0 && d[0] == 0x1e {
                let e = p_skip(d, 1);
                let f = FieldRef { tag: TagRef(i.subrange(0, 4)), occurrence: o, subfields: xs };
                assert(parse_field_ref()(i) == PR::Ok(f, e));
                assert(f.wf());
                assert(d =~= seq![0x1eu8] + e);
                assert(b =~= seq![32u8] + c);
                assert(i =~= i.subrange(0, 4) + a);
                assert(i =~= field_bytes(f) + e);
            }
        }
    }
}
proof fn ob_parse_field_complete(f: FieldRef, r: Seq<u8>)
    requires f.wf()
    ensures parse_field_ref()(field_bytes(f) + r) == PR::Ok(f, r)
{
    let i = field_bytes(f) + r;
    let d = seq![0x1eu8] + r;
    let c = sfs_bytes(f.subfields) + d;
    let b = seq![32u8] + c;
    let a = occ_bytes(f.occurrence) + b;
    assert(i =~= f.tag.0 + a);
    ob_parse_tag(i);
    assert(i.subrange(0, 4) =~= f.tag.0);
    assert(p_skip(i, 4) =~= a);
    lem_occ_complete(f.occurrence, b);
    assert(p_skip(b, 1) =~= c);
    lem_many_sf_complete(f.subfields, d);
    assert(p_skip(d, 1) =~= r);
}
proof fn lem_many_f_sound(i: Seq<u8>)
    ensures match p_many(i, None, parse_field_ref()) {
        PR::Ok(xs, r) => all_f(xs) && i == fields_bytes(xs) + r,
        _ => false,
    }
    decreases i.len()
{
    ob_parse_field_sound(i);
    match parse_field_ref()(i) {
        PR::Ok(s, r) => {
            lem_many_f_sound(r);
            let xs = p_many(r, None, parse_field_ref())->Ok_0; let r2 = p_many(r, None, parse_field_ref())->Ok_1;
            let ys = seq![s] + xs;
            assert(ys.subrange(1, ys.len() as int) =~= xs);
            assert(i =~= fields_bytes(ys) + r2);
        }
        _ => { assert(i =~= Seq::<u8>::empty() + i); }
    }
}
proof fn lem_many_f_complete(xs: Seq<FieldRef>, r: Seq<u8>)
    requires all_f(xs), r.len() > 0, r[0] == 10
    ensures p_many(fields_bytes(xs) + r, None, parse_field_ref()) == PR::Ok(xs, r)
    decreases xs.len()
{
    let i = fields_bytes(xs) + r;
    if xs.len() == 0 {
        assert(i =~= r);
        ob_parse_tag(i);
        if i.len() >= 4 { assert(i.subrange(0, 4)[0] == 10); }
        assert(xs =~= Seq::<FieldRef>::empty());
    } else {
        let t = xs.subrange(1, xs.len() as int);
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).wf() by { assert(t[k] == xs[k + 1]); }
        lem_many_f_complete(t, r);
        assert(xs[0].wf());
        ob_parse_field_complete(xs[0], fields_bytes(t) + r);
        assert(i =~= field_bytes(xs[0]) + (fields_bytes(t) + r));
        assert(field_bytes(xs[0]).len() > 0);
        assert(seq![xs[0]] + t =~= xs);
    }
}
/// decoding accepts only the bytes of a well-formed, non-empty record and
/// returns that record
pub proof fn ob_record_sound(b: Seq<u8>)
    ensures match RecordRef::code_from_bytes(b) { Ok(r) => r.wf() && r.0.len() > 0 && b == record_bytes(r), Err(_) => true }
{
    lem_many_f_sound(b);
    let xs = p_many(b, None, parse_field_ref())->Ok_0; let r = p_many(b, None, parse_field_ref())->Ok_1;
    if xs.len() >= 1 && r.len() > 0 && r[0] == 10 {
        let e = p_skip(r, 1);
        if e.len() == 0 {
            assert(RecordRef::code_from_bytes(b) == Ok::<RecordRef, XErr>(RecordRef(xs)));
            assert(r =~= seq![10u8]);
        }
    }
}
/// the bytes of every well-formed, non-empty record decode to that record
pub proof fn ob_record_complete(r: RecordRef)
    requires r.wf(), r.0.len() > 0
    ensures RecordRef::code_from_bytes(record_bytes(r)) == Ok::<RecordRef, XErr>(r)
{
    lem_many_f_complete(r.0, seq![10u8]);
    assert(p_skip(seq![10u8], 1).len() == 0);
}
proof fn ob_field_sound(b: Seq<u8>)
    ensures match FieldRef::code_from_bytes(b) { Ok(f) => f.wf() && b == field_bytes(f), Err(_) => true }
{ ob_parse_field_sound(b); if let PR::Ok(f, r) = parse_field_ref()(b) { assert(r.len() == 0 ==> field_bytes(f) + r =~= field_bytes(f)); } }
proof fn ob_field_complete(f: FieldRef)
    requires f.wf()
    ensures FieldRef::code_from_bytes(field_bytes(f)) == Ok::<FieldRef, XErr>(f)
{ ob_parse_field_complete(f, Seq::empty()); assert(field_bytes(f) + Seq::<u8>::empty() =~= field_bytes(f)); }
proof fn ob_subfield_sound(b: Seq<u8>)
    ensures match SubfieldRef::code_from_bytes(b) { Ok(f) => f.wf() && b == sf_bytes(f), Err(_) => true }
{ ob_parse_subfield_sound(b); if let PR::Ok(f, r) = parse_subfield_ref()(b) { assert(r.len() == 0 ==> sf_bytes(f) + r =~= sf_bytes(f)); } }
proof fn ob_subfield_complete(s: SubfieldRef)
    requires s.wf()
    ensures SubfieldRef::code_from_bytes(sf_bytes(s)) == Ok::<SubfieldRef, XErr>(s)
{ ob_parse_subfield_complete(s, Seq::empty()); assert(sf_bytes(s) + Seq::<u8>::empty() =~= sf_bytes(s)); }
proof fn ob_tag(b: Seq<u8>)
    ensures TagRef::code_from_bytes(b) == (if tag_ok(b) { Ok::<TagRef, XErr>(TagRef(b)) } else { Err(x_err()) })
{ ob_parse_tag(b); if b.len() == 4 { assert(b.subrange(0, 4) =~= b); } }
proof fn ob_occurrence(b: Seq<u8>)
    ensures OccurrenceRef::code_from_bytes(b) == (if occ_ok(b) { Ok::<OccurrenceRef, XErr>(OccurrenceRef(b)) } else { Err(x_err()) })
{
    ob_parse_occurrence(b);
    lem_span(b, |c: u8| is_digit(c));
    let n = p_span(b, |c: u8| is_digit(c));
    if occ_ok(b) { lem_span_is(b, |c: u8| is_digit(c), b.len() as int); assert(b.subrange(0, n) =~= b); }
    else if n == b.len() && 2 <= n <= 3 {
        assert forall|i: int| 0 <= i < b.len() implies is_digit(#[trigger] b[i]) by { assert((|c: u8| is_digit(c))(b[i])); }
    }
    if n == b.len() { assert(b.subrange(0, n) =~= b); }
}
proof fn ob_value(b: Seq<u8>)
    ensures SubfieldValueRef::code_from_bytes(b) == (if value_ok(b) { Ok::<SubfieldValueRef, XErr>(SubfieldValueRef(b)) } else { Err(x_err()) }),
        SubfieldValueRef::code_new(b) == SubfieldValueRef::code_from_bytes(b)
{
    ob_parse_value(b);
    lem_span(b, |c: u8| not_sep(c));
    let n = p_span(b, |c: u8| not_sep(c));
    if value_ok(b) { lem_span_is(b, |c: u8| not_sep(c), b.len() as int); assert(b.subrange(0, n) =~= b); }
    else if n == b.len() {
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != 0x1e && b[i] != 0x1f by { assert((|c: u8| not_sep(c))(b[i])); }
    }
}
proof fn ob_code(c: u8)
    ensures SubfieldCode::code_new(c) == (if code_ok(c) { Ok::<SubfieldCode, XErr>(SubfieldCode(c)) } else { Err(x_err()) })
{ }
}
}
// ---------------------------------------------------------------- writing
pub mod writing {
use super::*;
verus! {
broadcast use group_x;
impl TagRef {
    pub open spec fn write_to(self, out: Seq<u8>) -> Seq<u8> { out + self.0 }
//@fn src/primitives/tag.rs TagRef::write_to => code_write_to
//@fn src/primitives/tag.rs Tag::write_to => code_owned_write_to
//@fn src/primitives/tag.rs From<TagRef> for Tag::from => code_owned_from
    pub open spec fn x_from(t: TagRef) -> TagRef { t }
}
impl OccurrenceRef {
    pub open spec fn write_to(self, out: Seq<u8>) -> Seq<u8> { out + (seq![47u8] + self.0) }
//@fn src/primitives/occurrence.rs OccurrenceRef::write_to => code_write_to
//@fn src/primitives/occurrence.rs Occurrence::write_to => code_owned_write_to
//@fn src/primitives/occurrence.rs From<OccurrenceRef> for Occurrence::from => code_owned_from
    pub open spec fn x_from(t: OccurrenceRef) -> OccurrenceRef { t }
}
impl SubfieldValueRef {
    pub open spec fn as_bytes(self) -> Seq<u8> { self.0 }
//@fn src/primitives/subfield.rs SubfieldValueRef::as_bytes => code_as_bytes
//@fn src/primitives/subfield.rs SubfieldValue::as_bytes => code_owned_as_bytes
//@fn src/primitives/subfield.rs SubfieldValue::from_unchecked => code_owned_from_unchecked
//@fn src/primitives/subfield.rs From<SubfieldValueRef> for SubfieldValue::from => code_owned_from
    pub open spec fn x_from(t: SubfieldValueRef) -> SubfieldValueRef { t }
}
impl SubfieldRef {
    pub open spec fn write_to(self, out: Seq<u8>) -> Seq<u8> { out + sf_bytes(self) }
//@fn src/primitives/subfield.rs SubfieldRef::write_to => code_write_to
//@fn src/primitives/subfield.rs Subfield::write_to => code_owned_write_to
//@fn src/primitives/subfield.rs From<SubfieldRef> for Subfield::from => code_owned_from
    pub open spec fn x_from(t: SubfieldRef) -> SubfieldRef { t }
}
impl FieldRef {
    pub open spec fn write_to(self, out: Seq<u8>) -> Seq<u8> { out + field_bytes(self) }
//@fn src/primitives/field.rs FieldRef::write_to => code_write_to
//@fn src/primitives/field.rs Field::write_to => code_owned_write_to
//@fn src/primitives/field.rs From<FieldRef> for Field::from => code_owned_from
    pub open spec fn x_from(t: FieldRef) -> FieldRef { t }
}
impl RecordRef {
    pub open spec fn write_to(self, out: Seq<u8>) -> Seq<u8> { out + record_bytes(self) }
    pub open spec fn is_empty(self) -> bool { self.0.len() == 0 }
    pub open spec fn fields(self) -> Seq<FieldRef> { self.0 }
//@fn src/primitives/record.rs RecordRef::is_empty => code_is_empty
//@fn src/primitives/record.rs RecordRef::fields => code_fields
//@fn src/primitives/record.rs RecordRef::write_to => code_write_to
//@fn src/primitives/record.rs Record::write_to => code_owned_write_to
//@fn src/primitives/record.rs From<RecordRef> for Record::from => code_owned_from
}
proof fn lem_fold_sf(s: Seq<SubfieldRef>, init: Seq<u8>, f: spec_fn(Seq<u8>, SubfieldRef) -> Seq<u8>)
    requires forall|a: Seq<u8>, x: SubfieldRef| #[trigger] f(a, x) =~= a + sf_bytes(x)
    ensures seq_fold(s, init, f) == init + sfs_bytes(s)
    decreases s.len()
{
    if s.len() == 0 { assert(init + Seq::<u8>::empty() =~= init); }
    else { lem_fold_sf(s.drop_last(), init, f); lem_sfs_last(s); assert(f(seq_fold(s.drop_last(), init, f), s.last()) =~= init + sfs_bytes(s)); }
}
proof fn lem_sfs_last(s: Seq<SubfieldRef>)
    requires s.len() > 0
    ensures sfs_bytes(s) == sfs_bytes(s.drop_last()) + sf_bytes(s.last())
    decreases s.len()
{
    let t = s.subrange(1, s.len() as int);
    if s.len() > 1 {
        lem_sfs_last(t);
        assert(t.drop_last() =~= s.drop_last().subrange(1, s.len() - 1));
        assert(sfs_bytes(s) =~= sfs_bytes(s.drop_last()) + sf_bytes(s.last()));
    } else { assert(sfs_bytes(t) =~= Seq::<u8>::empty()); assert(sfs_bytes(s) =~= sfs_bytes(s.drop_last()) + sf_bytes(s.last())); }
}
proof fn lem_fold_f(s: Seq<FieldRef>, init: Seq<u8>, f: spec_fn(Seq<u8>, FieldRef) -> Seq<u8>)
    requires forall|a: Seq<u8>, x: FieldRef| #[trigger] f(a, x) =~= a + field_bytes(x)
    ensures seq_fold(s, init, f) == init + fields_bytes(s)
    decreases s.len()
{
    if s.len() == 0 { assert(init + Seq::<u8>::empty() =~= init); }
    else { lem_fold_f(s.drop_last(), init, f); lem_f_last(s); assert(f(seq_fold(s.drop_last(), init, f), s.last()) =~= init + fields_bytes(s)); }
}
proof fn lem_f_last(s: Seq<FieldRef>)
    requires s.len() > 0
    ensures fields_bytes(s) == fields_bytes(s.drop_last()) + field_bytes(s.last())
    decreases s.len()
{
    let t = s.subrange(1, s.len() as int);
    if s.len() > 1 {
        lem_f_last(t);
        assert(t.drop_last() =~= s.drop_last().subrange(1, s.len() - 1));
        assert(fields_bytes(s) =~= fields_bytes(s.drop_last()) + field_bytes(s.last()));
    } else { assert(fields_bytes(t) =~= Seq::<u8>::empty()); assert(fields_bytes(s) =~= fields_bytes(s.drop_last()) + field_bytes(s.last())); }
}
proof fn lem_folds(s: Seq<SubfieldRef>, t: Seq<FieldRef>)
    ensures
        forall|init: Seq<u8>, f: spec_fn(Seq<u8>, SubfieldRef) -> Seq<u8>| (forall|a: Seq<u8>, x: SubfieldRef| #[trigger] f(a, x) =~= a + sf_bytes(x)) ==> #[trigger] seq_fold(s, init, f) == init + sfs_bytes(s),
        forall|init: Seq<u8>, f: spec_fn(Seq<u8>, FieldRef) -> Seq<u8>| (forall|a: Seq<u8>, x: FieldRef| #[trigger] f(a, x) =~= a + field_bytes(x)) ==> #[trigger] seq_fold(t, init, f) == init + fields_bytes(t)
{
    assert forall|init: Seq<u8>, f: spec_fn(Seq<u8>, SubfieldRef) -> Seq<u8>| (forall|a: Seq<u8>, x: SubfieldRef| #[trigger] f(a, x) =~= a + sf_bytes(x)) implies #[trigger] seq_fold(s, init, f) == init + sfs_bytes(s) by { lem_fold_sf(s, init, f); }
    assert forall|init: Seq<u8>, f: spec_fn(Seq<u8>, FieldRef) -> Seq<u8>| (forall|a: Seq<u8>, x: FieldRef| #[trigger] f(a, x) =~= a + field_bytes(x)) implies #[trigger] seq_fold(t, init, f) == init + fields_bytes(t) by { lem_fold_f(t, init, f); }
}
proof fn ob_write_tag(x: TagRef, out: Seq<u8>)
    ensures x.code_write_to(out) =~= x.write_to(out), x.code_owned_write_to(out) =~= x.write_to(out), TagRef::code_owned_from(x) == x { }
proof fn ob_write_occurrence(x: OccurrenceRef, out: Seq<u8>)
    ensures x.code_write_to(out) =~= x.write_to(out), x.code_owned_write_to(out) =~= x.write_to(out), OccurrenceRef::code_owned_from(x) == x { }
proof fn ob_value_accessors(x: SubfieldValueRef)
    ensures x.code_as_bytes() == x.as_bytes(), x.code_owned_as_bytes() == x.as_bytes(), SubfieldValueRef::code_owned_from_unchecked(x.0) == x, SubfieldValueRef::code_owned_from(x) == x { }
proof fn ob_write_subfield(x: SubfieldRef, out: Seq<u8>)
    ensures x.code_write_to(out) =~= x.write_to(out), x.code_owned_write_to(out) =~= x.write_to(out), SubfieldRef::code_owned_from(x) == x { }
proof fn ob_write_field(x: FieldRef, out: Seq<u8>)
    ensures x.code_write_to(out) =~= x.write_to(out), x.code_owned_write_to(out) =~= x.write_to(out)
{ lem_folds(x.subfields, Seq::empty()); }
proof fn ob_owned_field(x: FieldRef)
    ensures FieldRef::code_owned_from(x) == x
{
    let y = FieldRef::code_owned_from(x);
    assert(y.subfields =~= x.subfields);
}
proof fn ob_write_record(x: RecordRef, out: Seq<u8>)
    ensures x.code_write_to(out) =~= x.write_to(out), x.code_owned_write_to(out) =~= x.write_to(out), x.code_is_empty() == x.is_empty(), x.code_fields() == x.fields()
{ lem_folds(Seq::empty(), x.0); }
proof fn ob_owned_record(x: RecordRef)
    ensures RecordRef::code_owned_from(x) == x
{ let y = RecordRef::code_owned_from(x); assert(y.0 =~= x.0); }
}
}
// ---------------------------------------------------------------- building
pub mod building {
use super::*;
verus! {
broadcast use group_x;
impl TagRef {
    pub open spec fn from_bytes(b: Seq<u8>) -> Result<TagRef, XErr> { if tag_ok(b) { Ok(TagRef(b)) } else { Err(x_err()) } }
    pub open spec fn new(b: Seq<u8>) -> Result<TagRef, XErr> { TagRef::from_bytes(b) }
//@fn src/primitives/tag.rs TagRef::new => code_new
//@fn src/primitives/tag.rs Tag::new => code_owned_new
}
impl OccurrenceRef {
    pub open spec fn from_bytes(b: Seq<u8>) -> Result<OccurrenceRef, XErr> { if occ_ok(b) { Ok(OccurrenceRef(b)) } else { Err(x_err()) } }
    pub open spec fn new(b: Seq<u8>) -> Result<OccurrenceRef, XErr> { OccurrenceRef::from_bytes(b) }
//@fn src/primitives/occurrence.rs OccurrenceRef::new => code_new
//@fn src/primitives/occurrence.rs Occurrence::new => code_owned_new
}
impl SubfieldCode {
    pub open spec fn new(c: u8) -> Result<SubfieldCode, XErr> { if code_ok(c) { Ok(SubfieldCode(c)) } else { Err(x_err()) } }
}
impl SubfieldValueRef {
    pub open spec fn new(b: Seq<u8>) -> Result<SubfieldValueRef, XErr> { if value_ok(b) { Ok(SubfieldValueRef(b)) } else { Err(x_err()) } }
//@fn src/primitives/subfield.rs SubfieldValue::new => code_owned_new
}
impl SubfieldRef {
    pub open spec fn new(c: u8, v: Seq<u8>) -> Result<SubfieldRef, XErr> {
        if code_ok(c) && value_ok(v) { Ok(SubfieldRef(SubfieldCode(c), SubfieldValueRef(v))) } else { Err(x_err()) }
    }
//@fn src/primitives/subfield.rs SubfieldRef::new => code_new
//@fn src/primitives/subfield.rs Subfield::new => code_owned_new
}
impl FieldRef {
    pub open spec fn new(t: Seq<u8>, o: Option<Seq<u8>>, s: Seq<(u8, Seq<u8>)>) -> Result<FieldRef, XErr> {
        let f = FieldRef { tag: TagRef(t), occurrence: o.x_map(|x: Seq<u8>| OccurrenceRef(x)),
            subfields: s.map_values(|p: (u8, Seq<u8>)| SubfieldRef(SubfieldCode(p.0), SubfieldValueRef(p.1))) };
        if f.wf() { Ok(f) } else { Err(x_err()) }
    }
//@fn src/primitives/field.rs FieldRef::new => code_new
//@fn src/primitives/field.rs Field::new => code_owned_new
}
impl RecordRef {
//@fn src/primitives/record.rs RecordRef::new => code_new
}
proof fn ob_new_tag(b: Seq<u8>) ensures TagRef::code_new(b) == TagRef::new(b), TagRef::code_owned_new(b) == TagRef::new(b) { }
proof fn ob_new_occurrence(b: Seq<u8>) ensures OccurrenceRef::code_new(b) == OccurrenceRef::new(b), OccurrenceRef::code_owned_new(b) == OccurrenceRef::new(b) { }
proof fn ob_new_value(b: Seq<u8>) ensures SubfieldValueRef::code_owned_new(b) == SubfieldValueRef::new(b) { }
proof fn ob_new_subfield(c: u8, v: Seq<u8>) ensures SubfieldRef::code_new(c, v) == SubfieldRef::new(c, v), SubfieldRef::code_owned_new(c, v) == SubfieldRef::new(c, v) { }
/// collecting results: all of them, or an error
proof fn lem_oks<A, T>(s: Seq<A>, f: spec_fn(A) -> Result<T, XErr>)
    ensures match seq_oks(s.map_values(f)) {
        Ok(v) => v.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> f(#[trigger] s[k]) == Ok::<T, XErr>(v[k]),
        Err(_) => exists|k: int| 0 <= k < s.len() && f(#[trigger] s[k]) is Err,
    }
    decreases s.len()
{
    let m = s.map_values(f);
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        lem_oks(t, f);
        assert(m.subrange(1, m.len() as int) =~= t.map_values(f));
        assert(m[0] == f(s[0]));
        match seq_oks(m) {
            Ok(v) => {
                assert forall|k: int| 0 <= k < s.len() implies f(#[trigger] s[k]) == Ok::<T, XErr>(v[k]) by { if k > 0 { assert(t[k - 1] == s[k]); } }
            }
            Err(_) => {
                if f(s[0]) is Ok { let k = choose|k: int| 0 <= k < t.len() && f(#[trigger] t[k]) is Err; assert(s[k + 1] == t[k]); }
            }
        }
    }
}
proof fn lem_all_oks<A, T>(s: Seq<A>)
    ensures forall|f: spec_fn(A) -> Result<T, XErr>| match #[trigger] seq_oks(s.map_values(f)) {
        Ok(v) => v.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> f(#[trigger] s[k]) == Ok::<T, XErr>(v[k]),
        Err(_) => exists|k: int| 0 <= k < s.len() && f(#[trigger] s[k]) is Err,
    }
{
    assert forall|f: spec_fn(A) -> Result<T, XErr>| match #[trigger] seq_oks(s.map_values(f)) {
        Ok(v) => v.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> f(#[trigger] s[k]) == Ok::<T, XErr>(v[k]),
        Err(_) => exists|k: int| 0 <= k < s.len() && f(#[trigger] s[k]) is Err,
    } by { lem_oks(s, f); }
}
/// a field is built exactly when all its parts are valid, and is those parts
proof fn ob_new_field(t: Seq<u8>, o: Option<Seq<u8>>, s: Seq<(u8, Seq<u8>)>)
    ensures FieldRef::code_new(t, o, s) == FieldRef::new(t, o, s)
{
    lem_all_oks::<(u8, Seq<u8>), SubfieldRef>(s);
    let g = FieldRef { tag: TagRef(t), occurrence: o.x_map(|x: Seq<u8>| OccurrenceRef(x)),
            subfields: s.map_values(|p: (u8, Seq<u8>)| SubfieldRef(SubfieldCode(p.0), SubfieldValueRef(p.1))) };
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] g.subfields[k] == SubfieldRef(SubfieldCode(s[k].0), SubfieldValueRef(s[k].1)) by { }
    match FieldRef::code_new(t, o, s) {
        Ok(f) => { assert(f.subfields =~= g.subfields); }
        Err(_) => { if g.wf() { assert forall|k: int| 0 <= k < s.len() implies SubfieldRef::new(#[trigger] s[k].0, s[k].1) is Ok by { assert(g.subfields[k].wf()); } } }
    }
}
proof fn ob_new_owned_field(t: Seq<u8>, o: Option<Seq<u8>>, s: Seq<(u8, Seq<u8>)>)
    ensures FieldRef::code_owned_new(t, o, s) == FieldRef::new(t, o, s)
{
    lem_all_oks::<(u8, Seq<u8>), SubfieldRef>(s);
    let g = FieldRef { tag: TagRef(t), occurrence: o.x_map(|x: Seq<u8>| OccurrenceRef(x)),
            subfields: s.map_values(|p: (u8, Seq<u8>)| SubfieldRef(SubfieldCode(p.0), SubfieldValueRef(p.1))) };
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] g.subfields[k] == SubfieldRef(SubfieldCode(s[k].0), SubfieldValueRef(s[k].1)) by { }
    match FieldRef::code_owned_new(t, o, s) {
        Ok(f) => { assert(f.subfields =~= g.subfields); }
        Err(_) => { if g.wf() { assert forall|k: int| 0 <= k < s.len() implies SubfieldRef::new(#[trigger] s[k].0, s[k].1) is Ok by { assert(g.subfields[k].wf()); } } }
    }
}
/// a record assembled from valid fields is well formed
proof fn ob_new_record(fs: Seq<(Seq<u8>, Option<Seq<u8>>, Seq<(u8, Seq<u8>)>)>)
    ensures match RecordRef::code_new(fs) {
        Ok(r) => r.wf() && r.0.len() == fs.len() && forall|k: int| 0 <= k < fs.len() ==> FieldRef::new((#[trigger] fs[k]).0, fs[k].1, fs[k].2) == Ok::<FieldRef, XErr>(r.0[k]),
        Err(_) => exists|k: int| 0 <= k < fs.len() && FieldRef::new((#[trigger] fs[k]).0, fs[k].1, fs[k].2) is Err,
    }
{
    lem_all_oks::<(Seq<u8>, Option<Seq<u8>>, Seq<(u8, Seq<u8>)>), FieldRef>(fs);
    if let Ok(r) = RecordRef::code_new(fs) {
        assert forall|k: int| 0 <= k < r.0.len() implies (#[trigger] r.0[k]).wf() by { assert(FieldRef::new(fs[k].0, fs[k].1, fs[k].2) == Ok::<FieldRef, XErr>(r.0[k])); }
    }
}
}
}
