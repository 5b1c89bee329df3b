//@include prelude.rs
//@include parser.rs
// The owned types hold the same byte strings as the borrowed ones; both are
// identified with one mathematical value.  A `char` code is represented by
// its byte (codes are ASCII; `as u8` of a larger char is not modelled).
//@tymap char = u8
//@tymap Tag = TagRef
//@tymap Occurrence = OccurrenceRef
//@tymap SubfieldValue = SubfieldValueRef
//@tymap Subfield = SubfieldRef
//@tymap Field = FieldRef
//@tymap Record = RecordRef
verus! {
broadcast use group_x;
//@type src/primitives/tag.rs TagRef
//@type src/primitives/occurrence.rs OccurrenceRef
//@type src/primitives/subfield.rs SubfieldCode
//@type src/primitives/subfield.rs SubfieldValueRef
//@type src/primitives/subfield.rs SubfieldRef
//@type src/primitives/field.rs FieldRef
//@type src/primitives/record.rs RecordRef

// ---- the grammar: which values are well formed, and their bytes
pub open spec fn tag_ok(t: Seq<u8>) -> bool {
    t.len() == 4 && 48 <= t[0] <= 50 && is_digit(t[1]) && is_digit(t[2]) && (is_upper(t[3]) || t[3] == 64)
}
pub open spec fn occ_ok(o: Seq<u8>) -> bool { 2 <= o.len() <= 3 && forall|i: int| 0 <= i < o.len() ==> is_digit(#[trigger] o[i]) }
pub open spec fn code_ok(c: u8) -> bool { is_alnum(c) }
pub open spec fn value_ok(v: Seq<u8>) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] != 0x1e && v[i] != 0x1f }
impl SubfieldRef { pub open spec fn wf(self) -> bool { code_ok(self.0.0) && value_ok(self.1.0) } }
impl FieldRef {
    pub open spec fn wf(self) -> bool {
        tag_ok(self.tag.0) && (self.occurrence is Some ==> occ_ok(self.occurrence.unwrap().0))
            && forall|i: int| 0 <= i < self.subfields.len() ==> (#[trigger] self.subfields[i]).wf()
    }
}
impl RecordRef { pub open spec fn wf(self) -> bool { forall|i: int| 0 <= i < self.0.len() ==> (#[trigger] self.0[i]).wf() } }

pub open spec fn sf_bytes(s: SubfieldRef) -> Seq<u8> { seq![0x1fu8, s.0.0] + s.1.0 }
pub open spec fn sfs_bytes(s: Seq<SubfieldRef>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { sf_bytes(s[0]) + sfs_bytes(s.subrange(1, s.len() as int)) }
}
pub open spec fn occ_bytes(o: Option<OccurrenceRef>) -> Seq<u8> {
    match o { Some(o) => seq![47u8] + o.0, None => Seq::empty() }
}
pub open spec fn field_bytes(f: FieldRef) -> Seq<u8> {
    f.tag.0 + (occ_bytes(f.occurrence) + (seq![32u8] + (sfs_bytes(f.subfields) + seq![0x1eu8])))
}
pub open spec fn fields_bytes(s: Seq<FieldRef>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { field_bytes(s[0]) + fields_bytes(s.subrange(1, s.len() as int)) }
}
/// a record without fields is written as nothing
pub open spec fn record_bytes(r: RecordRef) -> Seq<u8> {
    if r.0.len() == 0 { Seq::empty() } else { fields_bytes(r.0) + seq![10u8] }
}
}
