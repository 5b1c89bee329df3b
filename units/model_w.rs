//@include prelude.rs
//@newtype SubfieldValueRef = Seq<u8>
//@newtype SubfieldValue = Seq<u8>
//@tymap f64 = XF64
//@mut write_to 0
verus! {
broadcast use group_x;
pub struct XF64 { pub id: int }
pub uninterp spec fn x_f64_lit(text: Seq<u8>) -> XF64;
// ---- field data with the text of each part
pub struct TagRef(pub Seq<u8>);
pub struct OccurrenceRef(pub Seq<u8>);
pub struct SubfieldCode(pub char);
pub struct SubfieldRef(pub SubfieldCode, pub Seq<u8>);
pub struct FieldRef { pub tag: TagRef, pub occurrence: Option<OccurrenceRef>, pub subfields: Seq<SubfieldRef> }
pub struct RecordRef(pub Seq<FieldRef>);
pub open spec fn sf_bytes(s: SubfieldRef) -> Seq<u8> { seq![0x1fu8, s.0.as_byte()] + s.1 }
impl TagRef {
    pub open spec fn text(self) -> Seq<u8> { self.0 }
    pub open spec fn x_display(self) -> Seq<u8> { self.0 }
    pub open spec fn to_string(self) -> Seq<u8> { self.x_display() }
    /// contracts of write_to: m_codec.rs (C01)
    pub open spec fn write_to(self, w: Sink) -> Sink { w.x_append(self.0) }
//@fn src/primitives/tag.rs TagRef::write_to => code_write_to
//@fn src/primitives/tag.rs Display for TagRef::fmt => code_fmt
}
impl OccurrenceRef {
    pub open spec fn text(self) -> Seq<u8> { seq![47u8] + self.0 }
    pub open spec fn x_display(self) -> Seq<u8> { seq![47u8] + self.0 }
    pub open spec fn to_string(self) -> Seq<u8> { self.x_display() }
    pub open spec fn write_to(self, w: Sink) -> Sink { w.x_append(self.text()) }
//@fn src/primitives/occurrence.rs OccurrenceRef::write_to => code_write_to
//@fn src/primitives/occurrence.rs Display for OccurrenceRef::fmt => code_fmt
}
impl SubfieldCode {
    pub open spec fn x_display(self) -> Seq<u8> { char_utf8(self.0) }
    pub open spec fn to_string(self) -> Seq<u8> { self.x_display() }
    pub open spec fn as_byte(self) -> u8 { x_to_u8(self.0 as int) }
//@fn src/primitives/subfield.rs SubfieldCode::as_byte => code_as_byte
//@fn src/primitives/subfield.rs Display for SubfieldCode::fmt => code_fmt
}
impl SubfieldRef {
    pub open spec fn code(self) -> SubfieldCode { self.0 }
    pub open spec fn value(self) -> Seq<u8> { self.1 }
    pub open spec fn write_to(self, w: Sink) -> Sink { w.x_append(sf_bytes(self)) }
//@fn src/primitives/subfield.rs SubfieldRef::code => code_code
//@fn src/primitives/subfield.rs SubfieldRef::value => code_value
//@fn src/primitives/subfield.rs SubfieldRef::write_to => code_write_to
}
impl FieldRef {
    pub open spec fn tag(self) -> TagRef { self.tag }
    pub open spec fn occurrence(self) -> Option<OccurrenceRef> { self.occurrence }
    pub open spec fn subfields(self) -> Seq<SubfieldRef> { self.subfields }
//@fn src/primitives/field.rs FieldRef::tag => code_tag
//@fn src/primitives/field.rs FieldRef::occurrence => code_occurrence
//@fn src/primitives/field.rs FieldRef::subfields => code_subfields
}
impl RecordRef {
    pub open spec fn fields(self) -> Seq<FieldRef> { self.0 }
//@fn src/primitives/record.rs RecordRef::fields => code_fields
}
proof fn ob_tag_text(t: TagRef, o: Seq<u8>)
    ensures t.code_write_to(o) =~= o + t.text(), t.code_fmt(o) =~= o + t.x_display() { }
proof fn ob_occurrence_text(t: OccurrenceRef, o: Seq<u8>)
    ensures t.code_write_to(o) =~= o + t.text(), t.code_fmt(o) =~= o + t.x_display() { }
proof fn ob_code_text(c: SubfieldCode, o: Seq<u8>)
    ensures c.code_as_byte() == c.as_byte(), c.code_fmt(o) =~= o + c.x_display() { }
proof fn ob_subfield_text(s: SubfieldRef, o: Seq<u8>)
    ensures s.code_code() == s.code(), s.code_value() == s.value(), s.code_write_to(o) =~= o + sf_bytes(s) { }
proof fn ob_field_accessors(f: FieldRef)
    ensures f.code_tag() == f.tag(), f.code_occurrence() == f.occurrence(), f.code_subfields() == f.subfields() { }
proof fn ob_record_accessors(r: RecordRef)
    ensures r.code_fields() == r.fields() { }
}
