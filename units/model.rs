//@include prelude.rs
//@newtype TagRef = Seq<u8>
//@newtype Tag = Seq<u8>
//@newtype OccurrenceRef = Seq<u8>
//@newtype Occurrence = Seq<u8>
//@newtype SubfieldValueRef = Seq<u8>
//@newtype SubfieldValue = Seq<u8>
//@newtype SubfieldCode = char
//@tymap f64 = XF64
verus! {
broadcast use group_x;

// ---- floating point: opaque values with an uninterpreted strict order
pub struct XF64 { pub id: int }
/// the value of a literal
pub uninterp spec fn x_f64_lit(text: Seq<u8>) -> XF64;
pub uninterp spec fn f64_gt(a: XF64, b: XF64) -> bool;
pub uninterp spec fn f64_ge(a: XF64, b: XF64) -> bool;
impl XOrd for XF64 {
    open spec fn x_lt(self, r: XF64) -> bool { f64_gt(r, self) }
    open spec fn x_le(self, r: XF64) -> bool { f64_ge(r, self) }
    open spec fn x_gt(self, r: XF64) -> bool { f64_gt(self, r) }
    open spec fn x_ge(self, r: XF64) -> bool { f64_ge(self, r) }
}

// ---- field data as the user sees it
pub struct SubfieldRef(pub char, pub Seq<u8>);
pub struct FieldRef { pub tag: Seq<u8>, pub occurrence: Option<Seq<u8>>, pub subfields: Seq<SubfieldRef> }
pub struct RecordRef(pub Seq<FieldRef>);

// contracts of the accessors
impl SubfieldRef {
    pub open spec fn code(self) -> char { self.0 }
    pub open spec fn value(self) -> Seq<u8> { self.1 }
}
impl FieldRef {
    pub open spec fn tag(self) -> Seq<u8> { self.tag }
    pub open spec fn occurrence(self) -> Option<Seq<u8>> { self.occurrence }
    pub open spec fn subfields(self) -> Seq<SubfieldRef> { self.subfields }
}
impl RecordRef {
    pub open spec fn fields(self) -> Seq<FieldRef> { self.0 }
    pub open spec fn is_empty(self) -> bool { self.0.len() == 0 }
    pub open spec fn upd_0(self, v: Seq<FieldRef>) -> RecordRef { RecordRef(v) }
}
// the accessors' real bodies
impl SubfieldRef {
//@fn src/primitives/subfield.rs SubfieldRef::code => code_code
//@fn src/primitives/subfield.rs SubfieldRef::value => code_value
}
impl FieldRef {
//@fn src/primitives/field.rs FieldRef::tag => code_tag
//@fn src/primitives/field.rs FieldRef::occurrence => code_occurrence
//@fn src/primitives/field.rs FieldRef::subfields => code_subfields
}
impl RecordRef {
//@fn src/primitives/record.rs RecordRef::fields => code_fields
}
proof fn ob_subfield_accessors(s: SubfieldRef)
    ensures s.code_code() == s.code(), s.code_value() == s.value() { }
proof fn ob_field_accessors(f: FieldRef)
    ensures f.code_tag() == f.tag(), f.code_occurrence() == f.occurrence(), f.code_subfields() == f.subfields() { }
proof fn ob_record_accessors(r: RecordRef)
    ensures r.code_fields() == r.fields() { }
}
