//@include m_codec.rs
//@include record_m.rs
//@tymap H = HState
//@tymap Self::Target = RecordRef
pub mod record {
use super::*;
use super::codec::*;
verus! {
broadcast use group_x;
//@type src/record.rs ByteRecord
//@type src/record.rs StringRecord
/// the bytes of every record are the ones of its fields
pub open spec fn utf8_values(r: RecordRef) -> bool {
    forall|i: int, j: int| 0 <= i < r.0.len() && 0 <= j < r.0[i].subfields.len() ==> utf8_ok(#[trigger] r.0[i].subfields[j].1.0)
}
impl RecordRef {
    /// contract (proved for the parser, ob_record_sound / ob_record_complete)
    pub open spec fn from_bytes(b: Seq<u8>) -> Result<RecordRef, XErr> {
        if exists|r: RecordRef| r.wf() && r.0.len() > 0 && b == #[trigger] record_bytes(r) {
            Ok(choose|r: RecordRef| r.wf() && r.0.len() > 0 && b == #[trigger] record_bytes(r))
        } else { Err(x_err()) }
    }
    pub open spec fn retain(self, f: spec_fn(FieldRef) -> bool) -> RecordRef { RecordRef(self.0.filter(f)) }
    pub open spec fn validate(self) -> Result<(), XErr> { if utf8_values(self) { Ok(()) } else { Err(x_err()) } }
//@fn src/primitives/record.rs RecordRef::retain => code_retain
//@fn src/primitives/record.rs RecordRef::validate => code_validate
}
impl FieldRef {
    pub open spec fn validate(self) -> Result<(), XErr> {
        if forall|j: int| 0 <= j < self.subfields.len() ==> utf8_ok(#[trigger] self.subfields[j].1.0) { Ok(()) } else { Err(x_err()) }
    }
//@fn src/primitives/field.rs FieldRef::validate => code_validate
}
impl SubfieldRef {
    pub open spec fn validate(self) -> Result<(), XErr> { if utf8_ok(self.1.0) { Ok(()) } else { Err(x_err()) } }
//@fn src/primitives/subfield.rs SubfieldRef::validate => code_validate
}
impl ByteRecord {
    /// invariant: cached bytes are the bytes of the fields
    pub open spec fn inv(self) -> bool {
        self.raw_data is Some ==> self.record.wf() && self.record.0.len() > 0 && self.raw_data.unwrap() == record_bytes(self.record)
    }
    /// the bytes of a record are a function of its fields alone
    pub open spec fn bytes(self) -> Seq<u8> { record_bytes(self.record) }
    pub open spec fn write_to(self, out: Seq<u8>) -> Seq<u8> {
        match self.raw_data { Some(d) => out + d, None => self.record.write_to(out) }
    }
    pub open spec fn validate(self) -> Result<(), XErr> { self.record.validate() }
    pub open spec fn retain(self, f: spec_fn(FieldRef) -> bool) -> ByteRecord { ByteRecord { raw_data: None, record: self.record.retain(f) } }
//@fn src/record.rs ByteRecord::from_bytes => code_from_bytes
//@fn src/record.rs ByteRecord::write_to => code_write_to
//@fn src/record.rs ByteRecord::retain => code_retain
//@fn src/record.rs ByteRecord::sha256 => code_sha256
//@fn src/record.rs Deref for ByteRecord::deref => code_deref
//@fn src/record.rs DerefMut for ByteRecord::deref_mut => code_deref_mut
//@fn src/record.rs PartialEq<ByteRecord> for ByteRecord::eq => code_eq
//@fn src/record.rs From<RecordRef> for ByteRecord::from => code_from
//@fn src/record.rs Hash for ByteRecord::hash => code_hash
}
impl StringRecord {
//@fn src/record.rs TryFrom<ByteRecord> for StringRecord::try_from => code_try_from
}
//@helpers
proof fn ob_parse_exact(b: Seq<u8>)
    ensures RecordRef::code_from_bytes(b) == RecordRef::from_bytes(b)
{
    ob_record_sound(b);
    if exists|r: RecordRef| r.wf() && r.0.len() > 0 && b == #[trigger] record_bytes(r) {
        let r = choose|r: RecordRef| r.wf() && r.0.len() > 0 && b == #[trigger] record_bytes(r);
        ob_record_complete(r);
    } else if let Ok(r) = RecordRef::code_from_bytes(b) { assert(b == record_bytes(r)); }
}
/// different well-formed records have different bytes
proof fn lem_bytes_injective(a: RecordRef, b: RecordRef)
    requires a.wf(), b.wf(), a.0.len() > 0, b.0.len() > 0, record_bytes(a) == record_bytes(b)
    ensures a == b
{ ob_record_complete(a); ob_record_complete(b); }
/// decoding: the record of the bytes, with the invariant established
proof fn ob_from_bytes(b: Seq<u8>)
    ensures match ByteRecord::code_from_bytes(b) {
        Ok(r) => r.inv() && RecordRef::from_bytes(b) == Ok::<RecordRef, XErr>(r.record) && r.bytes() == b,
        Err(_) => RecordRef::from_bytes(b) is Err,
    }
{ }
/// what is written depends on the fields alone
proof fn ob_write_to(r: ByteRecord, out: Seq<u8>)
    requires r.inv()
    ensures r.code_write_to(out) == r.write_to(out), r.write_to(out) == out + r.bytes() { }
proof fn ob_record_retain(r: RecordRef, f: spec_fn(FieldRef) -> bool)
    ensures r.code_retain(f) == r.retain(f) { }
/// every mutation re-establishes the invariant
proof fn ob_retain(r: ByteRecord, f: spec_fn(FieldRef) -> bool)
    ensures r.code_retain(f) == r.retain(f), r.code_retain(f).inv(), r.code_retain(f).bytes() == record_bytes(RecordRef(r.record.0.filter(f))) { }
/// a mutable borrow of the fields: whatever is stored through it, the
/// invariant holds for the record that results
proof fn ob_deref_mut(r: ByteRecord, stored: RecordRef)
    ensures r.code_deref_mut().0 == r.record, r.code_deref_mut().1.record == r.record,
        r.code_deref_mut().1.upd_record(stored).inv() { }
proof fn ob_deref(r: ByteRecord) ensures r.code_deref() == r.record { }
proof fn ob_from_record(r: RecordRef)
    ensures ByteRecord::code_from(r).inv(), ByteRecord::code_from(r).record == r { }
/// two records are equal exactly when their fields are
proof fn ob_eq(a: ByteRecord, b: ByteRecord)
    requires a.inv(), b.inv()
    ensures a.code_eq(b) == (a.record == b.record)
{ if a.raw_data is Some && b.raw_data is Some && a.bytes() == b.bytes() { lem_bytes_injective(a.record, b.record); } }
/// equal records hash equally, whatever the history
proof fn ob_hash(r: ByteRecord, s: HState)
    requires r.inv()
    ensures r.code_hash(s) == feed(s, r.bytes())
{ assert(Seq::<u8>::empty() + r.bytes() =~= r.bytes()); }
/// the digest is the digest of the bytes
proof fn ob_sha256(r: ByteRecord)
    requires r.inv()
    ensures r.code_sha256() == digest(r.bytes())
{ assert(Seq::<u8>::empty() + r.bytes() =~= r.bytes()); assert(Seq::<u8>::empty() + (Seq::<u8>::empty() + r.bytes()) =~= r.bytes()); }
/// UTF-8 validity
proof fn ob_validate_subfield(s: SubfieldRef)
    ensures s.code_validate() == s.validate()
{ if is_ascii(s.1.0) { lem_ascii_utf8(s.1.0); } }
proof fn lem_for_validate_sf(s: Seq<SubfieldRef>)
    ensures forall|f: spec_fn((), SubfieldRef) -> Ctl<(), Result<(), XErr>>| (forall|x: SubfieldRef| #[trigger] f((), x) == (if utf8_ok(x.1.0) { Ctl::Next(()) } else { Ctl::Ret(Err(x_err())) }))
        ==> #[trigger] seq_for(s, (), f) == (if forall|j: int| 0 <= j < s.len() ==> utf8_ok((#[trigger] s[j]).1.0) { Ctl::Next(()) } else { Ctl::Ret(Err(x_err())) })
{
    let p = |x: SubfieldRef| utf8_ok(x.1.0);
    assert forall|f: spec_fn((), SubfieldRef) -> Ctl<(), Result<(), XErr>>| (forall|x: SubfieldRef| #[trigger] f((), x) == (if utf8_ok(x.1.0) { Ctl::Next(()) } else { Ctl::Ret(Err(x_err())) }))
        implies #[trigger] seq_for(s, (), f) == (if forall|j: int| 0 <= j < s.len() ==> utf8_ok((#[trigger] s[j]).1.0) { Ctl::Next(()) } else { Ctl::Ret(Err(x_err())) }) by {
        lem_for_all(s, f, p, Err(x_err()));
    }
}
proof fn ob_validate_field(x: FieldRef)
    ensures x.code_validate() == x.validate()
{ lem_for_validate_sf(x.subfields); }
proof fn lem_for_validate_f(s: Seq<FieldRef>)
    ensures forall|f: spec_fn((), FieldRef) -> Ctl<(), Result<(), XErr>>| (forall|x: FieldRef| #[trigger] f((), x) == (if x.validate() is Ok { Ctl::Next(()) } else { Ctl::Ret(Err(x_err())) }))
        ==> #[trigger] seq_for(s, (), f) == (if forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).validate() is Ok { Ctl::Next(()) } else { Ctl::Ret(Err(x_err())) })
{
    let p = |x: FieldRef| x.validate() is Ok;
    assert forall|f: spec_fn((), FieldRef) -> Ctl<(), Result<(), XErr>>| (forall|x: FieldRef| #[trigger] f((), x) == (if x.validate() is Ok { Ctl::Next(()) } else { Ctl::Ret(Err(x_err())) }))
        implies #[trigger] seq_for(s, (), f) == (if forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).validate() is Ok { Ctl::Next(()) } else { Ctl::Ret(Err(x_err())) }) by {
        lem_for_all(s, f, p, Err(x_err()));
    }
}
proof fn ob_validate_record(x: RecordRef)
    ensures x.code_validate() == x.validate()
{
    lem_for_validate_f(x.0);
    assert(utf8_values(x) == forall|j: int| 0 <= j < x.0.len() ==> (#[trigger] x.0[j]).validate() is Ok) by {
        if forall|j: int| 0 <= j < x.0.len() ==> (#[trigger] x.0[j]).validate() is Ok {
            assert forall|i: int, j: int| 0 <= i < x.0.len() && 0 <= j < x.0[i].subfields.len() implies utf8_ok(#[trigger] x.0[i].subfields[j].1.0) by { assert(x.0[i].validate() is Ok); }
        }
        if utf8_values(x) { assert forall|j: int| 0 <= j < x.0.len() implies (#[trigger] x.0[j]).validate() is Ok by { } }
    }
}
/// a string record is built exactly from the records whose values are UTF-8
proof fn ob_string_record(r: ByteRecord)
    ensures StringRecord::code_try_from(r) == (if utf8_values(r.record) { Ok(StringRecord(r)) } else { Err(x_err()) }) { }
}
}
