//@include model.rs
//@include tagocc_m.rs
verus! {
//@type src/record.rs ByteRecord
/// is the field addressed by one of the tag/occurrence predicates?
pub open spec fn listed(p: Seq<(TagMatcher, OccurrenceMatcher)>, f: FieldRef) -> bool {
    exists|i: int| 0 <= i < p.len() && #[trigger] p[i].0.is_match(f.tag) && p[i].1.is_match(f.occurrence)
}
impl RecordRef {
    /// contract: exactly the fields satisfying the predicate stay, in order
    pub open spec fn retain(self, f: spec_fn(FieldRef) -> bool) -> RecordRef { RecordRef(self.0.filter(f)) }
//@fn src/primitives/record.rs RecordRef::retain => code_retain
}
impl ByteRecord {
    /// contract: the fields are filtered and the cached bytes are dropped
    pub open spec fn retain(self, f: spec_fn(FieldRef) -> bool) -> ByteRecord { ByteRecord { raw_data: None, record: self.record.retain(f) } }
    /// contract: keep / discard with a non-empty list; an empty list changes nothing
    pub open spec fn keep(self, p: Seq<(TagMatcher, OccurrenceMatcher)>) -> ByteRecord {
        if p.len() == 0 { self } else { self.retain(|f: FieldRef| listed(p, f)) }
    }
    pub open spec fn discard(self, p: Seq<(TagMatcher, OccurrenceMatcher)>) -> ByteRecord {
        if p.len() == 0 { self } else { self.retain(|f: FieldRef| !listed(p, f)) }
    }
//@fn src/record.rs ByteRecord::retain => code_retain
//@fn src/record.rs ByteRecord::keep => code_keep
//@fn src/record.rs ByteRecord::discard => code_discard
}
//@helpers
proof fn ob_record_retain(r: RecordRef, f: spec_fn(FieldRef) -> bool)
    ensures r.code_retain(f) == r.retain(f) { }
proof fn ob_retain(r: ByteRecord, f: spec_fn(FieldRef) -> bool)
    ensures r.code_retain(f) == r.retain(f) { }
proof fn ob_keep(r: ByteRecord, p: Seq<(TagMatcher, OccurrenceMatcher)>)
    ensures r.code_keep(p) == r.keep(p) { }
proof fn ob_discard(r: ByteRecord, p: Seq<(TagMatcher, OccurrenceMatcher)>)
    ensures r.code_discard(p) == r.discard(p) { }
/// discard followed by keep is filtering by both conditions
proof fn ob_discard_then_keep(r: ByteRecord, d: Seq<(TagMatcher, OccurrenceMatcher)>, k: Seq<(TagMatcher, OccurrenceMatcher)>)
    requires d.len() > 0, k.len() > 0
    ensures r.code_discard(d).code_keep(k).record.0 == r.record.0.filter(|f: FieldRef| !listed(d, f) && listed(k, f)),
        r.code_discard(d).code_keep(k).raw_data is None
{
    ob_discard(r, d); ob_keep(r.discard(d), k);
    lem_filter_filter(r.record.0, |f: FieldRef| !listed(d, f), |f: FieldRef| listed(k, f));
    lem_filter_ext(r.record.0, |f: FieldRef| (|f: FieldRef| !listed(d, f))(f) && (|f: FieldRef| listed(k, f))(f), |f: FieldRef| !listed(d, f) && listed(k, f));
}
}
