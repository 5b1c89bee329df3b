//@newtype TagRef = Seq<u8>
//@newtype Tag = Seq<u8>
//@newtype OccurrenceRef = Seq<u8>
//@newtype Occurrence = Seq<u8>
//@tymap char = u8
//@include prelude.rs
//@include parser.rs
//@include parse_sound.rs
//@include parse_reads.rs
//@include tagocc_m.rs
verus! {
pub uninterp spec fn utf8_ok(s: Seq<u8>) -> bool;
pub open spec fn bytes_str(s: Seq<u8>) -> Result<Seq<u8>, XErr> { if utf8_ok(s) { Ok(s) } else { Err(x_err()) } }
pub trait XText { spec fn to_str(self) -> Result<Seq<u8>, XErr>; }
impl XText for Seq<u8> { open spec fn to_str(self) -> Result<Seq<u8>, XErr> { bytes_str(self) } }
}
//@include tagparse.rs
