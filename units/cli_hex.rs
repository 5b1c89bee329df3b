verus! {
/// lower case hexadecimal text
pub open spec fn hex(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { hex(s.drop_last()) + x_hex2(s.last()) } }
pub broadcast proof fn lem_hex(s: Seq<u8>, f: spec_fn(Seq<u8>, u8) -> Seq<u8>)
    requires forall|o: Seq<u8>, b: u8| #[trigger] f(o, b) == o + x_hex2(b)
    ensures #[trigger] seq_fold(s, Seq::<u8>::empty(), f) == hex(s)
    decreases s.len()
{
    if s.len() > 0 { lem_hex(s.drop_last(), f); }
}
}
