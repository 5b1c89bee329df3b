// records with cached bytes
//@path Cursor::new = cursor_new
//@path std::str::from_utf8 = x_from_utf8
//@path str::from_utf8 = x_from_utf8
verus! {
pub open spec fn cursor_new(b: Seq<u8>) -> Seq<u8> { b }
/// well-formed UTF-8 (Unicode Standard, table 3-7)
pub open spec fn cont(c: u8) -> bool { 0x80 <= c <= 0xbf }
pub open spec fn utf8_ok(s: Seq<u8>) -> bool decreases s.len() {
    if s.len() == 0 { true }
    else if s[0] < 0x80 { utf8_ok(s.subrange(1, s.len() as int)) }
    else if 0xc2 <= s[0] <= 0xdf { s.len() >= 2 && cont(s[1]) && utf8_ok(s.subrange(2, s.len() as int)) }
    else if 0xe0 <= s[0] <= 0xef {
        s.len() >= 3 && cont(s[1]) && cont(s[2]) && (s[0] == 0xe0 ==> s[1] >= 0xa0) && (s[0] == 0xed ==> s[1] <= 0x9f)
            && utf8_ok(s.subrange(3, s.len() as int))
    } else if 0xf0 <= s[0] <= 0xf4 {
        s.len() >= 4 && cont(s[1]) && cont(s[2]) && cont(s[3]) && (s[0] == 0xf0 ==> s[1] >= 0x90) && (s[0] == 0xf4 ==> s[1] <= 0x8f)
            && utf8_ok(s.subrange(4, s.len() as int))
    } else { false }
}
pub open spec fn x_from_utf8<T: XB>(t: T) -> Result<Seq<u8>, XErr> { let s = t.x_b(); if utf8_ok(s) { Ok(s) } else { Err(x_err()) } }
pub trait XB: Sized { spec fn x_b(self) -> Seq<u8>; }
impl XB for Seq<u8> { open spec fn x_b(self) -> Seq<u8> { self } }
impl XB for SubfieldValueRef { open spec fn x_b(self) -> Seq<u8> { self.0 } }
pub open spec fn is_ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 }
pub trait XAscii: Sized { spec fn x_is_ascii(self) -> bool; }
impl XAscii for Seq<u8> { open spec fn x_is_ascii(self) -> bool { is_ascii(self) } }
pub proof fn lem_ascii_utf8(s: Seq<u8>)
    requires is_ascii(s)
    ensures utf8_ok(s)
    decreases s.len()
{ if s.len() > 0 { assert(s[0] < 0x80); let t = s.subrange(1, s.len() as int); assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 0x80 by { assert(t[i] == s[i + 1]); } lem_ascii_utf8(t); } }
/// feeding bytes to a hasher; only that it is a function of state and bytes
pub uninterp spec fn feed(state: HState, b: Seq<u8>) -> HState;
pub struct HState { pub s: int }
pub trait XHash: Sized { spec fn x_hash(self, state: HState) -> HState; }
impl XHash for Seq<u8> { open spec fn x_hash(self, state: HState) -> HState { feed(state, self) } }
/// the digest of a byte string; only that it is a function of the bytes
pub uninterp spec fn digest(b: Seq<u8>) -> Seq<u8>;
pub trait XUpdate: Sized { spec fn x_update(self, b: Seq<u8>) -> Self; }
pub struct Sha256 { pub data: Seq<u8> }
impl XUpdate for Sha256 { open spec fn x_update(self, b: Seq<u8>) -> Sha256 { Sha256 { data: self.data + b } } }
impl Sha256 {
    pub open spec fn new() -> Sha256 { Sha256 { data: Seq::empty() } }
    pub open spec fn finalize(self) -> Seq<u8> { digest(self.data) }
}
/// a loop that leaves with `r` at the first element that fails
pub proof fn lem_for_all<T, R>(s: Seq<T>, f: spec_fn((), T) -> Ctl<(), R>, p: spec_fn(T) -> bool, r: R)
    requires forall|x: T| #[trigger] f((), x) == (if p(x) { Ctl::Next(()) } else { Ctl::Ret(r) })
    ensures seq_for(s, (), f) == (if forall|j: int| 0 <= j < s.len() ==> p(#[trigger] s[j]) { Ctl::Next(()) } else { Ctl::Ret(r) })
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        lem_for_all(t, f, p, r);
        assert(f((), s[0]) == (if p(s[0]) { Ctl::Next(()) } else { Ctl::Ret(r) }));
        if forall|j: int| 0 <= j < t.len() ==> p(#[trigger] t[j]) {
            if p(s[0]) { assert forall|j: int| 0 <= j < s.len() implies p(#[trigger] s[j]) by { if j > 0 { assert(s[j] == t[j - 1]); } } }
        } else {
            let j = choose|j: int| 0 <= j < t.len() && !p(#[trigger] t[j]);
            assert(s[j + 1] == t[j]);
        }
    }
}
}
