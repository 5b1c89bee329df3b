//@include m_record.rs
//@err ReadPicaError
//@mut read_until self 1
//@tymap BufReader = BufR
//@tymap R = BufR
//@tymap Read = BufR
//@path Box::new = x_id
//@tymap Self::ByteItem = Result<ByteRecord, ReadPicaError>
//@tymap Self::StringItem = Result<StringRecord, ReadPicaError>
//@tymap ParsePicaError = XErr
//@tymap Utf8Error = XErr
//@tymap io::Error = XErr
//@path ReaderBuilder::default = ReaderBuilder::x_default
pub mod reader {
use super::*;
use super::record::*;
verus! {
broadcast use group_x;
/// A buffered byte source: the bytes up to the next I/O error, the bytes
/// between that one and the one after it, and so on; the last run of bytes
/// ends at the end of input.  (Contract assumed of std's `BufRead`.)
pub struct BufR { pub segs: Seq<Seq<u8>> }
/// number of bytes up to and including the first `d`, or all
pub open spec fn line_len(s: Seq<u8>, d: u8) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == d { 1 } else { 1 + line_len(s.subrange(1, s.len() as int), d) }
}
pub open spec fn ends_with_byte(s: Seq<u8>, d: u8) -> bool { s.len() > 0 && s.last() == d }
impl BufR {
    pub open spec fn new(r: BufR) -> BufR { r }
    pub open spec fn x_read_until(self, d: u8, buf: Seq<u8>) -> (Result<int, XErr>, BufR, Seq<u8>) {
        if self.segs.len() == 0 { (Ok(0), self, buf) } else {
            let s = self.segs[0];
            let n = line_len(s, d);
            let l = s.subrange(0, n);
            let rest = BufR { segs: self.segs.update(0, s.subrange(n, s.len() as int)) };
            if ends_with_byte(l, d) || self.segs.len() == 1 { (Ok(n), rest, buf + l) }
            else { (Err(x_err()), BufR { segs: self.segs.subrange(1, self.segs.len() as int) }, buf + l) }
        }
    }
}
//@type src/reader.rs ReadPicaError
//@type src/reader.rs Reader
//@type src/reader.rs ReaderBuilder
impl ReaderBuilder { pub open spec fn x_default() -> ReaderBuilder { ReaderBuilder() } }
impl ReadPicaError {
    /// derived by thiserror's `#[from]`
    pub open spec fn x_from(e: XErr) -> ReadPicaError { ReadPicaError::IO(e) }
    pub open spec fn skip_parse_err(self, skip_invalid: bool) -> bool { self is Parse && skip_invalid }
//@fn src/reader.rs ReadPicaError::skip_parse_err => code_skip_parse_err
}
pub open spec fn x_id<T>(t: T) -> T { t }
// the file system, the standard input and gzip; only that each is a function
pub uninterp spec fn stdin() -> BufR;
pub uninterp spec fn file_open(path: Seq<u8>) -> Result<BufR, XErr>;
/// all members of a gzip stream, decompressed
pub uninterp spec fn gunzip_all(r: BufR) -> BufR;
pub uninterp spec fn extension(path: Seq<u8>) -> Option<Seq<u8>>;
pub struct File { } pub struct MultiGzDecoder { } pub struct OsStr { }
impl File { pub open spec fn open(path: Seq<u8>) -> Result<BufR, XErr> { file_open(path) } }
impl MultiGzDecoder { pub open spec fn new(r: BufR) -> BufR { gunzip_all(r) } }
impl OsStr { pub open spec fn to_str(s: Seq<u8>) -> Option<Seq<u8>> { Some(s) } }
impl BufR { pub open spec fn x_lock(self) -> BufR { self } }
pub trait XPath: Sized { spec fn x_extension(self) -> Option<Seq<u8>>; spec fn x_to_str(self) -> Option<Seq<u8>>; }
/// (file names are taken to be UTF-8)
impl XPath for Seq<u8> {
    open spec fn x_extension(self) -> Option<Seq<u8>> { extension(self) }
    open spec fn x_to_str(self) -> Option<Seq<u8>> { Some(self) }
}
impl ReaderBuilder {
    pub open spec fn from_reader(self, reader: BufR, source: Option<Seq<u8>>) -> Reader { Reader::new(self, reader, source) }
    /// contract: `.gz` is decompressed (all members), `-` is the standard input, anything else the file
    pub open spec fn from_path(self, path: Seq<u8>) -> Result<Reader, XErr> {
        if extension(path) == Some(seq![103u8, 122u8]) {
            match file_open(path) { Ok(f) => Ok(Reader::new(self, gunzip_all(f), Some(path))), Err(e) => Err(e) }
        } else if path == seq![45u8] { Ok(Reader::new(self, stdin(), Some(path))) }
        else { match file_open(path) { Ok(f) => Ok(Reader::new(self, f, Some(path))), Err(e) => Err(e) } }
    }
//@fn src/reader.rs ReaderBuilder::from_reader => code_from_reader
//@fn src/reader.rs ReaderBuilder::from_path => code_from_path
}
impl ByteRecord {
    pub open spec fn from_bytes(b: Seq<u8>) -> Result<ByteRecord, XErr> {
        match RecordRef::from_bytes(b) { Ok(r) => Ok(ByteRecord { raw_data: Some(b), record: r }), Err(e) => Err(e) }
    }
}
impl StringRecord {
    pub open spec fn try_from(r: ByteRecord) -> Result<StringRecord, XErr> { if utf8_values(r.record) { Ok(StringRecord(r)) } else { Err(x_err()) } }
}
impl Reader {
    pub open spec fn new(b: ReaderBuilder, reader: BufR, source: Option<Seq<u8>>) -> Reader {
        Reader { inner: reader, source: if source == Some(seq![45u8]) { Some(seq![60u8, 115, 116, 100, 105, 110, 62]) } else { source }, line: 0, buf: Seq::empty() }
    }
    /// contract of one call: the next line is decoded; end of input, I/O
    /// errors and undecodable lines are told apart, and the error of the
    /// latter names the line
    pub open spec fn next_byte_record(self) -> (Option<Result<ByteRecord, ReadPicaError>>, Reader) {
        let (res, inner, buf) = self.inner.x_read_until(10u8, Seq::empty());
        (match res {
            Err(e) => Some(Err(ReadPicaError::IO(e))),
            Ok(n) => if n == 0 { None } else { Some(match ByteRecord::from_bytes(buf) {
                Ok(r) => Ok(r),
                Err(err) => Err(ReadPicaError::Parse { msg: line_msg(self.line + 1, self.source), err }),
            }) },
        }, Reader { inner, source: self.source, line: self.line + 1, buf })
    }
    pub open spec fn next_string_record(self) -> (Option<Result<StringRecord, ReadPicaError>>, Reader) {
        let (r, next) = self.next_byte_record();
        (match r {
            None => None,
            Some(Err(e)) => Some(Err(e)),
            Some(Ok(b)) => Some(match StringRecord::try_from(b) {
                Ok(s) => Ok(s),
                Err(err) => Err(ReadPicaError::Utf8 { msg: line_msg(self.line + 1, None), err }),
            }),
        }, next)
    }
//@fn src/reader.rs Reader::new => code_new
//@fn src/reader.rs RecordsIter for Reader::next_byte_record => code_next_byte_record
//@fn src/reader.rs RecordsIter for Reader::next_string_record => code_next_string_record
}
//@helpers
pub open spec fn text_line() -> Seq<u8> { seq![105u8, 110u8, 118u8, 97u8, 108u8, 105u8, 100u8, 32u8, 114u8, 101u8, 99u8, 111u8, 114u8, 100u8, 32u8, 111u8, 110u8, 32u8, 108u8, 105u8, 110u8, 101u8, 32u8] }
/// "invalid record on line N (source)." or "invalid record on line N."
pub open spec fn line_msg(n: int, source: Option<Seq<u8>>) -> Seq<u8> {
    match source {
        Some(s) => text_line() + int_dec(n) + seq![32u8, 40] + s + seq![41u8, 46],
        None => text_line() + int_dec(n) + seq![46u8],
    }
}
proof fn ob_reader_new(b: ReaderBuilder, reader: BufR, source: Option<Seq<u8>>)
    ensures Reader::code_new(b, reader, source) == Reader::new(b, reader, source), Reader::new(b, reader, source).line == 0, Reader::new(b, reader, source).inner == reader { }
proof fn ob_from_reader(b: ReaderBuilder, reader: BufR, source: Option<Seq<u8>>)
    ensures b.code_from_reader(reader, source) == b.from_reader(reader, source) { }
proof fn ob_from_path(b: ReaderBuilder, path: Seq<u8>)
    ensures b.code_from_path(path) == b.from_path(path) { }
proof fn ob_skip(e: ReadPicaError, skip: bool)
    ensures e.code_skip_parse_err(skip) == e.skip_parse_err(skip) { }
proof fn ob_next_byte(r: Reader)
    ensures r.code_next_byte_record() == r.next_byte_record() { }
proof fn ob_next_string(r: Reader)
    ensures r.code_next_string_record() == r.next_string_record() { }
// ---- the whole history of a reader
/// the lines of a byte string, each with its final newline if it has one
pub open spec fn lines(s: Seq<u8>) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let n = line_len(s, 10);
        if n <= 0 || n > s.len() { Seq::empty() } else { seq![s.subrange(0, n)] + lines(s.subrange(n, s.len() as int)) }
    }
}
pub proof fn lem_line_len(s: Seq<u8>, d: u8)
    ensures 0 <= line_len(s, d) <= s.len(), s.len() > 0 ==> line_len(s, d) > 0,
        forall|i: int| 0 <= i < line_len(s, d) - 1 ==> #[trigger] s[i] != d,
        line_len(s, d) < s.len() ==> s[line_len(s, d) - 1] == d,
    decreases s.len()
{
    if s.len() > 0 && s[0] != d {
        let t = s.subrange(1, s.len() as int);
        lem_line_len(t, d);
        assert forall|i: int| 0 <= i < line_len(s, d) - 1 implies #[trigger] s[i] != d by { if i > 0 { assert(s[i] == t[i - 1]); } }
        if line_len(s, d) < s.len() { assert(s[line_len(s, d) - 1] == t[line_len(t, d) - 1]); }
    }
}
/// the lines partition the input
pub open spec fn flat(ls: Seq<Seq<u8>>) -> Seq<u8> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { ls[0] + flat(ls.subrange(1, ls.len() as int)) }
}
proof fn ob_lines_partition(s: Seq<u8>)
    ensures flat(lines(s)) == s, forall|i: int| 0 <= i < lines(s).len() ==> (#[trigger] lines(s)[i]).len() > 0
    decreases s.len()
{
    if s.len() > 0 {
        lem_line_len(s, 10);
        let n = line_len(s, 10);
        let t = s.subrange(n, s.len() as int);
        ob_lines_partition(t);
        assert(lines(s).subrange(1, lines(s).len() as int) =~= lines(t));
        assert(s.subrange(0, n) + t =~= s);
        assert forall|i: int| 0 <= i < lines(s).len() implies (#[trigger] lines(s)[i]).len() > 0 by { if i > 0 { assert(lines(s)[i] == lines(t)[i - 1]); } }
    } else { assert(lines(s) =~= Seq::empty()); }
}
/// the reader after `k` calls
pub open spec fn after(r: Reader, k: nat) -> Reader decreases k { if k == 0 { r } else { after(r, (k - 1) as nat).next_byte_record().1 } }
/// the result of the k-th call (counted from 0)
pub open spec fn item(r: Reader, k: nat) -> Option<Result<ByteRecord, ReadPicaError>> { after(r, k).next_byte_record().0 }
proof fn lem_after_shift(r: Reader, k: nat)
    requires k > 0
    ensures after(r, k) == after(r.next_byte_record().1, (k - 1) as nat)
    decreases k
{
    reveal_with_fuel(after, 3);
    if k > 1 { lem_after_shift(r, (k - 1) as nat); }
}
/// for every input without I/O errors and every number of calls: the k-th
/// call returns the record of the k-th line if that line decodes, else an
/// error naming it; an undecodable line neither hides nor alters another; past
/// the last line the reader returns nothing
pub proof fn ob_history(r: Reader, k: nat)
    requires r.inner.segs.len() == 1
    ensures ({
        let ls = lines(r.inner.segs[0]);
        item(r, k) == (if k < ls.len() {
            Some(match RecordRef::from_bytes(ls[k as int]) {
                Ok(rec) => Ok(ByteRecord { raw_data: Some(ls[k as int]), record: rec }),
                Err(err) => Err(ReadPicaError::Parse { msg: line_msg(r.line + 1 + k, r.source), err }),
            })
        } else { None })
    }), after(r, k).inner.segs.len() == 1, after(r, k).line == r.line + k, after(r, k).source == r.source
    decreases k
{
    let s = r.inner.segs[0];
    lem_line_len(s, 10);
    let n = line_len(s, 10);
    let r1 = r.next_byte_record().1;
    let t = s.subrange(n, s.len() as int);
    assert(Seq::<u8>::empty() + s.subrange(0, n) =~= s.subrange(0, n));
    assert(r1.inner.segs[0] == t);
    assert(r1.inner.segs.len() == 1);
    if k > 0 {
        lem_after_shift(r, k);
        ob_history(r1, (k - 1) as nat);
        if s.len() > 0 {
            assert(lines(s) == seq![s.subrange(0, n)] + lines(t));
            assert(lines(s).len() == lines(t).len() + 1);
            if k < lines(s).len() { assert(lines(s)[k as int] == lines(t)[k - 1]); }
        } else { assert(t =~= s); }
    }
}
/// an I/O error is reported as such, and is never one that is skipped
proof fn ob_io_error(r: Reader, skip: bool)
    requires r.inner.segs.len() > 1, !r.inner.segs[0].contains(10u8)
    ensures r.next_byte_record().0 is Some, r.next_byte_record().0.unwrap() is Err,
        !r.next_byte_record().0.unwrap()->Err_0.skip_parse_err(skip)
{
    let s = r.inner.segs[0];
    lem_line_len(s, 10);
    let l = s.subrange(0, line_len(s, 10));
    if ends_with_byte(l, 10) { assert(s.contains(s[l.len() - 1])); }
}
}
}
