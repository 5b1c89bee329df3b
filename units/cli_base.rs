//@tymap Path = PicaPath
//@tymap CliResult = Result<(), XErr>
//@tymap NormalizationForm = NormForm
//@tymap ByteRecordWrite = Writer
//@drop Progress
//@iter next_byte_record
//@path Box::new = x_id
//@ret translit = spec_fn(Seq<u8>) -> Seq<u8>
//@mut write_byte_record self
//@mut finish self
//@ret ReaderBuilder::from_path = Result<Reader, XErr>
//@ret Reader::next_byte_record_items = Seq<Result<ByteRecord, ReadPicaError>>
//@ret ByteRecord::ppn = Option<Seq<u8>>
//@ret ByteRecord::sha256 = Seq<u8>
//@ret ByteRecord::path = Seq<Seq<u8>>
//@nomut check append
verus! {
pub open spec fn x_id<T>(t: T) -> T { t }
// ---- what the commands call, by contract; each of these is either proved of
// the code in another unit (records: C02, C12; reader: C03; matcher: C06, C07;
// path: C09; query: C10) or an input of the run
pub struct ByteRecord { pub id: int, pub record: RecordRef }
pub struct ReadPicaError { pub parse: bool }
impl ReadPicaError {
    /// contract proved in m_reader.rs
    pub open spec fn skip_parse_err(self, skip_invalid: bool) -> bool { self.parse && skip_invalid }
}
/// what reading a source yields, item by item
pub type Item = Result<ByteRecord, ReadPicaError>;
/// the items of a source, or why it cannot be opened
pub uninterp spec fn source(path: Seq<u8>) -> Result<Seq<Item>, XErr>;
pub struct ReaderBuilder { }
pub struct Reader { pub items: Seq<Item> }
impl ReaderBuilder {
    pub open spec fn new() -> ReaderBuilder { ReaderBuilder { } }
    pub open spec fn from_path(self, path: Seq<u8>) -> Result<Reader, XErr> {
        match source(path) { Ok(items) => Ok(Reader { items }), Err(e) => Err(e) }
    }
}
impl Reader { pub open spec fn next_byte_record_items(self) -> Seq<Item> { self.items } }
pub struct TagMatcher { pub id: int }
pub struct OccurrenceMatcher { pub id: int }
pub struct PicaPath { pub id: int }
impl PicaPath { pub uninterp spec fn new(s: Seq<u8>) -> Result<PicaPath, XErr>; }
//@type crates/pica-cli/src/translit.rs NormalizationForm NormForm
/// the text transformation of a normal form
pub uninterp spec fn translit(nf: Option<NormForm>) -> spec_fn(Seq<u8>) -> Seq<u8>;
pub struct MatcherOptions { pub strsim: XF64, pub ignore: bool }
impl MatcherOptions {
    pub uninterp spec fn x_default() -> MatcherOptions;
    pub open spec fn new() -> MatcherOptions { MatcherOptions::x_default() }
    pub open spec fn strsim_threshold(self, t: XF64) -> MatcherOptions { MatcherOptions { strsim: t, ..self } }
    pub open spec fn case_ignore(self, b: bool) -> MatcherOptions { MatcherOptions { ignore: b, ..self } }
}
pub uninterp spec fn x_to_f64(i: int) -> XF64;
pub uninterp spec fn f64_div(a: XF64, b: XF64) -> XF64;
pub struct RecordMatcher { pub id: int }
pub struct RecordMatcherBuilder { pub id: int }
impl RecordMatcherBuilder {
    pub uninterp spec fn with_transform(s: Seq<u8>, f: spec_fn(Seq<u8>) -> Seq<u8>) -> Result<RecordMatcherBuilder, XErr>;
    pub uninterp spec fn and(self, v: Seq<Seq<u8>>) -> Result<RecordMatcherBuilder, XErr>;
    pub uninterp spec fn or(self, v: Seq<Seq<u8>>) -> Result<RecordMatcherBuilder, XErr>;
    pub uninterp spec fn not(self, v: Seq<Seq<u8>>) -> Result<RecordMatcherBuilder, XErr>;
    pub uninterp spec fn build(self) -> RecordMatcher;
}
impl RecordMatcher { pub uninterp spec fn is_match(self, r: ByteRecord, o: MatcherOptions) -> bool; }
pub open spec fn hex_digit(d: int) -> u8 { if d < 10 { (48 + d) as u8 } else { (87 + d) as u8 } }
/// `{:02x}`
pub open spec fn x_hex2(b: u8) -> Seq<u8> { seq![hex_digit(b as int / 16), hex_digit(b as int % 16)] }
impl ByteRecord {
    pub uninterp spec fn ppn(self) -> Option<Seq<u8>>;
    pub uninterp spec fn sha256(self) -> Seq<u8>;
    pub uninterp spec fn path(self, p: PicaPath, o: MatcherOptions) -> Seq<Seq<u8>>;
    pub uninterp spec fn keep(self, p: Seq<(TagMatcher, OccurrenceMatcher)>) -> ByteRecord;
    pub uninterp spec fn discard(self, p: Seq<(TagMatcher, OccurrenceMatcher)>) -> ByteRecord;
}
pub uninterp spec fn parse_predicates(p: Option<Seq<u8>>) -> Result<Seq<(TagMatcher, OccurrenceMatcher)>, XErr>;
pub uninterp spec fn read_to_string(p: Seq<u8>) -> Result<Seq<u8>, XErr>;
/// the values of the allow- or deny-lists
pub uninterp spec fn read_filter_list(paths: Seq<Seq<u8>>, column: Option<Seq<u8>>) -> Result<Option<Set<Seq<u8>>>, XErr>;

/// `Vec::insert`
pub trait XInsertAt<T>: Sized { spec fn x_insert(self, i: int, x: T) -> ((), Seq<T>); }
impl<T> XInsertAt<T> for Seq<T> { open spec fn x_insert(self, i: int, x: T) -> ((), Seq<T>) { ((), self.insert(i, x)) } }
// ---- output: everything written to one destination, in order (write errors
// are not modelled)
pub struct Writer { pub gzip: bool, pub append: bool, pub dest: Option<Seq<u8>>, pub out: Seq<ByteRecord>, pub done: bool }
pub uninterp spec fn can_open(dest: Option<Seq<u8>>, append: bool) -> bool;
pub open spec fn open_writer(dest: Option<Seq<u8>>, gzip: bool, append: bool) -> Result<Writer, XErr> {
    if can_open(dest, append) { Ok(Writer { gzip, append, dest, out: Seq::empty(), done: false }) } else { Err(x_err()) }
}
impl Writer {
    pub open spec fn write_byte_record(self, r: ByteRecord) -> Writer { Writer { out: self.out.push(r), ..self } }
    pub open spec fn finish(self) -> Writer { Writer { done: true, ..self } }
    pub open spec fn with(self, s: Seq<ByteRecord>) -> Writer { Writer { out: self.out + s, ..self } }
}
//@type crates/pica-cli/src/config.rs Config
//@type src/writer.rs WriterBuilder
impl WriterBuilder {
    pub open spec fn new() -> WriterBuilder { WriterBuilder { gzip: false, append: false } }
    pub open spec fn gzip(self, v: bool) -> WriterBuilder { WriterBuilder { gzip: v, ..self } }
    pub open spec fn append(self, v: bool) -> WriterBuilder { WriterBuilder { append: v, ..self } }
    pub open spec fn from_path(self, p: Seq<u8>) -> Result<Writer, XErr> { open_writer(Some(p), self.gzip, self.append) }
    pub open spec fn from_path_or_stdout(self, p: Option<Seq<u8>>) -> Result<Writer, XErr> { open_writer(p, self.gzip, self.append) }
}
}
//@include cli_rule.rs
