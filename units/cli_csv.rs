//@ret CsvBuilder::from_writer = CsvWriter
//@ret CsvBuilder::delimiter = CsvBuilder
//@ret CsvBuilder::quote_style = CsvBuilder
//@ret CsvBuilder::flexible = CsvBuilder
//@ret WriterBuilder::new = CsvBuilder
//@ret csv_builder = CsvBuilder
//@ret split = Seq<Seq<u8>>
verus! {
/// the parts of a text between separators
pub trait XSplit: Sized { spec fn split(self, c: char) -> Seq<Seq<u8>>; }
impl XSplit for Seq<u8> { uninterp spec fn split(self, c: char) -> Seq<Seq<u8>>; }
// ---- CSV output: the rows written, in order; their text form is the csv
// crate's and is not modelled
pub enum QuoteStyle { Always, Necessary, NonNumeric, Never }
pub struct CsvBuilder { pub delim: u8, pub quote: Option<QuoteStyle> }
pub struct CsvWriter { pub sink: Sink, pub delim: u8, pub quote: Option<QuoteStyle>, pub rows: Seq<Seq<Seq<u8>>>, pub done: bool }
pub open spec fn csv_builder() -> CsvBuilder { CsvBuilder { delim: 44u8, quote: None } }
impl CsvBuilder {
    pub open spec fn delimiter(self, d: u8) -> CsvBuilder { CsvBuilder { delim: d, ..self } }
    pub open spec fn quote_style(self, q: QuoteStyle) -> CsvBuilder { CsvBuilder { quote: Some(q), ..self } }
    pub open spec fn from_writer(self, s: Sink) -> CsvWriter { CsvWriter { sink: s, delim: self.delim, quote: self.quote, rows: Seq::empty(), done: false } }
}
impl CsvWriter {
    pub open spec fn write_record(self, r: Seq<Seq<u8>>) -> CsvWriter { CsvWriter { rows: self.rows.push(r), ..self } }
    pub open spec fn x_flush(self) -> CsvWriter { CsvWriter { done: true, ..self } }
    pub open spec fn with(self, s: Seq<Seq<Seq<u8>>>) -> CsvWriter { CsvWriter { rows: self.rows + s, ..self } }
}
}
