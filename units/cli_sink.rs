//@nomut truncate append
//@mut flush self
//@mut write_record self
verus! {
// ---- text output: everything written to one destination, in order (write
// errors are not modelled)
pub struct Sink { pub dest: Option<Seq<u8>>, pub append: bool, pub out: Seq<u8>, pub done: bool }
impl Sink {
    pub open spec fn x_append(self, s: Seq<u8>) -> Sink { Sink { out: self.out + s, ..self } }
    pub open spec fn x_write_all(self, s: Seq<u8>) -> Sink { self.x_append(s) }
    pub open spec fn x_flush(self) -> Sink { Sink { done: true, ..self } }
    pub open spec fn lock(self) -> Sink { self }
    /// a buffer in front of it
    pub open spec fn new(s: Sink) -> Sink { s }
}
pub open spec fn stdout() -> Sink { Sink { dest: None, append: false, out: Seq::empty(), done: false } }
pub open spec fn sink(dest: Option<Seq<u8>>, append: bool) -> Result<Sink, XErr> {
    match dest { None => Ok(stdout()), Some(p) => if can_open(dest, append) { Ok(Sink { dest, append, out: Seq::empty(), done: false }) } else { Err(x_err()) } }
}
/// the same output text on the same destination
pub open spec fn same_sink(a: Sink, b: Sink) -> bool { a.dest == b.dest && a.append == b.append && a.done == b.done && a.out =~= b.out }
pub struct OpenOptions { pub write: bool, pub create: bool, pub truncate: bool, pub append: bool }
impl OpenOptions {
    pub open spec fn new() -> OpenOptions { OpenOptions { write: false, create: false, truncate: false, append: false } }
    pub open spec fn write(self, b: bool) -> OpenOptions { OpenOptions { write: b, ..self } }
    pub open spec fn create(self, b: bool) -> OpenOptions { OpenOptions { create: b, ..self } }
    pub open spec fn x_truncate(self, b: bool) -> OpenOptions { OpenOptions { truncate: b, ..self } }
    pub open spec fn x_append(self, b: bool) -> OpenOptions { OpenOptions { append: b, ..self } }
    /// a file opened for writing either replaces its content or appends to it;
    /// nothing is known of other combinations
    pub open spec fn open_v(self, p: Seq<u8>) -> Result<Sink, XErr> {
        if self.write && self.create && self.truncate == !self.append { sink(Some(p), self.append) } else { x_open_other(self, p) }
    }
}
pub uninterp spec fn x_open_other(o: OpenOptions, p: Seq<u8>) -> Result<Sink, XErr>;
pub struct File { }
impl File { pub open spec fn create(p: Seq<u8>) -> Result<Sink, XErr> { sink(Some(p), false) } }
}
//@path io::stdout = stdout
//@tymap BufWriter = Sink
//@tymap Write = Sink
//@ret OpenOptions::open = Result<Sink, XErr>
//@ret File::create = Result<Sink, XErr>
