//@include cli_w.rs
//@include cli_sink.rs
//@tymap ByteRecordWrite = DynWriter
//@path WriterBuilder::new = dyn_builder
//@path Box::new = x_box
//@ret DynBuilder::from_path_or_stdout = Result<DynWriter, XErr>
//@ret XmlWriter::new = Result<XmlWriter, XErr>
//@path serde_json::Value::String = Value::String
//@path serde_json::Value::Array = Value::Array
//@path serde_json::Value::Null = Value::Null
//@tymap CliError = XErr
//@tymap serde_json::Value = Value
verus! {
//@type crates/pica-cli/src/commands/convert/mod.rs Format
//@type crates/pica-cli/src/commands/convert/mod.rs Convert
//@type crates/pica-cli/src/commands/convert/binary.rs BinaryWriter
//@type crates/pica-cli/src/commands/convert/import.rs ImportWriter
//@type crates/pica-cli/src/commands/convert/plain.rs PlainWriter
//@type crates/pica-cli/src/commands/convert/json.rs JsonWriter
/// the writer for xml: not under contract
pub struct XmlWriter { pub id: int }
impl XmlWriter {
    pub uninterp spec fn new(o: Option<Seq<u8>>) -> Result<XmlWriter, XErr>;
    pub uninterp spec fn write_byte_record(self, r: ByteRecord) -> XmlWriter;
    pub uninterp spec fn finish(self) -> XmlWriter;
}
/// a json value and its text (serde_json)
pub enum Value { Null, String(Seq<u8>), Array(Seq<Value>) }
impl Value { pub uninterp spec fn x_display(self) -> Seq<u8>; }
pub trait XBox: Sized { type T; spec fn x_boxed(self) -> Self::T; }
pub open spec fn x_box<B: XBox>(b: B) -> B::T { b.x_boxed() }
impl XBox for Sink { type T = Sink; open spec fn x_boxed(self) -> Sink { self } }
impl XBox for BinaryWriter { type T = DynWriter; open spec fn x_boxed(self) -> DynWriter { DynWriter::Binary(self) } }
impl XBox for ImportWriter { type T = DynWriter; open spec fn x_boxed(self) -> DynWriter { DynWriter::Import(self) } }
impl XBox for PlainWriter { type T = DynWriter; open spec fn x_boxed(self) -> DynWriter { DynWriter::Plain(self) } }
impl XBox for JsonWriter { type T = DynWriter; open spec fn x_boxed(self) -> DynWriter { DynWriter::Json(self) } }
impl XBox for XmlWriter { type T = DynWriter; open spec fn x_boxed(self) -> DynWriter { DynWriter::Xml(self) } }
pub enum DynWriter { Plus(Writer), Binary(BinaryWriter), Import(ImportWriter), Plain(PlainWriter), Json(JsonWriter), Xml(XmlWriter) }
impl DynWriter {
    pub open spec fn write_byte_record(self, r: ByteRecord) -> DynWriter {
        match self {
            DynWriter::Plus(w) => DynWriter::Plus(w.write_byte_record(r)), DynWriter::Binary(w) => DynWriter::Binary(w.write_byte_record(r)),
            DynWriter::Import(w) => DynWriter::Import(w.write_byte_record(r)), DynWriter::Plain(w) => DynWriter::Plain(w.write_byte_record(r)),
            DynWriter::Json(w) => DynWriter::Json(w.write_byte_record(r)), DynWriter::Xml(w) => DynWriter::Xml(w.write_byte_record(r)),
        }
    }
    pub open spec fn finish(self) -> DynWriter {
        match self {
            DynWriter::Plus(w) => DynWriter::Plus(w.finish()), DynWriter::Binary(w) => DynWriter::Binary(w.finish()),
            DynWriter::Import(w) => DynWriter::Import(w.finish()), DynWriter::Plain(w) => DynWriter::Plain(w.finish()),
            DynWriter::Json(w) => DynWriter::Json(w.finish()), DynWriter::Xml(w) => DynWriter::Xml(w.finish()),
        }
    }
}
pub struct DynBuilder { }
pub open spec fn dyn_builder() -> DynBuilder { DynBuilder { } }
impl DynBuilder {
    pub open spec fn from_path_or_stdout(self, o: Option<Seq<u8>>) -> Result<DynWriter, XErr> { match WriterBuilder::new().from_path_or_stdout(o) { Ok(w) => Ok(DynWriter::Plus(w)), Err(e) => Err(e) } }
}
impl BinaryWriter {
//@fn crates/pica-cli/src/commands/convert/binary.rs BinaryWriter::new => new
//@fn crates/pica-cli/src/commands/convert/binary.rs ByteRecordWrite for BinaryWriter::write_byte_record => write_byte_record
//@fn crates/pica-cli/src/commands/convert/binary.rs ByteRecordWrite for BinaryWriter::finish => finish
}
impl ImportWriter {
//@fn crates/pica-cli/src/commands/convert/import.rs ImportWriter::new => new
//@fn crates/pica-cli/src/commands/convert/import.rs ByteRecordWrite for ImportWriter::write_byte_record => write_byte_record
//@fn crates/pica-cli/src/commands/convert/import.rs ByteRecordWrite for ImportWriter::finish => finish
}
impl PlainWriter {
//@fn crates/pica-cli/src/commands/convert/plain.rs PlainWriter::new => new
//@fn crates/pica-cli/src/commands/convert/plain.rs ByteRecordWrite for PlainWriter::write_byte_record => write_byte_record
//@fn crates/pica-cli/src/commands/convert/plain.rs ByteRecordWrite for PlainWriter::finish => finish
}
impl JsonWriter {
//@fn crates/pica-cli/src/commands/convert/json.rs JsonWriter::new => new
//@fn crates/pica-cli/src/commands/convert/json.rs ByteRecordWrite for JsonWriter::write_byte_record => write_byte_record
//@fn crates/pica-cli/src/commands/convert/json.rs ByteRecordWrite for JsonWriter::finish => finish
}
impl Convert {
//@fn crates/pica-cli/src/commands/convert/mod.rs Convert::execute => execute out=writer ret=Result<DynWriter,~XErr>
}
//@helpers
}
verus! {
// ---- the text of a record in every format
/// tag, occurrence and a space
pub open spec fn head(f: FieldRef) -> Seq<u8> { f.tag().text() + (match f.occurrence() { Some(o) => o.text(), None => Seq::empty() }) + seq![32u8] }
pub open spec fn sf_bytess(s: Seq<SubfieldRef>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { sf_bytess(s.drop_last()) + sf_bytes(s.last()) } }
pub open spec fn bin_field(f: FieldRef) -> Seq<u8> { head(f) + sf_bytess(f.subfields()) + seq![0x1eu8] }
pub open spec fn bin_fields(s: Seq<FieldRef>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { bin_fields(s.drop_last()) + bin_field(s.last()) } }
pub open spec fn bin_record(r: ByteRecord) -> Seq<u8> { bin_fields(r.record.fields()) + seq![0x1du8] }
pub open spec fn imp_field(f: FieldRef) -> Seq<u8> { seq![0x1eu8] + head(f) + sf_bytess(f.subfields()) + seq![10u8] }
pub open spec fn imp_fields(s: Seq<FieldRef>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { imp_fields(s.drop_last()) + imp_field(s.last()) } }
pub open spec fn imp_record(r: ByteRecord) -> Seq<u8> { seq![39u8, 0x1du8, 10u8] + imp_fields(r.record.fields()) }
/// `$` and the code, the value with every `$` doubled
pub open spec fn pl_sub(s: SubfieldRef) -> Seq<u8> { seq![36u8, s.code().as_byte()] + replace_all(s.value(), seq![36u8], seq![36u8, 36u8]) }
pub open spec fn pl_subs(s: Seq<SubfieldRef>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { pl_subs(s.drop_last()) + pl_sub(s.last()) } }
pub open spec fn pl_field(f: FieldRef) -> Seq<u8> { head(f) + pl_subs(f.subfields()) + seq![10u8] }
pub open spec fn pl_fields(s: Seq<FieldRef>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { pl_fields(s.drop_last()) + pl_field(s.last()) } }
pub open spec fn pl_record(r: ByteRecord) -> Seq<u8> { pl_fields(r.record.fields()) }
/// tag, occurrence or null, and code and value of every subfield
pub open spec fn j_sub(s: SubfieldRef) -> Seq<Value> { seq![Value::String(s.code().x_display()), Value::String(s.value())] }
pub open spec fn j_subs(s: Seq<SubfieldRef>) -> Seq<Value> decreases s.len() { if s.len() == 0 { Seq::empty() } else { j_subs(s.drop_last()) + j_sub(s.last()) } }
pub open spec fn j_field(f: FieldRef) -> Value {
    Value::Array(Seq::empty().push(Value::String(f.tag().text())).push(match f.occurrence() { Some(o) => Value::String(o.text()), None => Value::Null }) + j_subs(f.subfields()))
}
pub open spec fn j_fields(s: Seq<FieldRef>) -> Seq<Value> { Seq::new(s.len(), |k: int| j_field(s[k])) }
pub open spec fn j_record(r: ByteRecord) -> Seq<u8> { Value::Array(j_fields(r.record.fields())).x_display() }
impl BinaryWriter {
    /// this writer with more text written
    pub open spec fn add(self, x: Seq<u8>) -> BinaryWriter { BinaryWriter { writer: Sink { out: self.writer.out + x, ..self.writer }, ..self } }
    pub open spec fn plus(self, x: Seq<u8>, o: BinaryWriter) -> bool { self == BinaryWriter { writer: self.writer, ..o } && same_sink(self.writer, Sink { out: o.writer.out + x, ..o.writer }) }
}
impl ImportWriter {
    /// this writer with more text written
    pub open spec fn add(self, x: Seq<u8>) -> ImportWriter { ImportWriter { writer: Sink { out: self.writer.out + x, ..self.writer }, ..self } }
    pub open spec fn plus(self, x: Seq<u8>, o: ImportWriter) -> bool { self == ImportWriter { writer: self.writer, ..o } && same_sink(self.writer, Sink { out: o.writer.out + x, ..o.writer }) }
}
impl PlainWriter {
    /// this writer with more text written
    pub open spec fn add(self, x: Seq<u8>) -> PlainWriter { PlainWriter { writer: Sink { out: self.writer.out + x, ..self.writer }, ..self } }
    pub open spec fn plus(self, x: Seq<u8>, o: PlainWriter) -> bool { self == PlainWriter { writer: self.writer, ..o } && same_sink(self.writer, Sink { out: o.writer.out + x, ..o.writer }) }
}
impl JsonWriter {
    /// this writer with more text written
    pub open spec fn add(self, x: Seq<u8>) -> JsonWriter { JsonWriter { writer: Sink { out: self.writer.out + x, ..self.writer }, ..self } }
    pub open spec fn plus(self, x: Seq<u8>, o: JsonWriter) -> bool { self == JsonWriter { writer: self.writer, ..o } && same_sink(self.writer, Sink { out: o.writer.out + x, ..o.writer }) }
}
pub broadcast proof fn lem_bin_subs(s: Seq<SubfieldRef>, i: BinaryWriter, f: spec_fn(BinaryWriter, SubfieldRef) -> BinaryWriter)
    requires forall|a: BinaryWriter, x: SubfieldRef| #[trigger] f(a, x).plus(sf_bytes(x), a)
    ensures #[trigger] seq_fold(s, i, f) == i.add(sf_bytess(s))
    decreases s.len()
{
    if s.len() > 0 {
        lem_bin_subs(s.drop_last(), i, f);
        let a = seq_fold(s.drop_last(), i, f);
        assert(f(a, s.last()).plus(sf_bytes(s.last()), a));
        assert(i.add(sf_bytess(s)).writer.out =~= a.writer.out + sf_bytes(s.last()));
    } else { assert(i.writer.out + sf_bytess(s) =~= i.writer.out); }
}
pub broadcast proof fn lem_bin_fields(s: Seq<FieldRef>, i: BinaryWriter, f: spec_fn(BinaryWriter, FieldRef) -> BinaryWriter)
    requires forall|a: BinaryWriter, x: FieldRef| #[trigger] f(a, x).plus(bin_field(x), a)
    ensures #[trigger] seq_fold(s, i, f) == i.add(bin_fields(s))
    decreases s.len()
{
    if s.len() > 0 {
        lem_bin_fields(s.drop_last(), i, f);
        let a = seq_fold(s.drop_last(), i, f);
        assert(f(a, s.last()).plus(bin_field(s.last()), a));
        assert(i.add(bin_fields(s)).writer.out =~= a.writer.out + bin_field(s.last()));
    } else { assert(i.writer.out + bin_fields(s) =~= i.writer.out); }
}
pub broadcast proof fn lem_imp_subs(s: Seq<SubfieldRef>, i: ImportWriter, f: spec_fn(ImportWriter, SubfieldRef) -> ImportWriter)
    requires forall|a: ImportWriter, x: SubfieldRef| #[trigger] f(a, x).plus(sf_bytes(x), a)
    ensures #[trigger] seq_fold(s, i, f) == i.add(sf_bytess(s))
    decreases s.len()
{
    if s.len() > 0 {
        lem_imp_subs(s.drop_last(), i, f);
        let a = seq_fold(s.drop_last(), i, f);
        assert(f(a, s.last()).plus(sf_bytes(s.last()), a));
        assert(i.add(sf_bytess(s)).writer.out =~= a.writer.out + sf_bytes(s.last()));
    } else { assert(i.writer.out + sf_bytess(s) =~= i.writer.out); }
}
pub broadcast proof fn lem_imp_fields(s: Seq<FieldRef>, i: ImportWriter, f: spec_fn(ImportWriter, FieldRef) -> ImportWriter)
    requires forall|a: ImportWriter, x: FieldRef| #[trigger] f(a, x).plus(imp_field(x), a)
    ensures #[trigger] seq_fold(s, i, f) == i.add(imp_fields(s))
    decreases s.len()
{
    if s.len() > 0 {
        lem_imp_fields(s.drop_last(), i, f);
        let a = seq_fold(s.drop_last(), i, f);
        assert(f(a, s.last()).plus(imp_field(s.last()), a));
        assert(i.add(imp_fields(s)).writer.out =~= a.writer.out + imp_field(s.last()));
    } else { assert(i.writer.out + imp_fields(s) =~= i.writer.out); }
}
pub broadcast proof fn lem_pl_subs(s: Seq<SubfieldRef>, i: PlainWriter, f: spec_fn(PlainWriter, SubfieldRef) -> PlainWriter)
    requires forall|a: PlainWriter, x: SubfieldRef| #[trigger] f(a, x).plus(pl_sub(x), a)
    ensures #[trigger] seq_fold(s, i, f) == i.add(pl_subs(s))
    decreases s.len()
{
    if s.len() > 0 {
        lem_pl_subs(s.drop_last(), i, f);
        let a = seq_fold(s.drop_last(), i, f);
        assert(f(a, s.last()).plus(pl_sub(s.last()), a));
        assert(i.add(pl_subs(s)).writer.out =~= a.writer.out + pl_sub(s.last()));
    } else { assert(i.writer.out + pl_subs(s) =~= i.writer.out); }
}
pub broadcast proof fn lem_pl_fields(s: Seq<FieldRef>, i: PlainWriter, f: spec_fn(PlainWriter, FieldRef) -> PlainWriter)
    requires forall|a: PlainWriter, x: FieldRef| #[trigger] f(a, x).plus(pl_field(x), a)
    ensures #[trigger] seq_fold(s, i, f) == i.add(pl_fields(s))
    decreases s.len()
{
    if s.len() > 0 {
        lem_pl_fields(s.drop_last(), i, f);
        let a = seq_fold(s.drop_last(), i, f);
        assert(f(a, s.last()).plus(pl_field(s.last()), a));
        assert(i.add(pl_fields(s)).writer.out =~= a.writer.out + pl_field(s.last()));
    } else { assert(i.writer.out + pl_fields(s) =~= i.writer.out); }
}
pub broadcast proof fn lem_j_subs(s: Seq<SubfieldRef>, i: Seq<Value>, f: spec_fn(Seq<Value>, SubfieldRef) -> Seq<Value>)
    requires forall|a: Seq<Value>, x: SubfieldRef| #[trigger] f(a, x) =~= a + j_sub(x)
    ensures #[trigger] seq_fold(s, i, f) == i + j_subs(s)
    decreases s.len()
{
    if s.len() > 0 { lem_j_subs(s.drop_last(), i, f); assert(f(seq_fold(s.drop_last(), i, f), s.last()) =~= i + j_subs(s)); } else { assert(i + j_subs(s) =~= i); }
}
pub broadcast proof fn lem_j_fields(s: Seq<FieldRef>, i: Seq<Value>, f: spec_fn(Seq<Value>, FieldRef) -> Seq<Value>)
    requires i.len() == 0, forall|a: Seq<Value>, x: FieldRef| #[trigger] f(a, x) =~= a.push(j_field(x))
    ensures #[trigger] seq_fold(s, i, f) == j_fields(s)
    decreases s.len()
{
    if s.len() > 0 { lem_j_fields(s.drop_last(), i, f); let a = seq_fold(s.drop_last(), i, f); assert(f(a, s.last()) =~= a.push(j_field(s.last()))); assert(a.push(j_field(s.last())) =~= j_fields(s)); }
    else { assert(i =~= j_fields(s)); }
}
pub proof fn ob_binary_record(w: BinaryWriter, r: ByteRecord)
    ensures w.write_byte_record(r) == w.add(bin_record(r)), w.finish() == (BinaryWriter { writer: w.writer.x_flush(), ..w })
{ broadcast use {lem_bin_subs, lem_bin_fields}; assert(w.writer.out + bin_record(r) =~= w.writer.out + bin_fields(r.record.fields()) + seq![0x1du8]); }
pub proof fn ob_import_record(w: ImportWriter, r: ByteRecord)
    ensures w.write_byte_record(r) == w.add(imp_record(r)), w.finish() == (ImportWriter { writer: w.writer.x_flush(), ..w })
{ broadcast use {lem_imp_subs, lem_imp_fields}; assert(w.writer.out + imp_record(r) =~= w.writer.out + seq![39u8, 0x1du8, 10u8] + imp_fields(r.record.fields())); }
pub open spec fn pl_next(w: PlainWriter, r: ByteRecord) -> PlainWriter { PlainWriter { count: w.count + 1, ..w.add((if w.count > 0 { seq![10u8] } else { Seq::empty() }) + pl_record(r)) } }
pub proof fn ob_plain_record(w: PlainWriter, r: ByteRecord)
    ensures w.write_byte_record(r) == pl_next(w, r), w.finish() == (PlainWriter { writer: w.writer.x_flush(), ..w })
{ broadcast use {lem_pl_subs, lem_pl_fields}; assert(pl_next(w, r).writer.out =~= (if w.count > 0 { w.writer.out + seq![10u8] } else { w.writer.out }) + pl_fields(r.record.fields())); }
pub open spec fn j_next(w: JsonWriter, r: ByteRecord) -> JsonWriter { JsonWriter { count: w.count + 1, ..w.add((if w.count > 0 { seq![44u8] } else { Seq::empty() }) + j_record(r)) } }
pub proof fn ob_json_record(w: JsonWriter, r: ByteRecord)
    ensures w.write_byte_record(r) == j_next(w, r), w.finish() == (JsonWriter { writer: w.add(seq![93u8]).writer.x_flush(), ..w })
{
    broadcast use {lem_j_subs, lem_j_fields};
    assert(Seq::<u8>::empty() + j_record(r) =~= j_record(r));
}
pub open spec fn j_open(s: Sink) -> JsonWriter { JsonWriter { writer: Sink { out: s.out + seq![91u8], ..s }, count: 0 } }
pub proof fn ob_writer_new(o: Option<Seq<u8>>)
    ensures
        BinaryWriter::new(o) == (match sink(o, false) { Ok(s) => Ok::<BinaryWriter, XErr>(BinaryWriter { writer: s }), Err(e) => Err(e) }),
        ImportWriter::new(o) == (match sink(o, false) { Ok(s) => Ok::<ImportWriter, XErr>(ImportWriter { writer: s }), Err(e) => Err(e) }),
        PlainWriter::new(o) == (match sink(o, false) { Ok(s) => Ok::<PlainWriter, XErr>(PlainWriter { writer: s, count: 0 }), Err(e) => Err(e) }),
        JsonWriter::new(o) == (match sink(o, false) { Ok(s) => Ok::<JsonWriter, XErr>(j_open(s)), Err(e) => Err(e) }),
{ }
}
verus! {
// ---- the command
pub open spec fn every() -> EmitFn<ByteRecord> { |x: Option<Item>| match x { Some(Ok(r)) => Some(r), _ => None } }
pub open spec fn v_upd() -> spec_fn(DynWriter, ByteRecord) -> DynWriter { |w: DynWriter, r: ByteRecord| w.write_byte_record(r) }
/// the records written one after the other
pub open spec fn conv(w: DynWriter, o: Seq<ByteRecord>) -> DynWriter decreases o.len() { if o.len() == 0 { w } else { conv(w, o.drop_last()).write_byte_record(o.last()) } }
pub open spec fn v_of(w: DynWriter) -> spec_fn(Seq<ByteRecord>) -> DynWriter { |o: Seq<ByteRecord>| conv(w, o) }
pub open spec fn v_err() -> Result<DynWriter, XErr> { Err(x_err()) }
pub open spec fn v_file(step: spec_fn(DynWriter, Item) -> Ctl<DynWriter, Result<DynWriter, XErr>>) -> spec_fn(DynWriter, Seq<u8>) -> Ctl<DynWriter, Result<DynWriter, XErr>> {
    |st: DynWriter, p: Seq<u8>| match source(p) { Ok(items) => seq_for(items, st, step), Err(_) => Ctl::Ret(v_err()) }
}
pub open spec fn boxed<W: XBox<T = DynWriter>>(r: Result<W, XErr>) -> Result<DynWriter, XErr> { match r { Ok(w) => Ok(w.x_boxed()), Err(_) => Err(x_err()) } }
impl Convert {
    /// the writer of the target format
    pub open spec fn writer(self) -> Result<DynWriter, XErr> {
        match self.to {
            Format::Plus => match open_writer(self.output, false, false) { Ok(w) => Ok(DynWriter::Plus(w)), Err(_) => Err(x_err()) },
            Format::Binary => match sink(self.output, false) { Ok(s) => Ok(DynWriter::Binary(BinaryWriter { writer: s })), Err(_) => Err(x_err()) },
            Format::Import => match sink(self.output, false) { Ok(s) => Ok(DynWriter::Import(ImportWriter { writer: s })), Err(_) => Err(x_err()) },
            Format::Plain => match sink(self.output, false) { Ok(s) => Ok(DynWriter::Plain(PlainWriter { writer: s, count: 0 })), Err(_) => Err(x_err()) },
            Format::Json => match sink(self.output, false) { Ok(s) => Ok(DynWriter::Json(j_open(s))), Err(_) => Err(x_err()) },
            Format::Xml => match XmlWriter::new(self.output) { Ok(w) => Ok(DynWriter::Xml(w)), Err(_) => Err(x_err()) },
        }
    }
}
pub open spec fn v_step(c: Convert, config: Config) -> spec_fn(DynWriter, Item) -> Ctl<DynWriter, Result<DynWriter, XErr>> {
    lim_step(c.skip_invalid || config.skip_invalid, 0, every(), v_upd(), |st: DynWriter| 0, v_err())
}
pub proof fn ob_convert_run(c: Convert, config: Config)
    ensures match c.writer() {
        Ok(w) if c.from == Format::Plus => c.execute(config) == (match seq_for(c.filenames, w, file_step(v_step(c, config), v_err())) { Ctl::Ret(e) => e, Ctl::Next(st) | Ctl::Brk(st) => Ok(st.finish()) }),
        _ => c.execute(config) is Err,
    }
{
    broadcast use {lem_for_ext, lem_no_brk};
    ob_writer_new(c.output);
    let step = v_step(c, config);
    if let Ok(w) = c.writer() {
        assert forall|st: DynWriter, p: Seq<u8>| #[trigger] v_file(step)(st, p) == file_step(step, v_err())(st, p) by { }
        let res = seq_for(c.filenames, w, v_file(step));
        assert(res == seq_for(c.filenames, w, file_step(step, v_err())));
    }
}
pub proof fn ob_convert(c: Convert, config: Config)
    ensures match c.writer() {
        Ok(w) if c.from == Format::Plus => match limited(stream(c.filenames), c.skip_invalid || config.skip_invalid, 0, every()) {
            Some(o) => c.execute(config) == Ok::<DynWriter, XErr>(conv(w, o).finish()),
            None => c.execute(config) is Err,
        }
        _ => c.execute(config) is Err,
    }
{
    ob_convert_run(c, config);
    if let Ok(w) = c.writer() {
        assert forall|o: Seq<ByteRecord>, r: ByteRecord| #[trigger] v_upd()(v_of(w)(o), r) == v_of(w)(o.push(r)) by { assert(o.push(r).drop_last() =~= o); }
        lem_run(c.filenames, c.skip_invalid || config.skip_invalid, 0, every(), v_upd(), |st: DynWriter| 0, v_of(w), v_err());
        assert(v_of(w)(Seq::<ByteRecord>::empty()) == w);
    }
}
// ---- what the formats hold of a run's records
pub open spec fn bins(o: Seq<ByteRecord>) -> Seq<u8> decreases o.len() { if o.len() == 0 { Seq::empty() } else { bins(o.drop_last()) + bin_record(o.last()) } }
pub open spec fn imps(o: Seq<ByteRecord>) -> Seq<u8> decreases o.len() { if o.len() == 0 { Seq::empty() } else { imps(o.drop_last()) + imp_record(o.last()) } }
/// an empty line between two records
pub open spec fn pls(o: Seq<ByteRecord>) -> Seq<u8> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else if o.len() == 1 { pl_record(o.last()) } else { pls(o.drop_last()) + seq![10u8] + pl_record(o.last()) }
}
/// a comma between two records
pub open spec fn js(o: Seq<ByteRecord>) -> Seq<u8> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else if o.len() == 1 { j_record(o.last()) } else { js(o.drop_last()) + seq![44u8] + j_record(o.last()) }
}
pub open spec fn holds(w: DynWriter, s: Sink, n: int) -> bool {
    match w {
        DynWriter::Binary(b) => same_sink(b.writer, s), DynWriter::Import(b) => same_sink(b.writer, s),
        DynWriter::Plain(b) => same_sink(b.writer, s) && b.count == n, DynWriter::Json(b) => same_sink(b.writer, s) && b.count == n, _ => false,
    }
}
pub open spec fn text_of(f: Format, o: Seq<ByteRecord>) -> Seq<u8> {
    match f { Format::Binary => bins(o), Format::Import => imps(o), Format::Plain => pls(o), Format::Json => seq![91u8] + js(o), _ => Seq::empty() }
}
pub open spec fn text_format(f: Format) -> bool { f is Binary || f is Import || f is Plain || f is Json }
proof fn lem_conv(c: Convert, w: DynWriter, s: Sink, o: Seq<ByteRecord>)
    requires text_format(c.to), c.writer() == Ok::<DynWriter, XErr>(w), sink(c.output, false) == Ok::<Sink, XErr>(s)
    ensures holds(conv(w, o), Sink { out: s.out + text_of(c.to, o), ..s }, o.len() as int), (conv(w, o) is Binary) == (c.to is Binary), (conv(w, o) is Import) == (c.to is Import), (conv(w, o) is Plain) == (c.to is Plain), (conv(w, o) is Json) == (c.to is Json)
    decreases o.len()
{
    if o.len() > 0 {
        let p = o.drop_last(); let r = o.last();
        lem_conv(c, w, s, p);
        match conv(w, p) {
            DynWriter::Binary(b) => { ob_binary_record(b, r); }
            DynWriter::Import(b) => { ob_import_record(b, r); }
            DynWriter::Plain(b) => { ob_plain_record(b, r); if o.len() == 1 { assert(pls(p) =~= Seq::empty()); } }
            DynWriter::Json(b) => { ob_json_record(b, r); if o.len() == 1 { assert(js(p) =~= Seq::empty()); } }
            _ => { }
        }
    }
}
/// the output of a text format is the records' text, in order, nothing else
pub proof fn ob_convert_text(c: Convert, config: Config, s: Sink)
    requires text_format(c.to), c.from == Format::Plus, sink(c.output, false) == Ok::<Sink, XErr>(s)
    ensures match limited(stream(c.filenames), c.skip_invalid || config.skip_invalid, 0, every()) {
        Some(o) => c.execute(config) is Ok && holds(c.execute(config)->Ok_0, Sink { out: s.out + text_of(c.to, o) + (if c.to is Json { seq![93u8] } else { Seq::empty() }), done: true, ..s }, o.len() as int),
        None => c.execute(config) is Err,
    }
{
    ob_convert(c, config);
    let w = c.writer()->Ok_0;
    if let Some(o) = limited(stream(c.filenames), c.skip_invalid || config.skip_invalid, 0, every()) {
        lem_conv(c, w, s, o);
        let r = arbitrary::<ByteRecord>();
        match conv(w, o) {
            DynWriter::Binary(b) => { ob_binary_record(b, r); }
            DynWriter::Import(b) => { ob_import_record(b, r); }
            DynWriter::Plain(b) => { ob_plain_record(b, r); }
            DynWriter::Json(b) => { ob_json_record(b, r); }
            _ => { }
        }
    }
}
}
