//@include m_reader.rs
//@mut read_until self 1
//@mut write_all self
//@mut flush self
//@drop Progress
//@path io::stdout = out_stdout
//@path stdin = stdin
//@path File::create = file_create
//@path PathBuf::from = x_id
//@tymap BufWriter = OutB
//@tymap Write = OutB
//@tymap PathBuf = Seq<u8>
//@tymap P = Seq<u8>
pub mod invalid {
use super::*;
use super::record::*;
use super::reader::*;
verus! {
// ---- text output: everything written to one destination, in order
pub struct OutB { pub dest: Option<Seq<u8>>, pub out: Seq<u8>, pub done: bool }
impl OutB {
    pub open spec fn x_write_all(self, s: Seq<u8>) -> OutB { OutB { out: self.out + s, ..self } }
    pub open spec fn x_flush(self) -> OutB { OutB { done: true, ..self } }
    pub open spec fn x_lock(self) -> OutB { self }
    pub open spec fn new(s: OutB) -> OutB { s }
}
pub uninterp spec fn can_create(p: Seq<u8>) -> bool;
pub open spec fn out_stdout() -> OutB { OutB { dest: None, out: Seq::empty(), done: false } }
pub open spec fn file_create(p: Seq<u8>) -> Result<OutB, XErr> { if can_create(p) { Ok(OutB { dest: Some(p), out: Seq::empty(), done: false }) } else { Err(x_err()) } }
pub struct Config { }
//@type crates/pica-cli/src/commands/invalid.rs Invalid
//@fn crates/pica-cli/src/commands/invalid.rs reader => reader free
//@fn crates/pica-cli/src/commands/invalid.rs writer => writer free
impl Invalid {
//@fn crates/pica-cli/src/commands/invalid.rs Invalid::execute => execute out=writer ret=Result<OutB,~XErr>
}
//@helpers
/// the source of a name, decompressed if its name ends in `.gz`
pub open spec fn opened(p: Seq<u8>) -> Result<BufR, XErr> {
    if extension(p) == Some(seq![103u8, 122u8]) { match file_open(p) { Ok(f) => Ok(gunzip_all(f)), Err(e) => Err(e) } }
    else if p == seq![45u8] { Ok(stdin()) } else { file_open(p) }
}
/// the text of a source that can be read to its end
pub open spec fn text(b: BufR) -> Option<Seq<u8>> { if b.segs.len() == 0 { Some(Seq::empty()) } else if b.segs.len() == 1 { Some(b.segs[0]) } else { None } }
pub open spec fn is_bad(l: Seq<u8>) -> bool { ByteRecord::from_bytes(l) is Err }
/// the lines of a text that do not decode, byte for byte and in order
pub open spec fn bad_text(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let n = line_len(s, 10);
        if n <= 0 || n > s.len() { Seq::empty() } else { (if is_bad(s.subrange(0, n)) { s.subrange(0, n) } else { Seq::empty() }) + bad_text(s.subrange(n, s.len() as int)) }
    }
}
/// what is written for all sources; None if one of them cannot be read
pub open spec fn bad_of(fs: Seq<Seq<u8>>) -> Option<Seq<u8>> decreases fs.len() {
    if fs.len() == 0 { Some(Seq::empty()) } else {
        match opened(fs[0]) { Err(_) => None, Ok(b) => match (text(b), bad_of(fs.subrange(1, fs.len() as int))) { (Some(t), Some(r)) => Some(bad_text(t) + r), _ => None } }
    }
}
pub type IState = (Seq<u8>, BufR, OutB);
pub type ICtl = Ctl<IState, Result<OutB, XErr>>;
pub open spec fn i_err() -> Result<OutB, XErr> { Err(x_err()) }
pub open spec fn i_step() -> spec_fn(IState, int) -> ICtl {
    |st: IState, n: int| {
        let (v, r, b) = st.1.x_read_until(10u8, st.0);
        match v { Err(_) => Ctl::Ret(i_err()), Ok(n) => if n == 0 { Ctl::Brk((b, r, st.2)) } else { Ctl::Next((Seq::empty(), r, if is_bad(b) { st.2.x_write_all(b) } else { st.2 })) } }
    }
}
pub open spec fn i_file() -> spec_fn((Seq<u8>, OutB), Seq<u8>) -> Ctl<(Seq<u8>, OutB), Result<OutB, XErr>> {
    |st: (Seq<u8>, OutB), p: Seq<u8>| match opened(p) { Err(_) => Ctl::Ret(i_err()), Ok(b) => match x_forever().x_for((st.0, b, st.1), i_step()) { Ctl::Ret(r) => Ctl::Ret(r), Ctl::Next(x) | Ctl::Brk(x) => Ctl::Next((x.0, x.2)) } }
}
pub open spec fn adds(w: OutB, s: Seq<u8>) -> OutB { OutB { out: w.out + s, ..w } }
/// reading one source
proof fn lem_source(b: BufR, w: OutB, n: nat)
    requires b.segs.len() > 0 ==> n > b.segs[0].len(), n > 0
    ensures ({
        let e = loop_at(n, (Seq::<u8>::empty(), b, w), i_step());
        match text(b) { Some(t) => e is Brk && e->Brk_0.0 == Seq::<u8>::empty() && e->Brk_0.2 == adds(w, bad_text(t)), None => e == ICtl::Ret(i_err()) }
    })
    decreases n
{
    let st: IState = (Seq::<u8>::empty(), b, w);
    if b.segs.len() == 0 { assert(adds(w, Seq::empty()).out =~= w.out); assert(i_step()(st, 0) is Brk); } else {
        let s = b.segs[0];
        lem_line_len(s, 10);
        let k = line_len(s, 10);
        let l = s.subrange(0, k);
        let t = s.subrange(k, s.len() as int);
        assert(Seq::<u8>::empty() + l =~= l);
        if ends_with_byte(l, 10) || b.segs.len() == 1 {
            let r = BufR { segs: b.segs.update(0, t) };
            if k == 0 { assert(s.len() == 0); assert(adds(w, Seq::empty()).out =~= w.out); assert(i_step()(st, 0) is Brk); } else {
                let w2 = if is_bad(l) { w.x_write_all(l) } else { w };
                assert(i_step()(st, 0) == ICtl::Next((Seq::empty(), r, w2)));
                lem_source(r, w2, (n - 1) as nat);
                assert(r.segs[0] == t);
                if b.segs.len() == 1 {
                    assert(adds(w2, bad_text(t)).out =~= adds(w, bad_text(s)).out);
                }
            }
        } else { assert(i_step()(st, 0) == ICtl::Ret(i_err())); }
    }
}
proof fn lem_sources(fs: Seq<Seq<u8>>, w: OutB)
    ensures match bad_of(fs) { Some(t) => seq_for(fs, (Seq::<u8>::empty(), w), i_file()) == Ctl::<(Seq<u8>, OutB), Result<OutB, XErr>>::Next((Seq::empty(), adds(w, t))), None => seq_for(fs, (Seq::<u8>::empty(), w), i_file()) == Ctl::<(Seq<u8>, OutB), Result<OutB, XErr>>::Ret(i_err()) }
    decreases fs.len()
{
    if fs.len() == 0 { assert(adds(w, Seq::empty()).out =~= w.out); } else {
        let t = fs.subrange(1, fs.len() as int);
        match opened(fs[0]) { Err(_) => {}, Ok(b) => {
            let n: nat = if b.segs.len() > 0 { b.segs[0].len() + 1 } else { 1 };
            lem_source(b, w, n);
            lem_forever(n, (Seq::<u8>::empty(), b, w), i_step());
            match text(b) { Some(x) => {
                lem_sources(t, adds(w, bad_text(x)));
                if let Some(y) = bad_of(t) { assert(adds(adds(w, bad_text(x)), y).out =~= adds(w, bad_text(x) + y).out); }
            }, None => {} }
        } }
    }
}
pub broadcast proof fn lem_for_same<T, S, R>(s: Seq<T>, i: S, f: spec_fn(S, T) -> Ctl<S, R>, g: spec_fn(S, T) -> Ctl<S, R>)
    requires forall|a: S, x: T| #[trigger] f(a, x) == g(a, x)
    ensures #![trigger seq_for(s, i, f), seq_for(s, i, g)] seq_for(s, i, f) == seq_for(s, i, g)
    decreases s.len()
{
    if s.len() > 0 { assert(f(i, s[0]) == g(i, s[0])); match f(i, s[0]) { Ctl::Next(st) => lem_for_same(s.subrange(1, s.len() as int), st, f, g), _ => {} } }
}
proof fn ob_invalid_source(p: Seq<u8>)
    ensures reader(p) == opened(p)
{ }
/// the lines that do not decode, of all inputs in order, byte for byte
proof fn ob_invalid(c: Invalid, config: Config)
    ensures match (writer(c.output), bad_of(c.filenames)) {
        (Ok(w), Some(t)) => c.execute(config) == Ok::<OutB, XErr>(adds(w, t).x_flush()),
        _ => c.execute(config) is Err,
    }
{
    broadcast use {lem_forever_ext, lem_for_same};
    assert forall|p: Seq<u8>| #[trigger] reader(p) == opened(p) by { ob_invalid_source(p); }
    if let Ok(w) = writer(c.output) {
        lem_sources(c.filenames, w);
    }
}
/// the commands that read records see the same bytes
proof fn ob_same_source(b: ReaderBuilder, p: Seq<u8>)
    ensures match b.from_path(p) { Ok(r) => reader(p) == Ok::<BufR, XErr>(r.inner) && r.line == 0, Err(_) => reader(p) is Err }
{ }
pub open spec fn bad_lines(ls: Seq<Seq<u8>>) -> Seq<Seq<u8>> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { (if is_bad(ls[0]) { seq![ls[0]] } else { Seq::empty() }) + bad_lines(ls.subrange(1, ls.len() as int)) }
}
proof fn lem_flat_cons(l: Seq<u8>, r: Seq<Seq<u8>>)
    ensures flat(seq![l] + r) == l + flat(r)
{ assert((seq![l] + r).subrange(1, (seq![l] + r).len() as int) =~= r); }
/// the output of invalid consists of the lines that do not decode
proof fn ob_bad_lines(s: Seq<u8>)
    ensures bad_text(s) == flat(bad_lines(lines(s)))
    decreases s.len()
{
    if s.len() > 0 {
        lem_line_len(s, 10);
        let n = line_len(s, 10);
        let l = s.subrange(0, n);
        let t = s.subrange(n, s.len() as int);
        ob_bad_lines(t);
        assert(lines(s).subrange(1, lines(s).len() as int) =~= lines(t));
        lem_flat_cons(l, bad_lines(lines(t)));
        assert(Seq::<Seq<u8>>::empty() + bad_lines(lines(t)) =~= bad_lines(lines(t)));
        assert(bad_text(s) =~= flat(bad_lines(lines(s))));
    }
}
/// every line is either written by invalid or read as a record with its bytes, never both
proof fn ob_either(r: Reader, k: nat)
    requires r.inner.segs.len() == 1, k < lines(r.inner.segs[0]).len()
    ensures ({
        let l = lines(r.inner.segs[0])[k as int];
        match item(r, k) {
            Some(Ok(rec)) => !is_bad(l) && rec.raw_data == Some(l),
            Some(Err(e)) => is_bad(l) && e.skip_parse_err(true),
            None => false,
        }
    })
{ ob_history(r, k); }
}
}
