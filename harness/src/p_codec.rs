//! C01 codec, C02 byte record, C03 reader
use crate::cx::*;
use crate::rec::*;
use pica_record::prelude::*;
use pica_record::primitives::*;
use serde_json::json;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::{BufRead, Read, Write};

fn view(r: &RecordRef) -> Rec {
    r.fields()
        .iter()
        .map(|f| Fld {
            tag: f.tag().to_string().into_bytes(),
            occ: f.occurrence().map(|o| o.as_bytes().to_vec()),
            subs: f.subfields().iter().map(|s| Sub { code: s.code().as_byte(), val: s.value().as_bytes().to_vec() }).collect(),
        })
        .collect()
}
fn check_bytes(cx: &mut Cx, raw: &[u8]) {
    let want = parse_line(raw);
    let got = guard(|| {
        RecordRef::from_bytes(raw).ok().map(|r| {
            let mut a = vec![];
            r.write_to(&mut a).unwrap();
            let v = view(&r);
            let o = Record::from(r.clone());
            let mut b = vec![];
            o.write_to(&mut b).unwrap();
            let same = r == o && o == r;
            (v, a, b, same)
        })
    });
    cx.case(&show(raw), want.is_some());
    let ok = match (&want, &got) {
        (None, Ok(None)) => true,
        (Some(w), Ok(Some((v, a, b, same)))) => w == v && a == raw && b == raw && *same,
        _ => false,
    };
    if !ok {
        cx.violate(
            "decode",
            json!({"bytes": show(raw)}),
            json!(match &want {
                None => "rejected".to_string(),
                Some(w) => format!("{w:?}"),
            }),
            json!(match got {
                Ok(None) => "rejected".to_string(),
                Ok(Some((v, a, b, s))) => format!("{v:?} written {} owned {} equal {s}", show(&a), show(&b)),
                Err(e) => e,
            }),
        );
    }
    let g2 = guard(|| ByteRecord::from_bytes(&raw).is_ok());
    if g2 != Ok(want.is_some()) {
        cx.violate("decode (byte record)", json!({"bytes": show(raw)}), json!(want.is_some()), json!(format!("{g2:?}")));
    }
}
pub fn mutate(r: &mut crate::cx::Rng, b: &mut Vec<u8>) {
    const A: &[u8] = b"\r\x1e\x1f\n /0123@AZa_\xff\x00\x1d9$\xe4-x";
    for _ in 0..1 + r.below(3) {
        let i = r.below(b.len() + 1);
        match r.below(6) {
            0 | 1 => b.insert(i, *r.pick(A)),
            2 if i < b.len() => {
                b.remove(i);
            }
            3 if i < b.len() => b[i] = *r.pick(A),
            4 => b.truncate(i),
            _ if i + 1 < b.len() => b.swap(i, i + 1),
            _ => (),
        }
    }
}
pub fn c01(cx: &mut Cx) {
    cx.rng.1 = true;
    cx.rule("bytes decoded by the real parser and by an independent reference grammar: well-formed records, records with 1-3 byte edits, every byte value at every position of a fixed record, every tag/occurrence/code alphabet; non-trivial = the bytes are a record");
    let e0 = cx.evals;
    let seed: &[u8] = b"003@/01 \x1f0a1\x1fab\x1e101@ \x1fac\x1e012A/001 \x1e\n";
    check_bytes(cx, seed);
    for i in 0..seed.len() {
        for c in 0..=255u8 {
            let mut b = seed.to_vec();
            b[i] = c;
            check_bytes(cx, &b);
            let mut b = seed.to_vec();
            b.insert(i, c);
            check_bytes(cx, &b);
        }
        let mut b = seed.to_vec();
        b.remove(i);
        check_bytes(cx, &b);
        check_bytes(cx, &seed[..i]);
        let mut b = seed.to_vec();
        b.extend(&seed[..i]);
        check_bytes(cx, &b);
    }
    for c in 0..=255u8 {
        let mut b = seed.to_vec();
        b.push(c);
        check_bytes(cx, &b);
        check_bytes(cx, &[c]);
    }
    for o in ["", "0", "00", "01", "000", "999", "0000", "0a", "a0", "-1", "1/", "1 2", "00 "] {
        check_bytes(cx, format!("012A/{o} \x1fax\x1e\n").as_bytes());
        check_bytes(cx, format!("012A/{o}\x1fax\x1e\n").as_bytes());
    }
    for t in ["", "0", "00", "003", "003@@", "303@", "0A3@", "003a", "0 3@", "003[", "003`", "000A", "299Z", "A03@"] {
        check_bytes(cx, format!("{t} \x1fax\x1e\n").as_bytes());
    }
    cx.part("edits of a fixed record", e0);
    let e0 = cx.evals;
    for k in 0..cx.n(60000) {
        if cx.full() {
            break;
        }
        let mut rec = gen_rec(&mut cx.rng);
        if cx.rng.chance(30) {
            // arbitrary value bytes, also newlines
            for f in rec.iter_mut() {
                for s in f.subs.iter_mut() {
                    let n = cx.rng.below(6);
                    s.val = (0..n).map(|_| cx.rng.next() as u8).filter(|c| *c != 0x1e && *c != 0x1f).collect();
                }
            }
        }
        let mut raw = ser(&rec);
        if k % 3 > 0 {
            mutate(&mut cx.rng, &mut raw);
        }
        check_bytes(cx, &raw);
    }
    cx.part("random records and edits", e0);
    let e0 = cx.evals;
    // records assembled from parts
    for _ in 0..cx.n(8000) {
        if cx.full() {
            break;
        }
        let rec = gen_rec_utf8(&mut cx.rng);
        let txt: Vec<(String, Option<String>, Vec<(char, String)>)> = rec
            .iter()
            .map(|f| {
                (
                    String::from_utf8(f.tag.clone()).unwrap(),
                    f.occ.clone().map(|o| String::from_utf8(o).unwrap()),
                    f.subs.iter().map(|s| (s.code as char, String::from_utf8(s.val.clone()).unwrap())).collect(),
                )
            })
            .collect();
        let raw = ser(&rec);
        let got = guard(|| {
            let r = RecordRef::new(
                txt.iter().map(|(t, o, s)| (t.as_str(), o.as_deref(), s.iter().map(|(c, v)| (*c, v.as_str())).collect::<Vec<_>>())).collect(),
            )
            .unwrap();
            let mut a = vec![];
            r.write_to(&mut a).unwrap();
            let back = RecordRef::from_bytes(&a).map(|b| b == r).unwrap_or(false);
            (a, back)
        });
        cx.case(&format!("assembled {}", show(&raw)), true);
        if got != Ok((raw.clone(), true)) {
            cx.violate("assembled record", json!({"record": show(&raw)}), json!(show(&raw)), json!(format!("{:?}", got.map(|(a, b)| (show(&a), b)))));
        }
    }
    for (i, parts) in [("003@", Some("01"), 'a', "v"), ("003", None, 'a', "v"), ("303@", None, 'a', "v"), ("003@", Some("1"), 'a', "v"), ("003@", Some("0001"), 'a', "v"), ("003@", Some("0x"), 'a', "v"), ("003@", None, '!', "v"), ("003@", None, 'ä', "v"), ("003@", None, 'a', "v\x1e"), ("003@", None, 'a', "\x1f"), ("003@", Some(""), 'a', "v")].iter().enumerate() {
        let got = guard(|| FieldRef::new(parts.0, parts.1, vec![(parts.2, parts.3)]).is_ok() && Field::new(parts.0, parts.1, vec![(parts.2, parts.3)]).is_ok());
        let either = guard(|| FieldRef::new(parts.0, parts.1, vec![(parts.2, parts.3)]).is_ok() || Field::new(parts.0, parts.1, vec![(parts.2, parts.3)]).is_ok());
        cx.case(&format!("parts {parts:?}"), true);
        if got != Ok(i == 0) || either != Ok(i == 0) {
            cx.violate("validating constructor", json!(format!("{parts:?}")), json!(i == 0), json!(format!("{got:?}/{either:?}")));
        }
    }
    cx.part("assembled records", e0);
}

// ---------------------------------------------------------------- C02

fn hash_of(r: &ByteRecord) -> u64 {
    let mut h = DefaultHasher::new();
    r.hash(&mut h);
    h.finish()
}
pub fn c02(cx: &mut Cx) {
    cx.rng.1 = true;
    use sha2::Digest;
    cx.rule("random histories of retain / keep / discard / mutable access / conversion on byte records, after every step the written bytes, fields, digest, equality and hash against a list model; non-trivial = the history changes the record");
    let e0 = cx.evals;
    for _ in 0..cx.n(25000) {
        if cx.full() {
            break;
        }
        let rec = gen_rec(&mut cx.rng);
        let raw = ser(&rec);
        let steps: Vec<(usize, usize, bool)> = (0..cx.rng.below(5)).map(|_| (cx.rng.below(5), cx.rng.below(8), cx.rng.chance(50))).collect();
        let other: Rec = match cx.rng.below(3) {
            0 => gen_rec(&mut cx.rng),
            1 => rec.clone(),
            _ => {
                let mut o = rec.clone();
                let i = cx.rng.below(o.len());
                match cx.rng.below(4) {
                    0 if o.len() > 1 => {
                        o.remove(i);
                    }
                    1 => o[i].occ = Some(b"01".to_vec()),
                    2 => {
                        let f = o[i].clone();
                        o.push(f)
                    }
                    _ => {
                        if let Some(s) = o[i].subs.first_mut() {
                            s.val.push(b'!')
                        }
                    }
                }
                o
            }
        };
        let oraw = ser(&other);
        let conv = cx.rng.chance(40);
        let oconv = cx.rng.chance(40);
        let mut model = rec.clone();
        let mut bad: Option<String> = None;
        let res = guard(|| {
            let mut r = if conv { ByteRecord::from(RecordRef::from_bytes(&raw).unwrap()) } else { ByteRecord::from_bytes(&raw).unwrap() };
            let o = if oconv { ByteRecord::from(RecordRef::from_bytes(&oraw).unwrap()) } else { ByteRecord::from_bytes(&oraw).unwrap() };
            for k in 0..=steps.len() {
                if k > 0 {
                    let (op, x, y) = steps[k - 1];
                    match op {
                        0 => {
                            let tag = TAGS[x % TAGS.len()].as_bytes();
                            r.retain(|f| (f.tag().to_string().as_bytes() == tag) == y);
                            model.retain(|f| (f.tag == tag) == y);
                        }
                        1 | 2 => {
                            let tag = TAGS[x % TAGS.len()];
                            let p = [(TagMatcher::new(tag).unwrap(), OccurrenceMatcher::new("/*").unwrap())];
                            let p = if y { &p[..] } else { &[] };
                            if op == 1 {
                                r.keep(p);
                            } else {
                                r.discard(p);
                            }
                            if y {
                                model.retain(|f| (f.tag == tag.as_bytes()) == (op == 1));
                            }
                        }
                        3 => {
                            // mutable access to the inner record
                            let n = x % 3;
                            let mut i = 0;
                            let inner: &mut RecordRef = &mut r;
                            inner.retain(|_| {
                                i += 1;
                                i != n + 1
                            });
                            if n < model.len() {
                                model.remove(n);
                            }
                        }
                        _ => {
                            // access without change
                            let inner: &mut RecordRef = &mut r;
                            inner.retain(|_| true);
                        }
                    }
                }
                let want = ser(&model);
                let mut w = vec![];
                r.write_to(&mut w).unwrap();
                if w != want {
                    bad = Some(format!("step {k}: wrote {} instead of {}", show(&w), show(&want)));
                    return;
                }
                if view(&r) != model {
                    bad = Some(format!("step {k}: fields {:?}", view(&r)));
                    return;
                }
                if r.sha256() != sha2::Sha256::digest(&want).to_vec() {
                    bad = Some(format!("step {k}: digest"));
                    return;
                }
                let eq = model == other;
                if (r == o) != eq || (o == r) != eq {
                    bad = Some(format!("step {k}: equality with {} is {}", show(&oraw), r == o));
                    return;
                }
                if eq && hash_of(&r) != hash_of(&o) {
                    bad = Some(format!("step {k}: equal records hash differently"));
                    return;
                }
                if r.is_empty() != model.is_empty() {
                    bad = Some(format!("step {k}: is_empty"));
                    return;
                }
                if r.validate().is_ok() != utf8_ok(&model) {
                    bad = Some(format!("step {k}: UTF-8 validation"));
                    return;
                }
            }
            let valid = utf8_ok(&model);
            match StringRecord::try_from(r) {
                Ok(s) => {
                    let mut w = vec![];
                    s.write_to(&mut w).unwrap();
                    if !valid || w != ser(&model) {
                        bad = Some("conversion to a UTF-8 checked record".into());
                    }
                }
                Err(_) => {
                    if valid {
                        bad = Some("UTF-8 record rejected".into());
                    }
                }
            }
        });
        cx.case(&format!("{} conv={conv} {steps:?} vs {} conv={oconv}", show(&raw), show(&oraw)), model != rec);
        if let Err(e) = res {
            bad = Some(e);
        }
        if let Some(b) = bad {
            cx.violate(
                "byte record history",
                json!({"record": show(&raw), "converted": conv, "steps (0 retain,1 keep,2 discard,3 mutable remove,4 mutable noop)": format!("{steps:?}"), "other": show(&oraw), "other_converted": oconv}),
                json!("the fields it holds"),
                json!(b),
            );
        }
    }
    cx.part("histories", e0);
}

// ---------------------------------------------------------------- C03

/// a reader that hands out chunks of given sizes, interrupts and fails
struct Chunks {
    data: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    k: usize,
    fail_at: Option<usize>,
    interrupt: bool,
}
impl Read for Chunks {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.k += 1;
        if self.interrupt && self.k % 3 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                self.fail_at = None;
                return Err(std::io::Error::other("injected"));
            }
            end = end.min(f);
        }
        let n = self.sizes[self.k % self.sizes.len()].min(buf.len()).min(end - self.pos).max(usize::from(end > self.pos));
        let n = n.min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
#[derive(Debug, PartialEq, Clone)]
enum Item {
    Rec(Vec<u8>),
    Parse(usize),
    Utf8(usize),
    Io,
}
fn number(msg: &str) -> usize {
    let i = msg.find("line ").map(|i| i + 5).unwrap_or(0);
    msg[i..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(usize::MAX)
}
fn err_item(e: &ReadPicaError) -> Item {
    // public behaviour only: the message and which variant
    let m = e.to_string();
    match e {
        ReadPicaError::Parse { .. } => Item::Parse(number(&m)),
        ReadPicaError::Utf8 { .. } => Item::Utf8(number(&m)),
        ReadPicaError::IO(_) => Item::Io,
    }
}
pub fn gen_stream(r: &mut crate::cx::Rng) -> Vec<u8> {
    let n = r.below(7);
    let mut b = vec![];
    for _ in 0..n {
        match r.below(10) {
            0 => b.extend(b"\n"),
            1 if r.chance(50) => {
                // a record line that ends with CR LF does not decode
                let mut x = ser(&gen_rec(r));
                let k = x.len() - [1, 1, 2][r.below(3)];
                x.insert(k, *r.pick(b"\r\r \t\x1d\0"));
                b.extend(x);
            }
            1 => b.extend(b"garbage \xff line\n"),
            2 => {
                let mut x = ser(&gen_rec(r));
                mutate(r, &mut x);
                b.extend(x);
                if r.chance(70) {
                    b.push(b'\n');
                }
            }
            _ => b.extend(ser(&gen_rec(r))),
        }
    }
    match r.below(8) {
        0 => {
            b.pop();
        }
        1 => b.extend(b"003@ \x1f0x"),
        _ => (),
    }
    b
}
pub fn lines(b: &[u8]) -> Vec<Vec<u8>> {
    b.split_inclusive(|c| *c == b'\n').map(|x| x.to_vec()).collect()
}
fn drain(mk: &dyn Fn() -> Box<dyn Read>, source: Option<&str>, string: bool, cap: usize) -> Vec<Item> {
    let mut rd = ReaderBuilder::new().from_reader(mk(), source.map(String::from));
    let mut out = vec![];
    while out.len() < cap {
        let it = if string {
            match rd.next_string_record() {
                None => break,
                Some(Ok(r)) => {
                    let mut w = vec![];
                    r.write_to(&mut w).unwrap();
                    Item::Rec(w)
                }
                Some(Err(e)) => err_item(&e),
            }
        } else {
            match rd.next_byte_record() {
                None => break,
                Some(Ok(r)) => {
                    let mut w = vec![];
                    r.write_to(&mut w).unwrap();
                    Item::Rec(w)
                }
                Some(Err(e)) => err_item(&e),
            }
        };
        out.push(it);
    }
    out
}
pub fn c03(cx: &mut Cx) {
    cx.rng.1 = true;
    cx.rule("random streams of valid, invalid and empty lines read in random chunk sizes, with interruptions, injected I/O errors, as plain and multi-member gzip files, with the byte and the UTF-8 checked reader, against splitting at newlines; non-trivial = a stream with a valid and an invalid line");
    let e0 = cx.evals;
    let dir = cx.scratch();
    for k in 0..cx.n(6000) {
        if cx.full() {
            break;
        }
        let data = gen_stream(&mut cx.rng);
        let ls = lines(&data);
        let string = cx.rng.chance(50);
        let want: Vec<Item> = ls
            .iter()
            .enumerate()
            .map(|(i, l)| match parse_line(l) {
                None => Item::Parse(i + 1),
                Some(r) if string && !utf8_ok(&r) => Item::Utf8(i + 1),
                Some(_) => Item::Rec(l.clone()),
            })
            .collect();
        let nt = want.iter().any(|i| matches!(i, Item::Rec(_))) && want.iter().any(|i| !matches!(i, Item::Rec(_)));
        let sizes: Vec<usize> = (0..5).map(|_| [1, 2, 3, 7, 64, 9000][cx.rng.below(6)]).collect();
        let interrupt = cx.rng.chance(30);
        let src = [None, Some("-"), Some("file")][cx.rng.below(3)];
        let fail = if cx.rng.chance(15) && !data.is_empty() { Some(cx.rng.below(data.len() + 1)) } else { None };
        let d2 = data.clone();
        let s2 = sizes.clone();
        let got = guard(|| {
            drain(&|| Box::new(Chunks { data: d2.clone(), pos: 0, sizes: s2.clone(), k: 0, fail_at: fail, interrupt }), src, string, ls.len() + 5)
        });
        cx.case(&format!("{} chunks {sizes:?} interrupt {interrupt} string {string} fail {fail:?}", show(&data)), nt);
        let ok = match (&got, fail) {
            (Err(_), _) => false,
            (Ok(g), None) => *g == want,
            (Ok(g), Some(f)) => {
                // complete lines before the failure come out, then the error is reported
                let before = lines(&data[..f]).iter().filter(|l| l.ends_with(b"\n")).count();
                g.len() > before && g[..before] == want[..before] && g[before] == Item::Io
            }
        };
        if !ok {
            cx.violate(
                "reader",
                json!({"stream": show(&data), "chunks": sizes, "interrupt": interrupt, "utf8_checked": string, "fail_at": fail, "source": src}),
                json!(format!("{want:?}")),
                json!(format!("{got:?}")),
            );
            continue;
        }
        if k % 6 == 0 {
            // files: plain, gzip with one or several members
            let members = 1 + cx.rng.below(3);
            let gz = cx.rng.chance(70);
            let path = dir.join(if gz { "in.dat.gz" } else { "in.dat" });
            let mut f = vec![];
            if gz {
                for m in 0..members {
                    let a = data.len() * m / members;
                    let b = data.len() * (m + 1) / members;
                    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
                    e.write_all(&data[a..b]).unwrap();
                    f.extend(e.finish().unwrap());
                }
            } else {
                f = data.clone();
            }
            std::fs::write(&path, &f).unwrap();
            let got = guard(|| {
                let mut rd = ReaderBuilder::new().from_path(&path).unwrap();
                let mut out = vec![];
                while let Some(x) = rd.next_byte_record() {
                    out.push(match x {
                        Ok(r) => {
                            let mut w = vec![];
                            r.write_to(&mut w).unwrap();
                            Item::Rec(w)
                        }
                        Err(e) => err_item(&e),
                    });
                    if out.len() > ls.len() + 5 {
                        break;
                    }
                }
                out
            });
            let want: Vec<Item> = ls.iter().enumerate().map(|(i, l)| if parse_line(l).is_some() { Item::Rec(l.clone()) } else { Item::Parse(i + 1) }).collect();
            cx.case(&format!("file gz={gz} members={members} {}", show(&data)), nt);
            if got != Ok(want.clone()) {
                cx.violate("file reader", json!({"content": show(&data), "gzip": gz, "members": members}), json!(format!("{want:?}")), json!(format!("{got:?}")));
            }
        }
    }
    cx.part("streams", e0);
    let e0 = cx.evals;
    // skip_parse_err
    for (bytes, string) in [(&b"bad\n"[..], false), (b"003@ \x1f0\xff\x1e\n", true)] {
        for skip in [false, true] {
            let mut rd = ReaderBuilder::new().from_reader(bytes, None);
            let e = if string { rd.next_string_record().and_then(|x| x.err()) } else { rd.next_byte_record().and_then(|x| x.err()) };
            let got = e.map(|e| e.skip_parse_err(skip));
            cx.case(&format!("skip {} {skip}", show(bytes)), true);
            if got != Some(skip && !string) {
                cx.violate("skip decision", json!({"line": show(bytes), "skip_invalid": skip}), json!(skip && !string), json!(format!("{got:?}")));
            }
        }
    }
    for skip in [false, true] {
        let e: ReadPicaError = std::io::Error::other("x").into();
        cx.case(&format!("skip io {skip}"), true);
        if e.skip_parse_err(skip) {
            cx.violate("skip decision", json!({"error": "io", "skip_invalid": skip}), json!(false), json!(true));
        }
    }
    // what is left in the source is not consumed beyond the buffer: into_inner continues with the next line
    let data = b"003@ \x1f0a\x1e\nbad\n003@ \x1f0b\x1e\n";
    let mut rd = ReaderBuilder::new().from_reader(&data[..], None);
    let _ = rd.next_byte_record();
    let mut rest = rd.into_inner();
    let mut l = vec![];
    let _ = rest.read_until(b'\n', &mut l);
    cx.case("into_inner", true);
    if l != b"bad\n" {
        cx.violate("rest of the source", json!(show(data)), json!("bad\\n"), json!(show(&l)));
    }
    cx.part("error classification", e0);
    // writer: what is written is what the record holds, plain, gzip, append
    let e0 = cx.evals;
    for _ in 0..cx.n(300) {
        if cx.full() {
            break;
        }
        let recs: Vec<Rec> = (0..cx.rng.below(5)).map(|_| gen_rec(&mut cx.rng)).collect();
        let mode = cx.rng.below(3);
        let p = dir.join(["out.dat", "out.dat.gz", "out2.dat"][mode]);
        let _ = std::fs::write(&p, if mode == 2 { &b"old\n"[..] } else { &b"old content that is longer than nothing"[..] });
        let got = guard(|| {
            let b = WriterBuilder::new();
            let b = if mode == 2 { b.append(true) } else { b };
            let mut w = b.from_path(&p).unwrap();
            for r in &recs {
                let raw = ser(r);
                w.write_byte_record(&ByteRecord::from_bytes(&raw).unwrap()).unwrap();
            }
            w.finish().unwrap();
            drop(w);
            let f = std::fs::read(&p).unwrap();
            if mode == 1 {
                let mut o = vec![];
                flate2::read::MultiGzDecoder::new(&f[..]).read_to_end(&mut o).unwrap();
                o
            } else {
                f
            }
        });
        let mut want: Vec<u8> = if mode == 2 { b"old\n".to_vec() } else { vec![] };
        for r in &recs {
            want.extend(ser(r));
        }
        cx.case(&format!("writer {mode} {}", show(&want)), recs.len() > 1);
        if got.as_ref() != Ok(&want) {
            cx.violate("writer", json!({"mode(0 plain,1 gzip,2 append)": mode}), json!(show(&want)), json!(format!("{:?}", got.map(|g| show(&g)))));
        }
    }
    cx.part("writer", e0);
}
