//! The command line tool, run as a process in a scratch directory, against
//! independent models of what each command writes.
use crate::cx::*;
use crate::mexpr::*;
use crate::p_codec::lines;
use crate::p_query::*;
use crate::rec::*;

use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Env {
    pica: PathBuf,
    dir: PathBuf,
}
pub struct Run {
    ok: bool,
    code: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
}
pub struct Out {
    key: String,
    nt: bool,
    fail: Option<(String, Value, Value, Value)>,
}

impl Env {
    fn run(&self, args: &[String], stdin: Option<&[u8]>) -> Run {
        let mut c = std::process::Command::new(&self.pica);
        c.args(args)
            .current_dir(&self.dir)
            .env_clear()
            .env("HOME", &self.dir)
            .env("XDG_CONFIG_HOME", self.dir.join("cfg"))
            .env("POLARS_MAX_THREADS", "1")
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped());
        let mut ch = c.spawn().expect("spawn pica");
        let mut si = ch.stdin.take().unwrap();
        let data = stdin.unwrap_or(b"").to_vec();
        let w = std::thread::spawn(move || {
            let _ = si.write_all(&data);
        });
        let o = ch.wait_with_output().expect("wait");
        let _ = w.join();
        Run { ok: o.status.success(), code: o.status.code(), out: o.stdout, err: o.stderr }
    }
    fn put(&self, name: &str, b: &[u8]) {
        std::fs::write(self.dir.join(name), b).unwrap();
    }
    fn get(&self, name: &str) -> Option<Vec<u8>> {
        std::fs::read(self.dir.join(name)).ok()
    }
    fn get_gz(&self, name: &str) -> Option<Vec<u8>> {
        let b = self.get(name)?;
        let mut o = vec![];
        flate2::read::MultiGzDecoder::new(&b[..]).read_to_end(&mut o).ok()?;
        Some(o)
    }
}

/// run `f` on generated cases with all cores; results are applied in order
fn drive(cx: &mut Cx, n: usize, part: &str, f: impl Fn(&mut Rng, &Env) -> Out + Sync) {
    let e0 = cx.evals;
    let pica = PathBuf::from(std::env::var("VH_PICA").expect("VH_PICA"));
    let root = cx.scratch();
    // queries multiply values: no large records there
    let big = !matches!(part, "select" | "frequency" | "check" | "partition");
    let next = AtomicUsize::new(0);
    let bad = AtomicUsize::new(0);
    let res: Mutex<Vec<(usize, Out)>> = Mutex::new(vec![]);
    let dead = AtomicBool::new(false);
    let (start, budget, seed) = (cx.start, cx.budget, cx.seed);
    let tag = part.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
    std::thread::scope(|s| {
        for t in 0..8 {
            let dir = root.join(format!("t{t}"));
            let (pica, next, bad, res, f, dead) = (&pica, &next, &bad, &res, &f, &dead);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n || start.elapsed() > budget || bad.load(Ordering::Relaxed) >= 12 || dead.load(Ordering::Relaxed) {
                    return;
                }
                let _ = std::fs::remove_dir_all(&dir);
                std::fs::create_dir_all(&dir).unwrap();
                let env = Env { pica: pica.clone(), dir: dir.clone() };
                let mut r = Rng::new(seed.wrapping_mul(0x1_0000_0001).wrapping_add(tag).wrapping_add((i as u64) << 20));
                r.1 = big;
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r, &env))) {
                    Ok(o) => {
                        if o.fail.is_some() {
                            bad.fetch_add(1, Ordering::Relaxed);
                        }
                        res.lock().unwrap().push((i, o));
                    }
                    Err(e) => {
                        eprintln!("harness panic in case {i}: {:?}", e.downcast_ref::<String>());
                        dead.store(true, Ordering::Relaxed);
                        return;
                    }
                }
            });
        }
    });
    if dead.load(Ordering::Relaxed) {
        panic!("a generated case could not be evaluated");
    }
    let mut v = res.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    for (_, o) in v {
        cx.case(&o.key, o.nt);
        if let Some((w, i, e, a)) = o.fail {
            cx.violate(&w, i, e, a);
        }
    }
    cx.part(part, e0);
}

// ------------------------------------------------------------ inputs

pub struct Input {
    /// name on the command line, content, gzip compressed on disk
    files: Vec<(String, Vec<u8>, bool)>,
    /// all lines over all files in order
    lines: Vec<(Vec<u8>, Option<Rec>)>,
}
fn gz(b: &[u8], r: &mut Rng) -> Vec<u8> {
    let one = |b: &[u8]| {
        let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
        e.write_all(b).unwrap();
        e.finish().unwrap()
    };
    if r.chance(40) && b.len() > 1 {
        let k = 1 + r.below(b.len() - 1);
        let mut o = one(&b[..k]);
        o.extend(one(&b[k..]));
        o
    } else {
        one(b)
    }
}
const BAD: [&[u8]; 9] = [b"\n", b"003@ \x1f0abc\n", b"003@\x1f0abc\x1e\n", b"\xff\n", b"003@ \x1f0abc\x1e", b"03@ \x1f0a\x1e\n", b"003@/1 \x1f0a\x1e\n", b"012a \x1fab\x1e\n", b"012A \x1f-b\x1e\n"];
fn gen_ppn(r: &mut Rng) -> String {
    match r.below(10) {
        0..=7 => format!("1{}", r.below(6)),
        8 => "00".into(),
        _ => "12X".into(),
    }
}
fn with_ppn(r: &mut Rng, mut rec: Rec) -> Rec {
    if r.chance(80) {
        let f = Fld {
            tag: b"003@".to_vec(),
            occ: if r.chance(5) { Some(b"00".to_vec()) } else { None },
            subs: vec![Sub { code: b'0', val: gen_ppn(r).into_bytes() }],
        };
        let k = if r.chance(70) { 0 } else { r.below(rec.len() + 1) };
        rec.insert(k, f);
    }
    rec
}
impl Input {
    fn new(r: &mut Rng, env: &Env, bad: bool, mut g: impl FnMut(&mut Rng) -> Rec) -> Input {
        let nf = [1, 1, 2, 3][r.below(4)];
        let mut files = vec![];
        let mut all = vec![];
        let mut recs: Vec<Rec> = vec![];
        let mut used_stdin = false;
        for i in 0..nf {
            let n = [0, 1, 2, 3, 3, 4, 5, 8][r.below(8)];
            // now and then a long input
            let n = if r.chance(2) { 30 + r.below(270) } else { n };
            let mut c: Vec<u8> = vec![];
            for j in 0..n {
                if bad && r.chance(22) {
                    let b = BAD[r.below(BAD.len())];
                    if b.ends_with(b"\n") || j + 1 == n {
                        c.extend(b);
                        continue;
                    }
                }
                let rec = if !recs.is_empty() && r.chance(15) { recs[r.below(recs.len())].clone() } else { g(r) };
                c.extend(ser(&rec));
                recs.push(rec);
            }
            for l in lines(&c) {
                let p = parse_line(&l);
                all.push((l, p));
            }
            let z = r.chance(25);
            let mut name = format!("in{i}.dat");
            if z {
                name.push_str(".gz");
                let b = gz(&c, r);
                env.put(&name, &b);
            } else if r.chance(20) && !used_stdin {
                name = "-".into();
                used_stdin = true;
            } else {
                env.put(&name, &c);
            }
            files.push((name, c, z));
        }
        Input { files, lines: all }
    }
    fn stdin(&self) -> Option<&[u8]> {
        self.files.iter().find(|f| f.0 == "-").map(|f| &f.1[..])
    }
    fn names(&self) -> Vec<String> {
        self.files.iter().map(|f| f.0.clone()).collect()
    }
    fn desc(&self) -> Value {
        json!(self.files.iter().map(|f| format!("{}: {}", f.0, show(&f.1))).collect::<Vec<_>>())
    }
    fn has_bad(&self) -> bool {
        self.lines.iter().any(|l| l.1.is_none())
    }
    fn recs(&self) -> Vec<&Rec> {
        self.lines.iter().filter_map(|l| l.1.as_ref()).collect()
    }
}
fn ppn(rec: &Rec) -> Option<Vec<u8>> {
    rec.iter()
        .filter(|f| f.tag == b"003@" && f.occ.as_deref().is_none_or(|o| o == b"00"))
        .flat_map(|f| f.subs.iter())
        .find(|s| s.code == b'0')
        .map(|s| s.val.clone())
}
fn gen_cli_rec(r: &mut Rng) -> Rec {
    let x = gen_rec_for(r);
    with_ppn(r, x)
}
fn gen_cli_rec_utf8(r: &mut Rng) -> Rec {
    loop {
        let x = gen_cli_rec(r);
        if utf8_ok(&x) {
            return x;
        }
    }
}

// ------------------------------------------------------------ filter options

pub struct FOpts {
    skip: bool,
    skip_cfg: bool,
    limit: usize,
    o: Opt,
    allow: Option<HashSet<Vec<u8>>>,
    deny: Option<HashSet<Vec<u8>>>,
    src: Option<PathX>,
    wh: Option<FldM>,
    and: Vec<FldM>,
    or: Vec<FldM>,
    not: Vec<FldM>,
    args: Vec<String>,
    pre: Vec<String>,
}
fn list_file(r: &mut Rng, env: &Env, name: &str, vals: &[String], col: Option<&str>) -> String {
    let q = |s: &String| if s.is_empty() || r.clone().chance(20) { format!("\"{s}\"") } else { s.clone() };
    let body = vals.iter().map(|v| format!("{}\n", q(v))).collect::<String>();
    let two = vals.iter().map(|v| format!("x,{}\n", q(v))).collect::<String>();
    let hdr = col.unwrap_or(if r.chance(50) { "ppn" } else { "idn" }).to_string();
    let (ext, text) = match r.below(if col.is_none() { 5 } else { 3 }) {
        0 => ("csv", format!("{hdr}\n{body}")),
        1 => ("tsv", format!("zz\t{hdr}\n{}", two.replace(',', "\t"))),
        2 => ("csv", format!("zz,{hdr}\n{two}")),
        3 => ("txt", body),
        _ => ("csv.gz", format!("{hdr}\n{body}")),
    };
    if vals.is_empty() {
        let f = format!("{name}.csv");
        env.put(&f, format!("{hdr}\n").as_bytes());
        return f;
    }
    let f = format!("{name}.{ext}");
    if ext.ends_with("gz") {
        let one = gz_one(text.as_bytes());
        env.put(&f, &one);
    } else {
        env.put(&f, text.as_bytes());
    }
    f
}
fn gz_one(b: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
fn gen_fm(r: &mut Rng) -> FldM {
    let d = r.below(2);
    gen_fldm(r, 0, d)
}
/// an expression with a good chance to hit some records and miss others
fn gen_hit(r: &mut Rng, recs: &[&Rec], o: &Opt) -> FldM {
    let mut best = gen_fm(r);
    for _ in 0..8 {
        let n = recs.iter().filter(|x| best.eval(x, o)).count();
        if n > 0 && n < recs.len() {
            break;
        }
        best = gen_fm(r);
    }
    best
}
impl FOpts {
    /// `filter`: options of the filter command (no --where)
    fn new(r: &mut Rng, env: &Env, inp: &Input, filter: bool) -> FOpts {
        let bad = inp.has_bad();
        let o = Opt { ci: r.chance(30), thr: 0.75 };
        let mut f = FOpts {
            skip: false,
            skip_cfg: false,
            limit: if r.chance(25) { 1 + r.below(5) } else { 0 },
            o,
            allow: None,
            deny: None,
            src: None,
            wh: None,
            and: vec![],
            or: vec![],
            not: vec![],
            args: vec![],
            pre: vec![],
        };
        if bad && r.chance(80) || r.chance(20) {
            f.skip = true;
            if r.chance(15) {
                f.skip_cfg = true;
                env.put("config.toml", b"skip-invalid = true\n");
                f.pre = vec!["-c".into(), "config.toml".into()];
            } else {
                f.args.push(if r.chance(50) { "-s" } else { "--skip-invalid" }.into());
            }
        }
        if f.limit > 0 {
            f.args.extend([if r.chance(50) { "-l" } else { "--limit" }.to_string(), f.limit.to_string()]);
        }
        if f.o.ci {
            f.args.push(if r.chance(50) { "-i" } else { "--ignore-case" }.into());
        }
        let mut near = None;
        if r.chance(20) {
            let mut p = r.below(100);
            let recs = inp.recs();
            if !recs.is_empty() && r.chance(60) {
                // a literal whose similarity to a value is close to the threshold
                let flds: Vec<&Fld> = recs.iter().flat_map(|x| x.iter()).collect();
                let fl = flds[r.below(flds.len())];
                if !fl.subs.is_empty() {
                    let s = &fl.subs[r.below(fl.subs.len())];
                    if let Ok(v) = std::str::from_utf8(&s.val) {
                        let mut cs: Vec<char> = v.chars().collect();
                        for _ in 0..1 + r.below(2) {
                            let k = r.below(cs.len() + 1);
                            match r.below(3) {
                                0 if k < cs.len() => cs[k] = 'q',
                                1 if k < cs.len() => {
                                    cs.remove(k);
                                }
                                _ => cs.insert(k, 'y'),
                            }
                        }
                        let lit: String = cs.into_iter().collect();
                        let sim = (similarity(v, &lit) * 100.0).floor() as usize;
                        p = [sim.saturating_sub(1), sim, sim + 1, sim + 2][r.below(4)].min(99);
                        near = Some(FldM::Dot(
                            Q::Default,
                            TagM::Exact(String::from_utf8(fl.tag.clone()).unwrap()),
                            OccM::Any,
                            SubM::Rel(Q::Default, Codes { text: (s.code as char).to_string(), set: vec![s.code] }, "=*", lit),
                        ));
                    }
                }
            }
            f.o.thr = p as f64 / 100.0;
            f.args.extend(["--strsim-threshold".to_string(), p.to_string()]);
        }
        let recs = inp.recs();
        if r.chance(30) {
            let mut pool: Vec<String> = recs.iter().filter_map(|x| ppn(x)).map(|v| String::from_utf8_lossy(&v).into_owned()).collect();
            if r.chance(25) {
                let mut p = gen_path(r);
                if let Some(x) = recs.first() {
                    let mut a = (p.tag.clone(), p.occ.clone());
                    aim(r, &mut a, x);
                    p.tag = a.0;
                    p.occ = a.1;
                }
                let def = Opt { ci: false, thr: 0.8 };
                pool = recs.iter().flat_map(|x| p.values(x, &def)).filter_map(|v| String::from_utf8(v).ok()).collect();
                f.args.extend(["--filter-set-source".to_string(), p.print(r)]);
                f.src = Some(p);
            }
            // plain values only: list files are read by a data frame library
            pool.retain(|s| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric()));
            pool.sort();
            pool.dedup();
            pool.extend(["10".to_string(), "17".into()]);
            let col = if r.chance(30) { Some("col") } else { None };
            if let Some(c) = col {
                f.args.extend(["--filter-set-column".to_string(), c.into()]);
            }
            let which = r.below(3);
            for (k, fl, short) in [(0, "--allow-list", "-A"), (1, "--deny-list", "-D")] {
                if which == 2 || which == k {
                    let nfiles = if r.chance(25) { 2 } else { 1 };
                    let mut set = HashSet::new();
                    for i in 0..nfiles {
                        let n = if r.chance(8) { 0 } else { 1 + r.below(3) };
                        let v: Vec<String> = (0..n).map(|_| r.pick(&pool).clone()).collect();
                        set.extend(v.iter().map(|s| s.clone().into_bytes()));
                        let file = list_file(r, env, &format!("list{k}{i}"), &v, col);
                        f.args.extend([if r.chance(50) { fl } else { short }.to_string(), file]);
                    }
                    if k == 0 {
                        f.allow = Some(set)
                    } else {
                        f.deny = Some(set)
                    }
                }
            }
        }
        if filter || near.is_some() || r.chance(50) {
            let m = near.unwrap_or_else(|| gen_hit(r, &recs, &f.o));
            if !filter {
                f.args.extend(["--where".to_string(), m.print(r)]);
            }
            f.wh = Some(m);
            if r.chance(30) {
                if r.chance(40) {
                    f.or = (0..1 + r.below(2)).map(|_| gen_hit(r, &recs, &f.o)).collect();
                } else {
                    if r.chance(60) {
                        f.and = (0..1 + r.below(2)).map(|_| gen_hit(r, &recs, &f.o)).collect();
                    }
                    if r.chance(60) {
                        f.not = (0..1 + r.below(2)).map(|_| gen_hit(r, &recs, &f.o)).collect();
                    }
                }
            }
        }
        for (n, l) in [("--and", &f.and), ("--or", &f.or), ("--not", &f.not)] {
            for m in l {
                f.args.extend([n.to_string(), m.print(r)]);
            }
        }
        f
    }
    fn set_ok(&self, rec: &Rec) -> bool {
        let def = Opt { ci: false, thr: 0.8 };
        let vals = match &self.src {
            Some(p) => p.values(rec, &def),
            None => PathX { tag: TagM::Exact("003@".into()), occ: OccM::None, lists: vec![Codes { text: "0".into(), set: vec![b'0'] }], filter: None }.values(rec, &def),
        };
        if let Some(d) = &self.deny {
            if vals.iter().any(|v| d.contains(v)) {
                return false;
            }
        }
        if let Some(a) = &self.allow {
            if !vals.iter().any(|v| a.contains(v)) {
                return false;
            }
        }
        true
    }
    fn expr_ok(&self, rec: &Rec) -> bool {
        match &self.wh {
            None => true,
            Some(m) => (m.eval(rec, &self.o) || self.or.iter().any(|x| x.eval(rec, &self.o))) && self.and.iter().all(|x| x.eval(rec, &self.o)) && self.not.iter().all(|x| !x.eval(rec, &self.o)),
        }
    }
    fn pass(&self, rec: &Rec) -> bool {
        self.set_ok(rec) && self.expr_ok(rec)
    }
    /// the selected records, and whether the run has to end with an error
    fn selected<'a>(&self, inp: &'a Input) -> (Vec<&'a Rec>, bool) {
        let mut out = vec![];
        for (_, l) in &inp.lines {
            match l {
                None => {
                    if !self.skip {
                        return (out, true);
                    }
                }
                Some(x) => {
                    if self.pass(x) {
                        out.push(x);
                        if self.limit > 0 && out.len() >= self.limit {
                            break;
                        }
                    }
                }
            }
        }
        (out, false)
    }
}

fn predicates(r: &mut Rng, recs: &[&Rec]) -> Vec<(TagM, OccM)> {
    let n = 1 + r.below(3);
    (0..r.large(9).unwrap_or(n))
        .map(|_| {
            let mut a = (gen_tag(r), gen_occ(r));
            if !recs.is_empty() {
                let x = recs[r.below(recs.len())];
                aim(r, &mut a, x);
            }
            a
        })
        .collect()
}
fn pred_text(r: &mut Rng, p: &[(TagM, OccM)]) -> String {
    p.iter().map(|(t, o)| format!("{}{}", t.print(), o.print())).collect::<Vec<_>>().join(if r.chance(50) { "," } else { ", " })
}
fn phit(p: &[(TagM, OccM)], f: &Fld) -> bool {
    p.iter().any(|(t, o)| t.hit(&f.tag) && o.hit(f.occ.as_deref()))
}
/// keep and discard options: arguments and lists
fn projection(r: &mut Rng, recs: &[&Rec], args: &mut Vec<String>) -> (Vec<(TagM, OccM)>, Vec<(TagM, OccM)>) {
    let mut keep = vec![];
    let mut disc = vec![];
    if r.chance(30) {
        keep = predicates(r, recs);
        args.extend([if r.chance(50) { "-k" } else { "--keep" }.to_string(), pred_text(r, &keep)]);
    }
    if r.chance(30) {
        disc = predicates(r, recs);
        args.extend([if r.chance(50) { "-d" } else { "--discard" }.to_string(), pred_text(r, &disc)]);
    }
    (keep, disc)
}
fn project(rec: &Rec, keep: &[(TagM, OccM)], disc: &[(TagM, OccM)]) -> Rec {
    rec.iter().filter(|f| (keep.is_empty() || phit(keep, f)) && (disc.is_empty() || !phit(disc, f))).cloned().collect()
}
fn ser_all<'a>(v: impl IntoIterator<Item = &'a Rec>) -> Vec<u8> {
    v.into_iter().flat_map(ser).collect()
}

/// where a command writes its records
struct Sink {
    args: Vec<String>,
    file: Option<String>,
    gz: bool,
    stdout: bool,
    old: Vec<u8>,
}
fn gen_sink(r: &mut Rng, env: &Env, tee: bool, append: bool, gzip: bool) -> Sink {
    let mut s = Sink { args: vec![], file: None, gz: false, stdout: true, old: vec![] };
    match r.below(10) {
        0..=4 => {}
        5 if tee => {
            s.file = Some("tee.dat".into());
            s.args.extend(["--tee".to_string(), "tee.dat".into()]);
        }
        6..=7 if gzip => {
            s.stdout = false;
            let by_flag = r.chance(50);
            let n = if by_flag { "out.dat" } else { "out.dat.gz" };
            s.gz = true;
            s.file = Some(n.into());
            s.args.extend(["-o".to_string(), n.into()]);
            if by_flag {
                s.args.push("-g".into());
            }
        }
        8 if append => {
            s.stdout = false;
            s.file = Some("out.dat".into());
            s.args.extend(["--append".to_string(), "--output".into(), "out.dat".into()]);
            if r.chance(70) {
                s.old = b"003@ \x1f0old\x1e\n".to_vec();
                env.put("out.dat", &s.old);
            }
        }
        _ => {
            s.stdout = false;
            s.file = Some("out.dat".into());
            s.args.extend(["--output".to_string(), "out.dat".into()]);
            if r.chance(30) {
                env.put("out.dat", b"will be replaced\n");
            }
        }
    }
    s
}
impl Sink {
    /// what was written, per destination
    fn written(&self, env: &Env, run: &Run) -> Vec<(String, Option<Vec<u8>>)> {
        let mut v = vec![];
        if self.stdout {
            v.push(("stdout".to_string(), Some(run.out.clone())));
        }
        if let Some(f) = &self.file {
            v.push((f.clone(), if self.gz { env.get_gz(f) } else { env.get(f) }));
        }
        v
    }
}
fn cmdline(args: &[String]) -> Value {
    json!(args)
}
fn check_bytes(env: &Env, sink: &Sink, run: &Run, want: &[u8], err: bool, what: &str, args: &[String], inp: &Input) -> Option<(String, Value, Value, Value)> {
    let input = json!({"args": cmdline(args), "files": inp.desc()});
    if err {
        if run.ok {
            return Some((format!("{what}: no error for an undecodable line"), input, json!("exit status other than 0"), json!({"status": run.code, "stdout": show(&run.out)})));
        }
        return None;
    }
    if !run.ok {
        return Some((format!("{what} fails"), input, json!("exit status 0"), json!({"status": run.code, "stderr": show(&run.err)})));
    }
    for (name, got) in sink.written(env, run) {
        let mut w = if name != "stdout" { sink.old.clone() } else { vec![] };
        w.extend(want);
        if got.as_deref() != Some(&w[..]) {
            return Some((format!("{what} writes other records"), input, json!(show(&w)), json!(format!("{name}: {}", got.map(|g| show(&g)).unwrap_or("missing".into())))));
        }
    }
    None
}

// ------------------------------------------------------------ filter

pub fn c13(cx: &mut Cx) {
    cx.rule("the filter command with random expressions, --and/--or/--not, allow and deny lists, keep and discard, limit, inversion, sinks and several plain, gzip and standard inputs with undecodable lines, against an independent model; distinct by command line and input; non-trivial = some records are written and some are not");
    let n = cx.n(6000);
    drive(cx, n, "filter", |r, env| {
        let bad = r.chance(50);
        let inp = Input::new(r, env, bad, gen_cli_rec);
        let mut f = FOpts::new(r, env, &inp, true);
        let mut args = std::mem::take(&mut f.pre);
        args.push("filter".into());
        args.extend(f.args.clone());
        let (keep, disc) = projection(r, &inp.recs(), &mut args);
        let inv = r.chance(25);
        if inv {
            args.push(if r.chance(50) { "-v" } else { "--invert-match" }.into());
        }
        let sink = gen_sink(r, env, true, true, true);
        args.extend(sink.args.clone());
        let expr = f.wh.as_ref().unwrap().print(r);
        if r.chance(15) {
            env.put("expr.txt", expr.as_bytes());
            args.extend(["-F".to_string(), "expr.txt".into()]);
        } else {
            args.push(expr);
        }
        args.extend(inp.names());
        let mut want = vec![];
        let (mut err, mut cnt, mut seen) = (false, 0, 0);
        for (_, l) in &inp.lines {
            match l {
                None if f.skip => {}
                None => {
                    err = true;
                    break;
                }
                Some(x) => {
                    seen += 1;
                    if f.set_ok(x) && f.expr_ok(x) != inv {
                        want.extend(ser(&project(x, &keep, &disc)));
                        cnt += 1;
                        if f.limit > 0 && cnt >= f.limit {
                            break;
                        }
                    }
                }
            }
        }
        let run = env.run(&args, inp.stdin());
        let fail = check_bytes(env, &sink, &run, &want, err, "filter", &args, &inp);
        Out { key: format!("{args:?} {}", inp.desc()), nt: cnt > 0 && cnt < seen, fail }
    });
}

/// the predicate lists of the command line
pub fn c12_cli(cx: &mut Cx) {
    cx.rule("--keep and --discard of the filter command with one to nine predicates per list, exact, pattern and occurrence forms, against list filtering");
    let n = cx.n(3000);
    drive(cx, n, "predicates", |r, env| {
        let inp = Input::new(r, env, false, gen_cli_rec);
        let recs = inp.recs();
        let mut args = vec!["filter".to_string()];
        let (mut keep, mut disc) = projection(r, &recs, &mut args);
        if keep.is_empty() && disc.is_empty() {
            if r.chance(50) {
                keep = predicates(r, &recs);
                args.extend(["--keep".to_string(), pred_text(r, &keep)]);
            } else {
                disc = predicates(r, &recs);
                args.extend(["--discard".to_string(), pred_text(r, &disc)]);
            }
        }
        // holds for every record
        args.push("#003@ >= 0".into());
        args.extend(inp.names());
        let all: Vec<Rec> = recs.iter().map(|x| project(x, &keep, &disc)).collect();
        let want = ser_all(&all);
        let run = env.run(&args, inp.stdin());
        let sink = Sink { args: vec![], file: None, gz: false, stdout: true, old: vec![] };
        let fail = check_bytes(env, &sink, &run, &want, false, "projection", &args, &inp);
        Out { key: format!("{args:?} {}", inp.desc()), nt: all.iter().zip(&recs).any(|(a, b)| !a.is_empty() && a.len() < b.len()), fail }
    });
}

// ------------------------------------------------------------ slice

pub fn c14(cx: &mut Cx) {
    cx.rule("the slice command with random start, end, length, limit, filters and inputs against an independent model; non-trivial = some records are written and some are not");
    let n = cx.n(6000);
    drive(cx, n, "slice", |r, env| {
        let bad = r.chance(60);
        let inp = Input::new(r, env, bad, gen_cli_rec);
        let mut f = FOpts::new(r, env, &inp, false);
        if r.chance(50) {
            f.limit = 0;
            if let Some(k) = f.args.iter().position(|a| a == "-l" || a == "--limit") {
                f.args.drain(k..k + 2);
            }
        }
        let mut args = std::mem::take(&mut f.pre);
        args.push("slice".into());
        args.extend(f.args.clone());
        let start = if r.chance(70) { r.below(5) } else { 0 };
        let start = r.large(40).unwrap_or(start);
        if start > 0 || r.chance(20) {
            args.extend(["--start".to_string(), start.to_string()]);
        }
        let (mut end, mut length) = (0, 0);
        match r.below(3) {
            0 => {
                end = 1 + r.below(8);
                args.extend(["--end".to_string(), end.to_string()]);
            }
            1 => {
                length = if r.chance(4) { usize::MAX - r.below(4) } else { 1 + r.below(5) };
                args.extend(["--length".to_string(), length.to_string()]);
            }
            _ => {}
        }
        let sink = gen_sink(r, env, false, true, true);
        args.extend(sink.args.clone());
        args.extend(inp.names());
        let mut want = vec![];
        let (mut i, mut cnt, mut err, mut late) = (0, 0, false, false);
        for (_, l) in &inp.lines {
            let done = end > 0 && i >= end || length > 0 && cnt >= length || f.limit > 0 && cnt >= f.limit;
            match l {
                None if f.skip => i += 1,
                None => {
                    // after the end of the range the line may remain unread
                    err = !done;
                    late = done;
                    break;
                }
                Some(x) => {
                    if f.pass(x) {
                        if i >= start && !done {
                            want.extend(ser(x));
                            cnt += 1;
                        }
                        i += 1;
                    }
                }
            }
        }
        let run = env.run(&args, inp.stdin());
        let fail = if late && !run.ok { None } else { check_bytes(env, &sink, &run, &want, err, "slice", &args, &inp) };
        Out { key: format!("{args:?} {}", inp.desc()), nt: cnt > 0 && cnt < inp.lines.len(), fail }
    });
}

// ------------------------------------------------------------ split, partition

fn listing(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir).map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}
fn check_dir(env: &Env, dir: &str, gzip: bool, want: &BTreeMap<String, Vec<u8>>, run: &Run, err: bool, what: &str, args: &[String], inp: &Input) -> Option<(String, Value, Value, Value)> {
    let input = json!({"args": cmdline(args), "files": inp.desc()});
    if err {
        return if run.ok { Some((format!("{what}: no error for an undecodable line"), input, json!("exit status other than 0"), json!("exit status 0"))) } else { None };
    }
    if !run.ok {
        return Some((format!("{what} fails"), input, json!("exit status 0"), json!({"status": run.code, "stderr": show(&run.err)})));
    }
    let got: BTreeMap<String, Option<Vec<u8>>> = listing(&env.dir.join(dir))
        .into_iter()
        .map(|n| {
            let p = format!("{dir}/{n}");
            let b = if gzip { env.get_gz(&p) } else { env.get(&p) };
            (n, b)
        })
        .collect();
    let w: BTreeMap<String, Option<Vec<u8>>> = want.iter().map(|(k, v)| (k.clone(), Some(v.clone()))).collect();
    if got != w {
        let d = |m: &BTreeMap<String, Option<Vec<u8>>>| json!(m.iter().map(|(k, v)| format!("{k}: {}", v.as_ref().map(|v| show(v)).unwrap_or("unreadable".into()))).collect::<Vec<_>>());
        return Some((format!("{what} writes other files"), input, d(&w), d(&got)));
    }
    None
}

pub fn c15(cx: &mut Cx) {
    cx.rule("split and partition with random chunk sizes, paths, templates, gzip, filters, limits and inputs against an independent model of every file; non-trivial = at least two files");
    let n = cx.n(3000);
    drive(cx, n, "split", |r, env| {
        let bad = r.chance(30);
        let inp = Input::new(r, env, bad, gen_cli_rec);
        let mut f = FOpts::new(r, env, &inp, false);
        let mut args = std::mem::take(&mut f.pre);
        args.push("split".into());
        args.extend(f.args.clone());
        let chunk = 1 + r.below(4);
        let chunk = r.large(300).unwrap_or(chunk);
        args.extend(["-o".to_string(), "out".into()]);
        let gzip = r.chance(25);
        if gzip {
            args.push("-g".into());
        }
        let mut tpl = if gzip { "{}.dat.gz" } else { "{}.dat" };
        if r.chance(30) {
            tpl = ["p-{}.dat", "{}_{}", "chunk{}.pp"][r.below(3)];
            args.extend(["--template".to_string(), tpl.into()]);
        }
        args.push(chunk.to_string());
        args.extend(inp.names());
        let (sel, err) = f.selected(&inp);
        let mut want = BTreeMap::new();
        want.insert(tpl.replace("{}", "0"), vec![]);
        for (i, c) in sel.chunks(chunk).enumerate() {
            want.insert(tpl.replace("{}", &i.to_string()), ser_all(c.iter().copied()));
        }
        let run = env.run(&args, inp.stdin());
        let fail = check_dir(env, "out", gzip, &want, &run, err, "split", &args, &inp);
        Out { key: format!("{args:?} {}", inp.desc()), nt: !err && want.len() > 1, fail }
    });
    drive(cx, n, "partition", |r, env| {
        let bad = r.chance(30);
        // values have to be usable as file names
        let inp = Input::new(r, env, bad, |r| {
            let mut x = gen_cli_rec_utf8(r);
            for s in x.iter_mut().flat_map(|f| f.subs.iter_mut()) {
                s.val.iter_mut().filter(|c| **c == b'/').for_each(|c| *c = b'_');
            }
            x
        });
        let mut f = FOpts::new(r, env, &inp, false);
        let mut args = std::mem::take(&mut f.pre);
        args.push("partition".into());
        args.extend(f.args.clone());
        args.extend(["-o".to_string(), "out".into()]);
        let gzip = r.chance(25);
        if gzip {
            args.push("-g".into());
        }
        let mut tpl = if gzip { "{}.dat.gz" } else { "{}.dat" };
        if r.chance(30) {
            tpl = ["p-{}.dat", "{}_{}", "x{}.pp"][r.below(3)];
            args.extend(["--template".to_string(), tpl.into()]);
        }
        let mut p = gen_path(r);
        if let Some(x) = inp.recs().first() {
            let mut a = (p.tag.clone(), p.occ.clone());
            aim(r, &mut a, x);
            p.tag = a.0;
            p.occ = a.1;
        }
        args.push(p.print(r));
        args.extend(inp.names());
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let (mut cnt, mut err) = (0, false);
        for (_, l) in &inp.lines {
            match l {
                None if f.skip => {}
                None => {
                    err = true;
                    break;
                }
                Some(x) => {
                    if !f.pass(x) {
                        continue;
                    }
                    let vals: BTreeSet<Vec<u8>> = p.values(x, &f.o).into_iter().collect();
                    for v in &vals {
                        want.entry(tpl.replace("{}", std::str::from_utf8(v).unwrap())).or_default().extend(ser(x));
                    }
                    if !vals.is_empty() {
                        cnt += 1;
                        if f.limit > 0 && cnt >= f.limit {
                            break;
                        }
                    }
                }
            }
        }
        let run = env.run(&args, inp.stdin());
        let fail = check_dir(env, "out", gzip, &want, &run, err, "partition", &args, &inp);
        Out { key: format!("{args:?} {}", inp.desc()), nt: !err && want.len() > 1, fail }
    });
}

// ------------------------------------------------------------ explode

fn gen_levels(r: &mut Rng, ordered: bool) -> Rec {
    let (t0, t1, t2) = (["003@", "012A", "028A", "044K"], ["101@", "145Z", "101U"], ["201A", "209A", "247C", "203@"]);
    let occs = ["01", "02", "01", "03", "00", "001"];
    let mut out: Rec = vec![];
    let n0 = r.below(4);
    let n0 = r.large(90).unwrap_or(n0);
    for _ in 0..n0 {
        out.push(gen_fld(r, &t0));
    }
    let n = r.below(9);
    let n = r.large(90).unwrap_or(n);
    let mut occ: Option<Vec<u8>> = None;
    for _ in 0..n {
        let k = r.below(10);
        if !ordered && k == 0 {
            out.push(gen_fld(r, &t0));
        } else if k <= 3 {
            out.push(gen_fld(r, &t1));
        } else {
            let mut f = gen_fld(r, &t2);
            if r.chance(45) {
                occ = if r.chance(15) { None } else { Some(r.pick(&occs).as_bytes().to_vec()) };
            }
            f.occ = occ.clone();
            out.push(f);
        }
    }
    if out.is_empty() {
        out.push(gen_fld(r, &t0));
    }
    out
}
fn explode(rec: &Rec, level: &str) -> Vec<Rec> {
    if level == "main" {
        return vec![rec.clone()];
    }
    let main: Vec<Fld> = rec.iter().filter(|f| f.tag[0] == b'0').cloned().collect();
    let rest: Vec<&Fld> = rec.iter().filter(|f| f.tag[0] != b'0').collect();
    let mut units: Vec<Vec<&Fld>> = vec![];
    let mut prev2 = true;
    for f in rest {
        let l1 = f.tag[0] == b'1';
        if units.is_empty() || (prev2 && l1) {
            units.push(vec![]);
        }
        prev2 = !l1;
        units.last_mut().unwrap().push(f);
    }
    let mut out = vec![];
    for u in units {
        if level == "local" {
            out.push(main.iter().cloned().chain(u.into_iter().cloned()).collect());
            continue;
        }
        let l1: Vec<Fld> = u.iter().filter(|f| f.tag[0] == b'1').map(|f| (*f).clone()).collect();
        let l2: Vec<&Fld> = u.into_iter().filter(|f| f.tag[0] == b'2').collect();
        for run in l2.chunk_by(|a, b| a.occ == b.occ) {
            out.push(main.iter().chain(&l1).chain(run.iter().copied()).cloned().collect());
        }
    }
    out
}
pub fn c16(cx: &mut Cx) {
    cx.rule("explode on random records with level-0 fields first (any order for level main), several local units and copies, with filters, keep, discard and limits, against an independent model; non-trivial = some record gives several");
    let n = cx.n(6000);
    drive(cx, n, "explode", |r, env| {
        let level = ["main", "local", "local", "copy", "copy", "copy"][r.below(6)];
        let bad = r.chance(25);
        let inp = Input::new(r, env, bad, |r| gen_levels(r, level != "main"));
        let mut f = FOpts::new(r, env, &inp, false);
        let mut args = std::mem::take(&mut f.pre);
        args.push("explode".into());
        args.extend(f.args.clone());
        let (keep, disc) = projection(r, &inp.recs(), &mut args);
        let sink = gen_sink(r, env, false, false, true);
        args.extend(sink.args.clone());
        args.push(level.into());
        args.extend(inp.names());
        let mut want = vec![];
        let (mut cnt, mut err, mut multi) = (0, false, false);
        'o: for (_, l) in &inp.lines {
            match l {
                None if f.skip => {}
                None => {
                    err = true;
                    break;
                }
                Some(x) => {
                    let e = explode(x, level);
                    multi |= e.len() > 1;
                    for y in e {
                        if !f.pass(&y) {
                            continue;
                        }
                        want.extend(ser(&project(&y, &keep, &disc)));
                        cnt += 1;
                        if f.limit > 0 && cnt >= f.limit {
                            break 'o;
                        }
                    }
                }
            }
        }
        let run = env.run(&args, inp.stdin());
        let fail = check_bytes(env, &sink, &run, &want, err, "explode", &args, &inp);
        Out { key: format!("{args:?} {}", inp.desc()), nt: multi && cnt > 0, fail }
    });
}

// ------------------------------------------------------------ tables

fn parse_csv(b: &[u8], delim: u8) -> Vec<Vec<Vec<u8>>> {
    let mut rows = vec![];
    let mut row: Vec<Vec<u8>> = vec![];
    let mut cur = vec![];
    let (mut i, mut quoted, mut any) = (0, false, false);
    while i < b.len() {
        let c = b[i];
        if quoted {
            if c == b'"' {
                if b.get(i + 1) == Some(&b'"') {
                    cur.push(b'"');
                    i += 1;
                } else {
                    quoted = false;
                }
            } else {
                cur.push(c);
            }
        } else if c == b'"' && cur.is_empty() {
            quoted = true;
            any = true;
        } else if c == delim {
            row.push(std::mem::take(&mut cur));
            any = true;
        } else if c == b'\n' {
            if any || !cur.is_empty() || !row.is_empty() {
                row.push(std::mem::take(&mut cur));
                rows.push(std::mem::take(&mut row));
            }
            any = false;
        } else {
            cur.push(c);
        }
        i += 1;
    }
    if any || !cur.is_empty() || !row.is_empty() {
        row.push(cur);
        rows.push(row);
    }
    rows
}
fn show_table(r: &[Vec<Vec<u8>>]) -> Value {
    json!(r.iter().map(|x| x.iter().map(|v| show(v)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn check_table(run: &Run, got: Option<Vec<u8>>, delim: u8, want: &[Vec<Vec<u8>>], err: bool, what: &str, args: &[String], inp: &Input, sorted: bool) -> Option<(String, Value, Value, Value)> {
    let input = json!({"args": cmdline(args), "files": inp.desc()});
    if err {
        return if run.ok { Some((format!("{what}: no error for an undecodable line"), input, json!("exit status other than 0"), json!("exit status 0"))) } else { None };
    }
    if !run.ok {
        return Some((format!("{what} fails"), input, json!("exit status 0"), json!({"status": run.code, "stderr": show(&run.err)})));
    }
    let Some(got) = got else {
        return Some((format!("{what} writes no output"), input, show_table(want), json!("missing")));
    };
    let mut g = parse_csv(&got, delim);
    let mut w = want.to_vec();
    if sorted {
        g.sort();
        w.sort();
    }
    if g != w {
        return Some((format!("{what} writes another table"), input, show_table(&w), show_table(&g)));
    }
    None
}
/// delimiter and destination of a table
fn table_sink(r: &mut Rng, args: &mut Vec<String>, ext: bool) -> (u8, Option<String>) {
    let tsv = r.chance(30);
    if ext {
        if r.chance(40) {
            let n = if tsv { "out.tsv" } else { "out.csv" };
            args.extend(["-o".to_string(), n.into()]);
            return (if tsv { b'\t' } else { b',' }, Some(n.into()));
        }
        return (b',', None);
    }
    if tsv {
        args.push("--tsv".into());
    }
    let d = if tsv { b'\t' } else { b',' };
    if r.chance(40) {
        args.extend(["-o".to_string(), "out.txt".into()]);
        (d, Some("out.txt".into()))
    } else {
        (d, None)
    }
}
fn lossy(v: &[u8]) -> Vec<u8> {
    String::from_utf8_lossy(v).into_owned().into_bytes()
}
fn gen_cli_query(r: &mut Rng, inp: &Input) -> (Vec<QFrag>, String) {
    let base = inp.recs().first().map(|x| (*x).clone()).unwrap_or_default();
    loop {
        let q = gen_query(r, &base);
        let t = print_query(r, &q);
        if !t.starts_with('-') && !t.contains('\0') {
            return (q, t);
        }
    }
}
fn query_opts(r: &mut Rng, f: &FOpts, args: &mut Vec<String>) -> QOpt {
    let mut q = QOpt { m: Opt { ci: f.o.ci, thr: f.o.thr }, sep: "|".into(), squash: false, merge: false };
    match r.below(4) {
        0 => {
            q.squash = true;
            args.push("--squash".into())
        }
        1 => {
            q.merge = true;
            args.push("--merge".into())
        }
        _ => {}
    }
    if r.chance(40) {
        q.sep = r.pick(&["", ";", "||", " / ", "ä"]).to_string();
        args.push(format!("--separator={}", q.sep));
    }
    q
}

pub fn c17(cx: &mut Cx) {
    use sha2::Digest;
    cx.rule("select, concat and sample with random queries, options, filters and inputs against an independent model; non-trivial = at least two rows or records and, for sample, fewer than selected");
    let n = cx.n(3500);
    drive(cx, n, "select", |r, env| {
        let bad = r.chance(25);
        let inp = Input::new(r, env, bad, gen_cli_rec);
        let mut f = FOpts::new(r, env, &inp, false);
        let (q, text) = gen_cli_query(r, &inp);
        let mut args = std::mem::take(&mut f.pre);
        args.push("select".into());
        args.extend(f.args.clone());
        let o = query_opts(r, &f, &mut args);
        let nec = r.chance(25);
        if nec {
            args.push("--no-empty-columns".into());
        }
        let uniq = r.chance(35);
        if uniq {
            args.push(if r.chance(50) { "-u" } else { "--unique" }.into());
        }
        let (sel, err) = f.selected(&inp);
        let cols = eval_query(&q, &vec![], &o).first().map(|x| x.len()).unwrap_or(0);
        let mut want = vec![];
        if r.chance(25) && cols > 0 {
            let h: Vec<String> = (0..cols).map(|i| format!("c{i}")).collect();
            args.extend(["-H".to_string(), h.join(if r.chance(50) { "," } else { ", " })]);
            want.push(h.into_iter().map(String::into_bytes).collect());
        }
        let (delim, file) = table_sink(r, &mut args, false);
        args.push(text);
        args.extend(inp.names());
        let mut seen = HashSet::new();
        let mut total = 0;
        for x in sel {
            for row in eval_query(&q, x, &o) {
                total += 1;
                if nec && row.iter().any(|c| c.is_empty()) || row.iter().all(|c| c.is_empty()) {
                    continue;
                }
                if uniq && !seen.insert(row.clone()) {
                    continue;
                }
                want.push(row);
            }
        }
        if total > 4000 {
            return Out { key: String::new(), nt: false, fail: None };
        }
        let run = env.run(&args, inp.stdin());
        let got = match &file {
            Some(n) => env.get(n),
            None => Some(run.out.clone()),
        };
        // a row of one empty column cannot be told from no row
        let fail = check_table(&run, got, delim, &want, err, "select", &args, &inp, false);
        Out { key: format!("{args:?} {}", inp.desc()), nt: want.len() > 1, fail }
    });
    drive(cx, n, "concat", |r, env| {
        let bad = r.chance(40);
        let inp = Input::new(r, env, bad, gen_cli_rec);
        let mut args: Vec<String> = vec!["concat".into()];
        let skip = inp.has_bad() && r.chance(80);
        if skip {
            args.push("-s".into());
        }
        let sink = gen_sink(r, env, true, true, false);
        args.extend(sink.args.clone());
        let mode = r.below(3);
        if mode > 0 {
            args.push(if r.chance(50) { "-u" } else { "--unique" }.into());
            if mode == 2 || r.chance(50) {
                args.extend(["--unique-strategy".to_string(), if mode == 2 { "hash" } else { "idn" }.into()]);
            }
        }
        args.extend(inp.names());
        let (mut want, mut err, mut cnt) = (vec![], false, 0);
        let mut seen = HashSet::new();
        for (l, p) in &inp.lines {
            let Some(x) = p else {
                if skip {
                    continue;
                }
                err = true;
                break;
            };
            let key = match mode {
                0 => None,
                1 => match ppn(x) {
                    Some(p) if !p.is_empty() => Some(lossy(&p)),
                    _ => continue,
                },
                _ => Some(sha2::Sha256::digest(l).to_vec()),
            };
            if key.is_some_and(|k| !seen.insert(k)) {
                continue;
            }
            want.extend(l);
            cnt += 1;
        }
        let run = env.run(&args, inp.stdin());
        let fail = check_bytes(env, &sink, &run, &want, err, "concat", &args, &inp);
        Out { key: format!("{args:?} {}", inp.desc()), nt: cnt > 1, fail }
    });
    drive(cx, n / 2, "sample", |r, env| {
        let bad = r.chance(25);
        let inp = Input::new(r, env, bad, gen_cli_rec);
        let mut f = FOpts::new(r, env, &inp, false);
        let mut args = std::mem::take(&mut f.pre);
        args.push("sample".into());
        args.extend(f.args.clone());
        let seeded = r.chance(60);
        if seeded {
            args.extend(["--seed".to_string(), r.below(1000).to_string()]);
        }
        let sink = gen_sink(r, env, false, false, true);
        args.extend(sink.args.clone());
        let k = 1 + r.below(6);
        args.push(k.to_string());
        args.extend(inp.names());
        let (sel, err) = f.selected(&inp);
        let run = env.run(&args, inp.stdin());
        let input = json!({"args": cmdline(&args), "files": inp.desc()});
        let key = format!("{args:?} {}", inp.desc());
        let nt = !err && k < sel.len();
        let mut fail = None;
        if err != !run.ok {
            fail = Some(("sample: exit status".into(), input, json!(if err { "error" } else { "success" }), json!({"status": run.code, "stderr": show(&run.err)})));
        } else if !err {
            let (name, got) = sink.written(env, &run).remove(0);
            match got {
                None => fail = Some(("sample writes no output".into(), input, json!(null), json!(name))),
                Some(g) => {
                    let ls = lines(&g);
                    let mut pool: Vec<Vec<u8>> = sel.iter().map(|x| ser(x)).collect();
                    let sub = ls.iter().all(|l| match pool.iter().position(|p| p == l) {
                        Some(i) => {
                            pool.swap_remove(i);
                            true
                        }
                        None => false,
                    });
                    if ls.len() != k.min(sel.len()) || !sub {
                        fail = Some(("sample".into(), input, json!(format!("{} of the {} selected records, each position at most once", k.min(sel.len()), sel.len())), json!(show(&g))));
                    } else if k >= sel.len() && g != ser_all(sel.iter().copied()) {
                        fail = Some(("sample of everything".into(), input, json!(show(&ser_all(sel.iter().copied()))), json!(show(&g))));
                    } else if seeded {
                        if let Some(n) = &sink.file {
                            let _ = std::fs::remove_file(env.dir.join(n));
                        }
                        let run2 = env.run(&args, inp.stdin());
                        let g2 = sink.written(env, &run2).remove(0).1;
                        if g2.as_deref() != Some(&g[..]) {
                            fail = Some(("sample with a seed is not reproducible".into(), input, json!(show(&g)), json!(g2.map(|g| show(&g)))));
                        }
                    }
                }
            }
        }
        Out { key, nt, fail }
    });
}

// ------------------------------------------------------------ check

fn toml_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// nfc, nfkc, nfd, nfkd
const NF: [(&str, [bool; 4]); 12] = [
    ("a", [true, true, true, true]),
    ("ä", [true, true, false, false]),
    ("a\u{308}", [false, false, true, true]),
    ("ﬁ", [true, false, true, false]),
    ("\u{212A}", [false, false, false, false]),
    ("ß", [true, true, true, true]),
    ("", [true, true, true, true]),
    ("x ä", [true, true, false, false]),
    ("²", [true, false, true, false]),
    ("\u{1e9b}\u{323}", [true, false, false, false]),
    ("한", [true, true, false, false]),
    ("abc", [true, true, true, true]),
];
fn nf_of(v: &str) -> Option<[bool; 4]> {
    NF.iter().find(|x| x.0 == v).map(|x| x.1)
}
/// valid or not as %Y-%m-%d
const DATES: [(&str, bool); 14] = [
    ("2020-01-31", true),
    ("2020-02-29", true),
    ("2021-02-29", false),
    ("2020-13-01", false),
    ("2020-00-01", false),
    ("1999-12-31", true),
    ("2020-01", false),
    ("", false),
    ("abc", false),
    ("2020/01/01", false),
    ("1900-02-29", false),
    ("2000-02-29", true),
    ("2020-04-31", false),
    ("2020-01-31x", false),
];
fn isni_digit(d: &[u8]) -> u8 {
    // ISO 7064 MOD 11-2
    let mut t = 0u32;
    for c in d {
        t = (t + (*c - b'0') as u32) * 2 % 11;
    }
    let x = (12 - t) % 11;
    if x == 10 {
        b'X'
    } else {
        b'0' + x as u8
    }
}
fn gen_isni(r: &mut Rng) -> String {
    let d: Vec<u8> = (0..15).map(|_| b'0' + r.below(10) as u8).collect();
    let mut s = String::from_utf8(d.clone()).unwrap();
    s.push(isni_digit(&d) as char);
    if s.ends_with('X') && r.chance(30) {
        s.pop();
        s.push(*r.pick(&['Y', 'x', ':', 'W', 'Z', '@', '0']));
        return s;
    }
    match r.below(9) {
        0 => {
            s.pop();
        }
        1 => {
            let k = r.below(15);
            let c = s.as_bytes()[k];
            s.replace_range(k..k + 1, &(((c - b'0' + 1) % 10) as u8 + b'0').to_string().chars().take(0).collect::<String>());
            s.insert(k, ((c - b'0' + 1) % 10 + b'0') as char);
        }
        2 => {
            s.pop();
            s.push(*r.pick(&['0', '5', 'X', 'Y']));
        }
        3 => s = format!("{}-{}-{}-{}", &s[..4], &s[4..8], &s[8..12], &s[12..]),
        4 => s = format!("{} {} {} {}", &s[..4], &s[4..8], &s[8..12], &s[12..]),
        5 => s.push('1'),
        6 => {
            let k = r.below(15);
            s.replace_range(k..k + 1, "A");
        }
        _ => {}
    }
    s
}
fn isni_ok(v: &[u8]) -> bool {
    let d: Vec<u8> = v.iter().copied().filter(|c| *c >= b'0').collect();
    d.len() == 16 && d[..15].iter().all(u8::is_ascii_digit) && d[15] == isni_digit(&d[..15])
}
const LANG: [(&str, bool); 8] = [("ger", true), ("eng", true), ("zza", true), ("aar", true), ("xyz", false), ("GER", false), ("de", false), ("", false)];
const JEL: [(&str, bool); 8] = [("A00", true), ("Z3", true), ("Z39", true), ("B4", true), ("A99", false), ("Z", false), ("a00", false), ("", false)];

enum RuleX {
    Filter(FldM, bool),
    Allow(PathX, Vec<String>),
    Date(PathX, usize),
    Dup(Vec<QFrag>, usize, Option<String>),
    Isni(PathX, Option<String>),
    Lang(PathX),
    Jel(PathX),
    Link(PathX, PathX, Option<FldM>),
    Uni(Option<usize>),
}
fn chk_path(r: &mut Rng) -> PathX {
    let mut p = gen_path(r);
    p.tag = TagM::Exact(r.pick(&["012A", "028A", "044K"]).to_string());
    p.occ = if r.chance(70) { OccM::Any } else { OccM::None };
    if r.chance(60) {
        p.filter = None;
    }
    p
}
fn gen_chk_rec(r: &mut Rng) -> Rec {
    let tags = ["012A", "028A", "044K"];
    let n = 1 + r.below(4);
    let kind = r.below(7);
    let mut rec: Rec = vec![];
    for _ in 0..n {
        let mut f = gen_fld(r, &tags);
        for s in &mut f.subs {
            if r.chance(85) {
                s.val = match kind {
                    0 => r.pick(&NF).0.as_bytes().to_vec(),
                    1 => {
                        let mut v = if r.chance(20) { "xx".to_string() } else { String::new() };
                        v.push_str(r.pick(&DATES).0);
                        v.into_bytes()
                    }
                    2 => {
                        let p = if r.chance(30) { "(isni)" } else { "" };
                        format!("{p}{}", gen_isni(r)).into_bytes()
                    }
                    3 => r.pick(&LANG).0.as_bytes().to_vec(),
                    4 => r.pick(&JEL).0.as_bytes().to_vec(),
                    5 => format!("1{}", r.below(9)).into_bytes(),
                    _ => r.pick(&["a", "b", "ab", "", "A", "x y", "a|b"]).as_bytes().to_vec(),
                };
            }
        }
        rec.push(f);
    }
    with_ppn(r, rec)
}
struct ChkRule {
    id: String,
    level: &'static str,
    tags: Option<Vec<String>>,
    o: Opt,
    x: RuleX,
}
fn rule_toml(r: &mut Rng, env: &Env, c: &ChkRule) -> String {
    let mut t = format!("[rule.{}]\n", c.id);
    if c.level != "error" || r.chance(30) {
        t.push_str(&format!("level = \"{}\"\n", c.level));
    }
    if let Some(tags) = &c.tags {
        t.push_str(&format!("tags = [{}]\n", tags.iter().map(|s| toml_str(s)).collect::<Vec<_>>().join(", ")));
    }
    if r.chance(20) {
        t.push_str("description = \"d\"\nlink = \"https://example.org\"\n");
    }
    if c.o.ci {
        t.push_str("case-ignore = true\n");
    }
    if c.o.thr != 0.8 {
        t.push_str(&format!("strsim-threshold = {:?}\n", c.o.thr));
    }
    let body = match &c.x {
        RuleX::Filter(m, inv) => format!("check = \"filter\"\nfilter = {}\n{}", toml_str(&m.print(r)), if *inv { "invert-match = true\n" } else { "" }),
        RuleX::Allow(p, v) => {
            let name = list_file(r, env, &format!("allow{}", c.id), v, Some("k"));
            format!("check = \"allow\"\npath = {}\nlist = {{ filename = \"{name}\", column = \"k\" }}\n", toml_str(&p.print(r)))
        }
        RuleX::Date(p, off) => format!("check = \"datetime\"\npath = {}\n{}", toml_str(&p.print(r)), if *off > 0 { format!("offset = {off}\n") } else { String::new() }),
        RuleX::Dup(q, th, sep) => format!(
            "check = \"duplicates\"\nquery = {}\n{}{}",
            toml_str(&print_query(r, q)),
            if *th != 2 { format!("threshold = {th}\n") } else { String::new() },
            sep.as_ref().map(|s| format!("separator = {}\n", toml_str(s))).unwrap_or_default()
        ),
        RuleX::Isni(p, pre) => format!("check = \"isni\"\npath = {}\n{}", toml_str(&p.print(r)), pre.as_ref().map(|s| format!("prefix = {}\n", toml_str(s))).unwrap_or_default()),
        RuleX::Lang(p) => format!("check = \"iso639-2b\"\npath = {}\n", toml_str(&p.print(r))),
        RuleX::Jel(p) => format!("check = \"jelc\"\npath = {}\n", toml_str(&p.print(r))),
        RuleX::Link(s, t, m) => format!(
            "check = \"link\"\nsource.path = {}\ntarget.path = {}\n{}",
            toml_str(&s.print(r)),
            toml_str(&t.print(r)),
            m.as_ref().map(|m| format!("target.filter = {}\n", toml_str(&m.print(r)))).unwrap_or_default()
        ),
        RuleX::Uni(nf) => format!("check = \"unicode\"\n{}", nf.map(|i| format!("normalization = \"{}\"\n", ["nfc", "nfkc", "nfd", "nfkd"][i])).unwrap_or_default()),
    };
    t + &body
}
/// `None`: this record's outcome is outside the tables of the oracle
fn rule_check(c: &ChkRule, x: &Rec) -> Option<(bool, Option<String>)> {
    let lo = |v: &[u8]| String::from_utf8_lossy(v).into_owned();
    let list = |v: Vec<String>| if v.is_empty() { (false, None) } else { (true, Some(v.join(", "))) };
    Some(match &c.x {
        RuleX::Filter(m, inv) => (m.eval(x, &c.o) != *inv, None),
        RuleX::Allow(p, l) => list(p.values(x, &c.o).iter().filter(|v| !l.iter().any(|k| k.as_bytes() == &v[..])).map(|v| lo(v)).collect()),
        RuleX::Date(p, off) => {
            let mut bad = vec![];
            for v in p.values(x, &c.o) {
                let ok = if *off >= v.len() {
                    false
                } else {
                    let s = String::from_utf8(v[*off..].to_vec()).ok()?;
                    match DATES.iter().find(|d| d.0 == s) {
                        Some(d) => d.1,
                        None if !s.starts_with(|c: char| c.is_ascii_digit() || c == '+' || c == '-' || c == ' ') => false,
                        None => return None,
                    }
                };
                if !ok {
                    bad.push(lo(&v));
                }
            }
            list(bad)
        }
        RuleX::Dup(q, th, sep) => {
            let o = QOpt { m: Opt { ci: c.o.ci, thr: c.o.thr }, sep: "|".into(), squash: false, merge: false };
            let mut m: BTreeMap<String, usize> = BTreeMap::new();
            for row in eval_query(q, x, &o) {
                if row.iter().all(|c| c.is_empty()) {
                    continue;
                }
                let k = row.iter().map(|v| lo(v)).collect::<Vec<_>>().join(sep.as_deref().unwrap_or("|"));
                *m.entry(k).or_default() += 1;
            }
            let v: Vec<String> = m.into_iter().filter(|x| x.1 >= *th).map(|x| x.0).collect();
            if v.is_empty() {
                (false, None)
            } else {
                (true, Some(v.join("; ")))
            }
        }
        RuleX::Isni(p, pre) => {
            let mut bad = vec![];
            for v in p.values(x, &c.o) {
                let s = match pre {
                    None => &v[..],
                    Some(k) => match v.strip_prefix(k.as_bytes()) {
                        Some(s) => s,
                        None => continue,
                    },
                };
                if !isni_ok(s) {
                    bad.push(lo(&v));
                }
            }
            list(bad)
        }
        RuleX::Lang(p) => {
            let mut bad = vec![];
            for v in p.values(x, &c.o) {
                let s = lo(&v);
                match LANG.iter().find(|l| l.0 == s) {
                    Some(l) if l.1 => {}
                    None if s.len() == 3 && s.is_ascii() && s.chars().all(|c| c.is_ascii_lowercase()) => return None,
                    _ => bad.push(s),
                }
            }
            list(bad)
        }
        RuleX::Jel(p) => {
            let mut bad = vec![];
            for v in p.values(x, &c.o) {
                let s = lo(&v);
                match JEL.iter().find(|l| l.0 == s) {
                    Some(l) if l.1 => {}
                    None if s.starts_with(|c: char| c.is_ascii_uppercase()) && s[1..].chars().all(|c| c.is_ascii_digit()) => return None,
                    _ => bad.push(s),
                }
            }
            list(bad)
        }
        RuleX::Link(..) => (false, None),
        RuleX::Uni(nf) => {
            if !utf8_ok(x) {
                return Some((true, None));
            }
            let Some(i) = nf else { return Some((false, None)) };
            let mut bad = vec![];
            for s in x.iter().flat_map(|f| &f.subs) {
                let t = std::str::from_utf8(&s.val).unwrap();
                let ok = if t.is_ascii() { true } else { nf_of(t)?[*i] };
                if !ok {
                    bad.push(t.to_string());
                }
            }
            list(bad)
        }
    })
}
pub fn c18(cx: &mut Cx) {
    cx.rule("the check command with one or two generated rule sets of one to four rules of all kinds, scope, termination, tag and rule selection, filters, limits and inputs against an independent model; distinct by rules and input; non-trivial = some rule is reported and some is not");
    let n = cx.n(5000);
    drive(cx, n, "check", |r, env| {
        let bad = r.chance(25);
        let inp = Input::new(r, env, bad, gen_chk_rec);
        let recs = inp.recs();
        let mut f = FOpts::new(r, env, &inp, false);
        let nsets = if r.chance(25) { 2 } else { 1 };
        let mut args = std::mem::take(&mut f.pre);
        args.push("check".into());
        args.extend(f.args.clone());
        let mut sets = vec![];
        let mut id = 0;
        let mut tomls = vec![];
        for k in 0..nsets {
            let scope = if r.chance(35) { Some(gen_hit(r, &recs, &Opt { ci: false, thr: 0.8 })) } else { None };
            let nr = 1 + r.below(4);
            let mut rules = vec![];
            for _ in 0..nr {
                id += 1;
                let o = Opt { ci: r.chance(25), thr: if r.chance(15) { 0.5 } else { 0.8 } };
                let x = match r.below(12) {
                    0..=1 => RuleX::Filter(gen_hit(r, &recs, &o), r.chance(30)),
                    2 => {
                        let p = chk_path(r);
                        let mut pool: Vec<String> = recs.iter().flat_map(|x| p.values(x, &o)).filter_map(|v| String::from_utf8(v).ok()).filter(|s| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric())).collect();
                        pool.push("a".into());
                        let n = 1 + r.below(4);
                        let v = (0..n).map(|_| r.pick(&pool).clone()).collect();
                        RuleX::Allow(p, v)
                    }
                    3 => RuleX::Date(chk_path(r), if r.chance(25) { 2 } else { 0 }),
                    4..=5 => {
                        let base = recs.first().map(|x| (*x).clone()).unwrap_or_default();
                        let mut q = gen_query(r, &base);
                        q.truncate(2);
                        RuleX::Dup(q, if r.chance(75) { 2 } else { 1 + r.below(3) }, if r.chance(20) { Some("-".into()) } else { None })
                    }
                    6 => RuleX::Isni(chk_path(r), if r.chance(40) { Some("(isni)".into()) } else { None }),
                    7 => RuleX::Lang(chk_path(r)),
                    8 => RuleX::Jel(chk_path(r)),
                    9..=10 => {
                        let mut t = chk_path(r);
                        if r.chance(70) {
                            t = PathX { tag: TagM::Exact("003@".into()), occ: OccM::None, lists: vec![Codes { text: "0".into(), set: vec![b'0'] }], filter: None };
                        }
                        RuleX::Link(chk_path(r), t, if r.chance(40) { Some(gen_hit(r, &recs, &o)) } else { None })
                    }
                    _ => RuleX::Uni(if r.chance(75) { Some(r.below(4)) } else { None }),
                };
                let tags = if r.chance(50) { Some((0..1 + r.below(2)).map(|_| r.pick(&["IE", "FE", "X"]).to_string()).collect()) } else { None };
                rules.push(ChkRule { id: format!("R{}{id}", ["A", "B"][r.below(2)]), level: ["error", "warning", "info"][r.below(3)], tags, o, x });
            }
            let mut t = String::new();
            if let Some(s) = &scope {
                t.push_str(&format!("scope = {}\n", toml_str(&s.print(r))));
            }
            // which of several rules comes first is free; a link rule may then miss values
            let fast = r.chance(25) && !rules.iter().any(|c: &ChkRule| matches!(c.x, RuleX::Link(..)));
            if fast || r.chance(10) {
                t.push_str(&format!("termination = \"{}\"\n", if fast { "fast" } else { "default" }));
            }
            for c in &rules {
                t.push_str(&rule_toml(r, env, c));
            }
            env.put(&format!("rules{k}.toml"), t.as_bytes());
            args.extend([if r.chance(50) { "-R" } else { "--rule-set" }.to_string(), format!("rules{k}.toml")]);
            tomls.push(t);
            sets.push((scope, rules, fast));
        }
        let rf = if r.chance(25) { Some(*r.pick(&["A", "^RB", "1$", "RA1|RB2"])) } else { None };
        if let Some(p) = rf {
            args.extend([if r.chance(50) { "-r" } else { "--rule" }.to_string(), p.into()]);
        }
        let tf = if r.chance(25) { Some(*r.pick(&["IE", "FE,X", "X, IE", "none"])) } else { None };
        if let Some(p) = tf {
            args.extend([if r.chance(50) { "-t" } else { "--tags" }.to_string(), p.into()]);
        }
        let sel_rule = |c: &ChkRule| {
            rf.is_none_or(|p| match p {
                "A" => c.id.contains('A'),
                "^RB" => c.id.starts_with("RB"),
                "1$" => c.id.ends_with('1'),
                _ => c.id.contains("RA1") || c.id.contains("RB2"),
            }) && tf.is_none_or(|p| c.tags.as_ref().is_some_and(|t| t.iter().any(|x| p.split(',').any(|y| y.trim() == x))))
        };
        let txt = r.chance(10) && !sets.iter().any(|s| s.2);
        let (delim, file) = if txt {
            args.extend(["-o".to_string(), "out.txt".into()]);
            (b',', Some("out.txt".to_string()))
        } else {
            table_sink(r, &mut args, true)
        };
        args.extend(inp.names());
        let (sel, err) = f.selected(&inp);
        let mut want: Vec<Vec<Vec<u8>>> = vec![];
        let mut outside = false;
        let mut nrule = 0;
        // sets with fast termination: for each record in scope the rows of which one is written
        let mut one_of: Vec<(Vec<Vec<Vec<u8>>>, Vec<Vec<Vec<u8>>>)> = vec![];
        for (scope, rules, fast) in &sets {
            if *fast {
                for x in &sel {
                    if !scope.as_ref().is_none_or(|s| s.eval(x, &Opt { ci: false, thr: 0.8 })) {
                        continue;
                    }
                    let mut rows = vec![];
                    for c in rules.iter().filter(|c| sel_rule(c)) {
                        match rule_check(c, x) {
                            None => outside = true,
                            Some((true, m)) => rows.push(vec![ppn(x).unwrap_or_default(), c.id.clone().into_bytes(), c.level.as_bytes().to_vec(), m.unwrap_or_default().into_bytes()]),
                            Some((false, _)) => {}
                        }
                    }
                    if !rows.is_empty() {
                        one_of.push((rows, vec![]));
                    }
                }
                nrule += 1;
                continue;
            }
            for c in rules.iter().filter(|c| sel_rule(c)) {
                nrule += 1;
                let mut row = |p: Vec<u8>, m: Option<String>| {
                    want.push(if txt { vec![p] } else { vec![p, c.id.clone().into_bytes(), c.level.as_bytes().to_vec(), m.unwrap_or_default().into_bytes()] })
                };
                let inscope: Vec<&Rec> = sel.iter().copied().filter(|x| scope.as_ref().is_none_or(|s| s.eval(x, &Opt { ci: false, thr: 0.8 }))).collect();
                if let RuleX::Link(s, t, m) = &c.x {
                    let targets: HashSet<Vec<u8>> = sel.iter().filter(|x| m.as_ref().is_none_or(|m| m.eval(x, &c.o))).flat_map(|x| t.values(x, &c.o)).collect();
                    let mut by: BTreeMap<Vec<u8>, Vec<Vec<u8>>> = BTreeMap::new();
                    for x in &inscope {
                        for v in s.values(x, &c.o) {
                            if !targets.contains(&v) {
                                by.entry(ppn(x).unwrap_or_default()).or_default().push(lossy(&v));
                            }
                        }
                    }
                    for (p, v) in by {
                        row(p, Some(String::from_utf8(v.join(&b", "[..])).unwrap()));
                    }
                    continue;
                }
                for x in inscope {
                    match rule_check(c, x) {
                        None => outside = true,
                        Some((true, m)) => row(ppn(x).unwrap_or_default(), m),
                        Some((false, _)) => {}
                    }
                }
            }
        }
        if outside {
            return Out { key: String::new(), nt: false, fail: None };
        }
        let nw = want.len() + one_of.len();
        let nt = nw > 0 && nw < nrule * sel.len();
        let run = env.run(&args, inp.stdin());
        let got = match &file {
            Some(n) => env.get(n),
            None => Some(run.out.clone()),
        };
        // the order of the values of a duplicates message is free
        let sort_dup = |b: Vec<u8>| b;
        let got = got.map(sort_dup);
        let norm = |rows: &mut Vec<Vec<Vec<u8>>>| {
            for row in rows.iter_mut() {
                if row.len() == 4 && sets.iter().flat_map(|s| &s.1).any(|c| c.id.as_bytes() == &row[1][..] && matches!(c.x, RuleX::Dup(..))) {
                    let s = String::from_utf8_lossy(&row[3]).into_owned();
                    let mut v: Vec<&str> = s.split("; ").collect();
                    v.sort();
                    row[3] = v.join("; ").into_bytes();
                }
            }
        };
        let input = json!({"args": cmdline(&args), "files": inp.desc(), "rules": tomls});
        let key = format!("{args:?} {tomls:?} {}", inp.desc());
        let fail = if err {
            if run.ok {
                Some(("check: no error for an undecodable line".to_string(), input, json!("exit status other than 0"), json!("exit status 0")))
            } else {
                None
            }
        } else if !run.ok {
            Some(("check fails".to_string(), input, json!("exit status 0"), json!({"status": run.code, "stderr": show(&run.err)})))
        } else {
            let raw = got.unwrap_or_default();
            let mut g = if txt { raw.split(|c| *c == b'\n').map(|l| vec![l.strip_prefix(b"\"").and_then(|l| l.strip_suffix(b"\"")).unwrap_or(l).to_vec()]).collect::<Vec<_>>() } else { parse_csv(&raw, delim) };
            if txt {
                g.pop();
            }
            let mut w = want.clone();
            norm(&mut g);
            norm(&mut w);
            let mut hdr_ok = true;
            if !txt && (!w.is_empty() || !one_of.is_empty()) {
                let h = if g.is_empty() { vec![] } else { g.remove(0) };
                hdr_ok = h == [&b"ppn"[..], b"rule", b"level", b"message"].map(|x| x.to_vec()).to_vec();
            }
            // rows come in the order of the records: each record with a hit has taken one of its rows
            for set in sets.iter().filter(|s| s.2) {
                let mine = |row: &Vec<Vec<u8>>| row.len() == 4 && set.1.iter().any(|c| c.id.as_bytes() == &row[1][..]);
                let mut rows = g.iter().filter(|x| mine(x)).cloned();
                for o in one_of.iter_mut().filter(|o| mine(&o.0[0])) {
                    norm(&mut o.0);
                    match rows.next() {
                        Some(x) if o.0.contains(&x) => o.1.push(x),
                        _ => {}
                    }
                }
            }
            for o in &one_of {
                w.push(o.1.first().unwrap_or(&o.0[0]).clone());
            }
            g.sort();
            w.sort();
            if g != w || !hdr_ok {
                Some(("check reports other violations".to_string(), input, show_table(&w), show_table(&g)))
            } else {
                None
            }
        };
        Out { key, nt, fail }
    });
}

// ------------------------------------------------------------ invalid

pub fn c19(cx: &mut Cx) {
    cx.rule("invalid and concat --skip-invalid on random inputs of one to three plain, gzip and standard inputs with mutated and undecodable lines; their outputs against the lines an independent decoder rejects and accepts; non-trivial = both outputs are not empty");
    let n = cx.n(4000);
    drive(cx, n, "invalid", |r, env| {
        let nf = 1 + r.below(3);
        let (mut names, mut all, mut stdin, mut desc) = (vec![], vec![], None, vec![]);
        for i in 0..nf {
            let mut c = crate::p_codec::gen_stream(r);
            if r.chance(20) {
                c = crate::p_codec::gen_stream(r).into_iter().chain(BAD[r.below(BAD.len())].iter().copied()).collect();
            }
            all.extend(lines(&c));
            let mut name = format!("in{i}.dat");
            desc.push(format!("{name}: {}", show(&c)));
            if r.chance(30) {
                name.push_str(".gz");
                let b = gz(&c, r);
                env.put(&name, &b);
            } else if stdin.is_none() && r.chance(25) {
                name = "-".into();
                stdin = Some(c);
            } else {
                env.put(&name, &c);
            }
            names.push(name);
        }
        let to_file = r.chance(30);
        let mut a1: Vec<String> = vec!["invalid".into()];
        let mut a2: Vec<String> = vec!["concat".into(), "-s".into()];
        if to_file {
            a1.extend(["-o".to_string(), "bad.dat".into()]);
            a2.extend(["-o".to_string(), "good.dat".into()]);
        }
        a1.extend(names.clone());
        a2.extend(names);
        let r1 = env.run(&a1, stdin.as_deref());
        let r2 = env.run(&a2, stdin.as_deref());
        let g1 = if to_file { env.get("bad.dat").unwrap_or_default() } else { r1.out.clone() };
        let g2 = if to_file { env.get("good.dat").unwrap_or_default() } else { r2.out.clone() };
        let w1: Vec<u8> = all.iter().filter(|l| parse_line(l).is_none()).flatten().copied().collect();
        let w2: Vec<u8> = all.iter().filter(|l| parse_line(l).is_some()).flatten().copied().collect();
        let mut fail = None;
        if !r1.ok || !r2.ok || g1 != w1 || g2 != w2 {
            fail = Some((
                "invalid / concat --skip-invalid".to_string(),
                json!({"args": [a1, a2], "files": desc}),
                json!({"invalid": show(&w1), "skip-invalid": show(&w2)}),
                json!({"invalid": show(&g1), "skip-invalid": show(&g2), "status": [r1.code, r2.code], "stderr": [show(&r1.err), show(&r2.err)]}),
            ));
        }
        Out { key: format!("{desc:?}"), nt: !w1.is_empty() && !w2.is_empty(), fail }
    });
}

// ------------------------------------------------------------ hash, print, convert

fn head(f: &Fld) -> Vec<u8> {
    let mut o = f.tag.clone();
    if let Some(c) = &f.occ {
        o.push(b'/');
        o.extend(c);
    }
    o
}
/// (tag, occurrence attribute, subfields) per record of a picaXML text
fn read_xml(s: &str) -> Option<Vec<Vec<(String, Option<String>, Vec<(String, String)>)>>> {
    let unesc = |t: &str| -> Option<String> {
        let mut o = String::new();
        let mut rest = t;
        while let Some(i) = rest.find('&') {
            o.push_str(&rest[..i]);
            let j = rest[i..].find(';')? + i;
            match &rest[i + 1..j] {
                "amp" => o.push('&'),
                "lt" => o.push('<'),
                "gt" => o.push('>'),
                "quot" => o.push('"'),
                "apos" => o.push('\''),
                x if x.starts_with("#x") => o.push(char::from_u32(u32::from_str_radix(&x[2..], 16).ok()?)?),
                x if x.starts_with('#') => o.push(char::from_u32(x[1..].parse().ok()?)?),
                _ => return None,
            }
            rest = &rest[j + 1..];
        }
        o.push_str(rest);
        Some(o)
    };
    let attr = |tag: &str, k: &str| -> Option<String> {
        let p = format!(" {k}=\"");
        let i = tag.find(&p)? + p.len();
        let j = tag[i..].find('"')? + i;
        unesc(&tag[i..j])
    };
    let s = s.strip_prefix("<?xml version=\"1.0\" encoding=\"UTF-8\"?>")?;
    let mut out = vec![];
    let mut stack: Vec<String> = vec![];
    let mut closed = false;
    let mut rest = s;
    let mut text = String::new();
    loop {
        let Some(i) = rest.find('<') else {
            break if rest.trim().is_empty() && stack.is_empty() && closed { Some(out) } else { None };
        };
        text.push_str(&rest[..i]);
        let j = rest[i..].find('>')? + i;
        let tag = &rest[i + 1..j];
        rest = &rest[j + 1..];
        if let Some(name) = tag.strip_prefix('/') {
            if stack.pop()? != name {
                return None;
            }
            if name == "subfield" {
                let f: &mut Vec<(String, Option<String>, Vec<(String, String)>)> = out.last_mut()?;
                f.last_mut()?.2.last_mut()?.1 = unesc(&text)?;
            } else if !text.trim().is_empty() {
                return None;
            }
            closed = name == "collection";
        } else {
            if !text.trim().is_empty() {
                return None;
            }
            let selfc = tag.ends_with('/');
            let t = tag.trim_end_matches('/').trim_end();
            let name = t.split_whitespace().next()?.to_string();
            match (name.as_str(), stack.last().map(|s| s.as_str())) {
                ("collection", None) => {}
                ("record", Some("collection")) => out.push(vec![]),
                ("datafield", Some("record")) => out.last_mut()?.push((attr(t, "tag")?, attr(t, "occurrence"), vec![])),
                ("subfield", Some("datafield")) => out.last_mut()?.last_mut()?.2.push((attr(t, "code")?, String::new())),
                _ => return None,
            }
            if !selfc {
                stack.push(name);
            } else if name == "collection" {
                closed = true;
            }
        }
        text.clear();
    }
}
fn gen_conv_rec(r: &mut Rng) -> Rec {
    let mut x = gen_cli_rec(r);
    for f in &mut x {
        for s in &mut f.subs {
            if r.chance(15) {
                s.val = r.pick(&["$", "a$b", "$$", "<b>", "a&b", "\"q\"", "]]>", "a'b", " lead", "trail ", ",", "a,b", "\\", "{}", "a;b"]).as_bytes().to_vec();
            }
        }
    }
    x
}
pub fn c20(cx: &mut Cx) {
    use sha2::Digest;
    cx.rule("hash, print and convert to every format on random inputs with filters, limits and special characters against independent renderings; non-trivial = at least two records");
    let n = cx.n(2500);
    drive(cx, n, "hash", |r, env| {
        let bad = r.chance(25);
        let inp = Input::new(r, env, bad, gen_cli_rec);
        let mut f = FOpts::new(r, env, &inp, false);
        let mut args = std::mem::take(&mut f.pre);
        args.push("hash".into());
        args.extend(f.args.clone());
        let mut h = vec![b"ppn".to_vec(), b"hash".to_vec()];
        if r.chance(30) {
            args.extend(["-H".to_string(), "idn, sha".into()]);
            h = vec![b"idn".to_vec(), b"sha".to_vec()];
        }
        let (delim, file) = table_sink(r, &mut args, false);
        args.extend(inp.names());
        let (sel, err) = f.selected(&inp);
        let mut want = vec![h];
        for x in sel {
            let d: String = sha2::Sha256::digest(ser(x)).iter().map(|b| format!("{b:02x}")).collect();
            want.push(vec![lossy(&ppn(x).unwrap_or_default()), d.into_bytes()]);
        }
        let run = env.run(&args, inp.stdin());
        let got = match &file {
            Some(n) => env.get(n),
            None => Some(run.out.clone()),
        };
        let fail = check_table(&run, got, delim, &want, err, "hash", &args, &inp, false);
        Out { key: format!("{args:?} {}", inp.desc()), nt: want.len() > 2, fail }
    });
    drive(cx, n, "print", |r, env| {
        let bad = r.chance(25);
        let inp = Input::new(r, env, bad, gen_conv_rec);
        let mut f = FOpts::new(r, env, &inp, false);
        let mut args = std::mem::take(&mut f.pre);
        args.push("print".into());
        args.extend(f.args.clone());
        let mut sink = gen_sink(r, env, false, false, false);
        if sink.file.is_none() {
            sink.args.clear();
        }
        args.extend(sink.args.clone());
        args.extend(inp.names());
        let (sel, err) = f.selected(&inp);
        let mut want = vec![];
        for x in &sel {
            for fl in x.iter() {
                want.extend(head(fl));
                for s in &fl.subs {
                    want.extend(b" $");
                    want.push(s.code);
                    want.push(b' ');
                    want.extend(lossy(&s.val));
                }
                want.push(b'\n');
            }
            want.push(b'\n');
        }
        let run = env.run(&args, inp.stdin());
        let fail = check_bytes(env, &sink, &run, &want, err, "print", &args, &inp);
        Out { key: format!("{args:?} {}", inp.desc()), nt: sel.len() > 1, fail }
    });
    // one fixed input for the recorded finding: the occurrence is left out
    drive(cx, 1, "convert to xml keeps occurrences", |_, env| {
        let data = b"003@ \x1f01\x1e041A/02 \x1faX\x1e\n";
        let args: Vec<String> = ["convert", "--from", "plus", "--to", "xml"].iter().map(|s| s.to_string()).collect();
        let run = env.run(&args, Some(data));
        let text = String::from_utf8_lossy(&run.out).into_owned();
        let fail = (!text.contains("occurrence=\"02\"")).then(|| {
            ("convert to xml leaves out the occurrence".to_string(), json!({"args": args, "stdin": show(data)}), json!("<datafield tag=\"041A\" occurrence=\"02\">"), json!(text))
        });
        Out { key: "xml occurrence".into(), nt: true, fail }
    });
    drive(cx, n * 2, "convert", |r, env| {
        let bad = r.chance(25);
        let to = ["plus", "binary", "import", "plain", "json", "xml"][r.below(6)];
        let inp = Input::new(r, env, bad, gen_conv_rec);
        let mut args: Vec<String> = vec!["convert".into()];
        let skip = inp.has_bad() && r.chance(80);
        if skip {
            args.push("-s".into());
        }
        args.extend(["--from".to_string(), "plus".into(), "--to".into(), to.into()]);
        let file = r.chance(40);
        if file {
            args.extend(["-o".to_string(), "out.x".into()]);
        }
        args.extend(inp.names());
        let err = inp.has_bad() && !skip;
        let recs = inp.recs();
        let run = env.run(&args, inp.stdin());
        let got = if file { env.get("out.x").unwrap_or_default() } else { run.out.clone() };
        let input = json!({"args": cmdline(&args), "files": inp.desc()});
        let body = |f: &Fld| -> Vec<u8> {
            let mut o = head(f);
            o.push(b' ');
            for s in &f.subs {
                o.push(0x1f);
                o.push(s.code);
                o.extend(&s.val);
            }
            o
        };
        let mut fail = None;
        if err || !run.ok {
            if err == run.ok {
                fail = Some(("convert: exit status".to_string(), input, json!(if err { "error" } else { "success" }), json!({"status": run.code, "stderr": show(&run.err)})));
            }
        } else if to == "json" {
            let want: Value = json!(recs
                .iter()
                .map(|x| x
                    .iter()
                    .map(|f| {
                        let mut a = vec![json!(String::from_utf8_lossy(&f.tag)), f.occ.as_ref().map(|o| json!(format!("/{}", String::from_utf8_lossy(o)))).unwrap_or(Value::Null)];
                        for s in &f.subs {
                            a.push(json!((s.code as char).to_string()));
                            a.push(json!(String::from_utf8_lossy(&s.val)));
                        }
                        a
                    })
                    .collect::<Vec<_>>())
                .collect::<Vec<_>>());
            let g: Option<Value> = serde_json::from_slice(&got).ok();
            if g.as_ref() != Some(&want) {
                fail = Some(("convert to json".to_string(), input, want, g.unwrap_or(json!(show(&got)))));
            }
        } else if to == "xml" {
            // the occurrence is not part of the output; see known findings
            let want: Vec<Vec<(String, Option<String>, Vec<(String, String)>)>> = recs
                .iter()
                .map(|x| {
                    x.iter()
                        .map(|f| {
                            (
                                String::from_utf8_lossy(&f.tag).into_owned(),
                                None,
                                f.subs.iter().map(|s| ((s.code as char).to_string(), String::from_utf8_lossy(&s.val).into_owned())).collect(),
                            )
                        })
                        .collect()
                })
                .collect();
            let mut g = std::str::from_utf8(&got).ok().and_then(read_xml);
            if let Some(g) = &mut g {
                for (x, w) in g.iter_mut().zip(&recs) {
                    for (a, b) in x.iter_mut().zip(w.iter()) {
                        // an occurrence that is written has to be the right one
                        if a.1.is_some() && a.1.as_ref().map(|s| s.trim_start_matches('/').as_bytes().to_vec()) == b.occ {
                            a.1 = None;
                        }
                    }
                }
            }
            if g.as_ref() != Some(&want) {
                fail = Some(("convert to xml".to_string(), input, json!(format!("{want:?}")), json!(format!("{g:?} read from {}", show(&got)))));
            }
        } else {
            let mut want: Vec<u8> = vec![];
            for (i, x) in recs.iter().enumerate() {
                match to {
                    "plus" => want.extend(ser(x)),
                    "binary" => {
                        for f in x.iter() {
                            want.extend(body(f));
                            want.push(0x1e);
                        }
                        want.push(0x1d);
                    }
                    "import" => {
                        want.extend(b"'\x1d\n");
                        for f in x.iter() {
                            want.push(0x1e);
                            want.extend(body(f));
                            want.push(b'\n');
                        }
                    }
                    _ => {
                        if i > 0 {
                            want.push(b'\n');
                        }
                        for f in x.iter() {
                            want.extend(head(f));
                            want.push(b' ');
                            for s in &f.subs {
                                want.push(b'$');
                                want.push(s.code);
                                for c in &s.val {
                                    want.push(*c);
                                    if *c == b'$' {
                                        want.push(b'$');
                                    }
                                }
                            }
                            want.push(b'\n');
                        }
                    }
                }
            }
            if got != want {
                fail = Some((format!("convert to {to}"), input, json!(show(&want)), json!(show(&got))));
            }
        }
        Out { key: format!("{args:?} {}", inp.desc()), nt: recs.len() > 1, fail }
    });
}

// ------------------------------------------------------------ count, frequency, describe

pub fn c21(cx: &mut Cx) {
    cx.rule("count, frequency and describe with random queries, filters, limits, output forms and inputs against independent counts; non-trivial = at least two records, values or fields are counted");
    let n = cx.n(2000);
    drive(cx, n, "count", |r, env| {
        let bad = r.chance(25);
        let inp = Input::new(r, env, bad, gen_cli_rec);
        let mut f = FOpts::new(r, env, &inp, false);
        let mut args = std::mem::take(&mut f.pre);
        args.push("count".into());
        args.extend(f.args.clone());
        let (sel, err) = f.selected(&inp);
        let (a, b, c) = (sel.len(), sel.iter().map(|x| x.len()).sum::<usize>(), sel.iter().flat_map(|x| x.iter()).map(|f| f.subs.len()).sum::<usize>());
        let want = match r.below(7) {
            0 => {
                args.push(if r.chance(50) { "--records" } else { "-r" }.into());
                format!("{a}\n")
            }
            1 => {
                args.push("--fields".into());
                format!("{b}\n")
            }
            2 => {
                args.push("--subfields".into());
                format!("{c}\n")
            }
            k @ 3..=4 => {
                let (s, o) = if k == 3 { (",", "--csv") } else { ("\t", "--tsv") };
                args.push(o.into());
                if r.chance(30) {
                    args.push("--no-header".into());
                    format!("{a}{s}{b}{s}{c}\n")
                } else {
                    format!("records{s}fields{s}subfields\n{a}{s}{b}{s}{c}\n")
                }
            }
            _ => format!("records: {a}\nfields: {b}\nsubfields: {c}\n"),
        };
        let mut sink = gen_sink(r, env, false, true, false);
        if sink.gz {
            sink = Sink { args: vec![], file: None, gz: false, stdout: true, old: vec![] };
        }
        args.extend(sink.args.clone());
        args.extend(inp.names());
        let run = env.run(&args, inp.stdin());
        let fail = check_bytes(env, &sink, &run, want.as_bytes(), err, "count", &args, &inp);
        Out { key: format!("{args:?} {}", inp.desc()), nt: !err && a > 1, fail }
    });
    drive(cx, n * 2, "frequency", |r, env| {
        let bad = r.chance(25);
        let inp = Input::new(r, env, bad, gen_cli_rec);
        let mut f = FOpts::new(r, env, &inp, false);
        let (q, text) = gen_cli_query(r, &inp);
        let mut args = std::mem::take(&mut f.pre);
        args.push(if r.chance(20) { "freq" } else { "frequency" }.into());
        args.extend(f.args.clone());
        let o = query_opts(r, &f, &mut args);
        let uniq = r.chance(30);
        if uniq {
            args.push(if r.chance(50) { "-u" } else { "--unique" }.into());
        }
        let rev = r.chance(35);
        if rev {
            args.push(if r.chance(50) { "-r" } else { "--reverse" }.into());
        }
        let num = if r.chance(35) { 1 + r.below(3) } else { 0 };
        if num > 0 {
            args.extend(["-n".to_string(), num.to_string()]);
        }
        let thr = if r.chance(35) { r.below(4) } else { 0 };
        if thr > 0 {
            args.extend(["--threshold".to_string(), thr.to_string()]);
        }
        let (sel, err) = f.selected(&inp);
        let cols = eval_query(&q, &vec![], &o).first().map(|x| x.len()).unwrap_or(0);
        let mut want: Vec<Vec<Vec<u8>>> = vec![];
        if r.chance(25) && cols > 0 {
            let mut h: Vec<String> = (0..cols).map(|i| format!("c{i}")).collect();
            h.push("n".into());
            args.extend(["-H".to_string(), h.join(",")]);
            want.push(h.into_iter().map(String::into_bytes).collect());
        }
        let (delim, file) = table_sink(r, &mut args, false);
        args.push(text);
        args.extend(inp.names());
        let mut m: BTreeMap<Vec<Vec<u8>>, usize> = BTreeMap::new();
        let mut total = 0;
        for x in sel {
            let mut seen = HashSet::new();
            for row in eval_query(&q, x, &o) {
                total += 1;
                if row.iter().all(|c| c.is_empty()) || uniq && !seen.insert(row.clone()) {
                    continue;
                }
                *m.entry(row).or_default() += 1;
            }
        }
        if total > 4000 {
            return Out { key: String::new(), nt: false, fail: None };
        }
        let nt = m.len() > 1;
        let mut t: Vec<(Vec<Vec<u8>>, usize)> = m.into_iter().filter(|x| x.1 >= thr).collect();
        t.sort_by(|a, b| if rev { (a.1, &a.0).cmp(&(b.1, &b.0)) } else { (b.1, &a.0).cmp(&(a.1, &b.0)) });
        if num > 0 {
            t.truncate(num);
        }
        for (mut row, k) in t {
            for c in &mut row {
                *c = lossy(c);
            }
            row.push(k.to_string().into_bytes());
            want.push(row);
        }
        let run = env.run(&args, inp.stdin());
        let got = match &file {
            Some(n) => env.get(n),
            None => Some(run.out.clone()),
        };
        let fail = check_table(&run, got, delim, &want, err, "frequency", &args, &inp, false);
        Out { key: format!("{args:?} {}", inp.desc()), nt, fail }
    });
    drive(cx, n, "describe", |r, env| {
        let bad = r.chance(25);
        let inp = Input::new(r, env, bad, gen_cli_rec);
        let mut f = FOpts::new(r, env, &inp, false);
        let mut args = std::mem::take(&mut f.pre);
        args.push("describe".into());
        args.extend(f.args.clone());
        let (keep, disc) = projection(r, &inp.recs(), &mut args);
        let (tsv, flag) = (r.chance(40), r.chance(30));
        let name = if flag { "out.txt" } else if tsv { "out.tsv" } else { "out.csv" };
        if flag {
            args.push(if tsv { "--tsv" } else { "--csv" }.into());
        }
        args.extend(["-o".to_string(), name.into()]);
        args.extend(inp.names());
        let (sel, err) = f.selected(&inp);
        let mut m: BTreeMap<Vec<u8>, BTreeMap<u8, usize>> = BTreeMap::new();
        for x in sel {
            for fl in project(x, &keep, &disc) {
                let e = m.entry(fl.tag.clone()).or_default();
                for s in &fl.subs {
                    *e.entry(s.code).or_default() += 1;
                }
            }
        }
        let codes: BTreeSet<u8> = m.values().flat_map(|c| c.keys().copied()).collect();
        let mut want = vec![std::iter::once(b"field".to_vec()).chain(codes.iter().map(|c| vec![*c])).collect::<Vec<_>>()];
        for (t, c) in &m {
            want.push(std::iter::once(t.clone()).chain(codes.iter().map(|k| c.get(k).copied().unwrap_or(0).to_string().into_bytes())).collect());
        }
        let run = env.run(&args, inp.stdin());
        let fail = check_table(&run, env.get(name), if tsv { b'\t' } else { b',' }, &want, err, "describe", &args, &inp, false);
        Out { key: format!("{args:?} {}", inp.desc()), nt: !err && m.len() > 1, fail }
    });
}
