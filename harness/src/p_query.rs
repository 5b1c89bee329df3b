//! Paths, formats and queries against an independent evaluator.
use crate::cx::*;
use crate::mexpr::*;
use crate::p_match::{gen_opt, opts};
use crate::rec::*;

use pica_record::path::{Path, PathExt};
use pica_record::prelude::*;
use pica_record::primitives::RecordRef;
use pica_record::query::{Query, QueryExt, QueryOptions};
use serde_json::json;

// ------------------------------------------------------------ paths

#[derive(Clone, Debug)]
pub struct PathX {
    pub tag: TagM,
    pub occ: OccM,
    pub lists: Vec<Codes>,
    pub filter: Option<SubM>,
}
pub fn gen_path(r: &mut Rng) -> PathX {
    let n = [1, 1, 1, 2, 2, 3][r.below(6)];
    let n = r.large(9).unwrap_or(n);
    PathX {
        tag: gen_tag(r),
        occ: gen_occ(r),
        lists: (0..n).map(|_| gen_codes(r)).collect(),
        filter: if r.chance(35) { Some(gen_sub(r, 0, 1)) } else { None },
    }
}
fn dollar(r: &mut Rng, c: &Codes) -> String {
    if c.text == "*" {
        return format!("${}*", sp(r));
    }
    let s: String = c.set.iter().map(|c| *c as char).collect();
    format!("${}{s}", sp(r))
}
fn codes_item(r: &mut Rng, c: &Codes) -> String {
    if r.chance(20) && c.set.len() < 20 {
        dollar(r, c)
    } else {
        c.text.clone()
    }
}
impl PathX {
    pub fn selects(&self, f: &Fld, o: &Opt) -> bool {
        self.tag.hit(&f.tag) && self.occ.hit(f.occ.as_deref()) && self.filter.as_ref().is_none_or(|m| m.eval(&f.subs, o))
    }
    pub fn values(&self, rec: &Rec, o: &Opt) -> Vec<Vec<u8>> {
        let mut out = vec![];
        for f in rec {
            if self.selects(f, o) {
                for s in &f.subs {
                    if self.lists.iter().any(|l| l.set.contains(&s.code)) {
                        out.push(s.val.clone());
                    }
                }
            }
        }
        out
    }
    pub fn rows(&self, rec: &Rec, q: &QOpt) -> Vec<Vec<Vec<u8>>> {
        let mut out = vec![];
        for f in rec {
            if !self.selects(f, &q.m) {
                continue;
            }
            let mut rows: Vec<Vec<Vec<u8>>> = vec![vec![]];
            for l in &self.lists {
                let mut vals: Vec<Vec<u8>> = f.subs.iter().filter(|s| l.set.contains(&s.code)).map(|s| s.val.clone()).collect();
                if vals.is_empty() {
                    vals.push(vec![]);
                }
                if q.squash {
                    vals = vec![vals.join(q.sep.as_bytes())];
                }
                rows = cross(&rows, &vals.into_iter().map(|v| vec![v]).collect::<Vec<_>>());
            }
            out.extend(rows);
        }
        if out.is_empty() {
            out.push(vec![vec![]; self.lists.len()]);
        }
        out
    }
    pub fn print(&self, r: &mut Rng) -> String {
        let head = format!("{}{}", self.tag.print(), self.occ.print());
        if self.filter.is_none() && self.lists.len() == 1 && r.chance(60) {
            if r.chance(30) {
                return format!("{head}{}{}", sp(r), dollar(r, &self.lists[0]));
            }
            return format!("{head}.{}", self.lists[0].text);
        }
        let mut items = String::new();
        for (i, l) in self.lists.iter().enumerate() {
            if i > 0 {
                items.push_str(&format!("{},{}", sp(r), sp(r)));
            }
            items.push_str(&codes_item(r, l));
        }
        if r.chance(if self.lists.len() > 1 { 50 } else { 15 }) {
            items = format!("({}{items}{})", sp(r), sp(r));
        }
        let f = match &self.filter {
            Some(m) => format!("{}|{}{}", sp(r), sp(r), m.print(r)),
            None => String::new(),
        };
        format!("{head}{}{{{}{items}{f}{}}}", sp(r), sp(r), sp(r))
    }
}
fn cross(a: &[Vec<Vec<u8>>], b: &[Vec<Vec<u8>>]) -> Vec<Vec<Vec<u8>>> {
    let mut o = vec![];
    for x in a {
        for y in b {
            let mut r = x.clone();
            r.extend(y.clone());
            o.push(r);
        }
    }
    o
}

pub struct QOpt {
    pub m: Opt,
    pub sep: String,
    pub squash: bool,
    pub merge: bool,
}

fn show_rows(r: &[Vec<Vec<u8>>]) -> Vec<Vec<String>> {
    r.iter().map(|x| x.iter().map(|v| show(v)).collect()).collect()
}

/// a record in which the expression has a chance to hit
pub fn gen_rec_for(r: &mut Rng) -> Rec {
    if r.chance(50) {
        let k = 1 + r.below(2);
        let base = r.below(TAGS.len() - k);
        let n = 1 + r.below(4);
        return (0..n).map(|_| gen_fld(r, &TAGS[base..base + k])).collect();
    }
    gen_rec(r)
}
/// aim the path at one of the record's fields
pub fn aim(r: &mut Rng, p: &mut (TagM, OccM), rec: &Rec) {
    if r.chance(70) && !rec.is_empty() {
        let f = &rec[r.below(rec.len())];
        p.0 = if r.chance(70) {
            TagM::Exact(String::from_utf8(f.tag.clone()).unwrap())
        } else {
            gen_tag_pat(r, &f.tag)
        };
        p.1 = match (&f.occ, r.below(3)) {
            (_, 0) => OccM::Any,
            (None, _) => OccM::None,
            (Some(o), _) if o == b"00" => OccM::None,
            (Some(o), _) => OccM::Exact(String::from_utf8(o.clone()).unwrap()),
        };
    }
}

pub fn c09(cx: &mut Cx) {
    cx.rng.1 = true;
    cx.rule("random paths in dotted, '$' and braced notation with filters, evaluated on random records with options, against an independent evaluator; non-trivial = the path yields a value and leaves one out");
    let e0 = cx.evals;
    for _ in 0..cx.n(100000) {
        if cx.full() {
            break;
        }
        let rec = gen_rec_for(&mut cx.rng);
        let mut p = gen_path(&mut cx.rng);
        let mut a = (p.tag.clone(), p.occ.clone());
        aim(&mut cx.rng, &mut a, &rec);
        p.tag = a.0;
        p.occ = a.1;
        let text = p.print(&mut cx.rng);
        let o = gen_opt(&mut cx.rng);
        let raw = ser(&rec);
        let want = p.values(&rec, &o);
        let total: usize = rec.iter().map(|f| f.subs.len()).sum();
        cx.case(&format!("{text} ci={} on {}", o.ci, show(&raw)), !want.is_empty() && want.len() < total);
        let got = guard(|| {
            let path = Path::new(&text).map_err(|e| e.to_string())?;
            let rr = RecordRef::from_bytes(&raw).map_err(|e| e.to_string())?;
            let v: Vec<Vec<u8>> = rr.path(&path, &opts(&o)).map(|v| v.to_vec()).collect();
            let f = rr.first(&path, &opts(&o)).map(|v| v.to_vec());
            let br = ByteRecord::from_bytes(&raw).map_err(|e| e.to_string())?;
            let b: Vec<Vec<u8>> = br.path(&path, &opts(&o)).map(|v| v.to_vec()).collect();
            let s: Option<(Vec<Vec<u8>>, Option<Vec<u8>>, Option<Vec<u8>>)> = StringRecord::try_from(br).ok().map(|sr| {
                (
                    sr.path(&path, &opts(&o)).map(|v| v.as_bytes().to_vec()).collect(),
                    sr.first(&path, &opts(&o)).map(|v| v.as_bytes().to_vec()),
                    sr.ppn().map(|v| v.as_bytes().to_vec()),
                )
            });
            let ppn = rr.ppn().map(|v| v.to_vec());
            Ok::<_, String>((v, f, b, s, ppn, path.to_string()))
        });
        let wppn = rec
            .iter()
            .filter(|f| f.tag == b"003@" && f.occ.as_deref().is_none_or(|o| o == b"00"))
            .flat_map(|f| f.subs.iter())
            .find(|s| s.code == b'0')
            .map(|s| s.val.clone());
        let sw = if utf8_ok(&rec) { Some((want.clone(), want.first().cloned(), wppn.clone())) } else { None };
        let exp = Ok(Ok((want.clone(), want.first().cloned(), want.clone(), sw, wppn, text.clone())));
        if got != exp {
            let d = match &got {
                Ok(Ok(g)) => json!({"path": g.0.iter().map(|v| show(v)).collect::<Vec<_>>(), "first": g.1.as_ref().map(|v| show(v)), "byte record": g.2.iter().map(|v| show(v)).collect::<Vec<_>>(), "ppn": g.4.as_ref().map(|v| show(v)), "printed": g.5, "string record": format!("{:?}", g.3.as_ref().map(|x| x.0.iter().map(|v| show(v)).collect::<Vec<_>>()))}),
                x => json!(format!("{x:?}")),
            };
            cx.violate(
                "path values",
                json!({"path": text, "record": show(&raw), "case_ignore": o.ci, "threshold": o.thr}),
                json!({"path": want.iter().map(|v| show(v)).collect::<Vec<_>>(), "ppn": exp.unwrap().unwrap().4.map(|v| show(&v)), "printed": text}),
                d,
            );
        }
    }
    cx.part("paths", e0);
}

// ------------------------------------------------------------ formats

#[derive(Clone, Debug, Default)]
pub struct ModX {
    pub l: bool,
    pub u: bool,
    pub t: bool,
    pub w: bool,
    pub o: bool,
}
#[derive(Clone, Debug)]
pub enum Frag {
    Val { m: ModX, prefix: Option<String>, codes: Codes, n: Option<usize>, open: bool, suffix: Option<String> },
    Group { m: ModX, inner: Box<Frag> },
    /// parts up to the first empty one
    Then(Vec<Frag>),
    Cons(Vec<Frag>),
}
#[derive(Clone, Debug)]
pub struct FmtX {
    pub tag: TagM,
    pub occ: OccM,
    pub frag: Frag,
    pub filter: Option<SubM>,
}
fn drop_first_at(v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    if let Some(i) = v.iter().position(|c| *c == b'@') {
        v.remove(i);
    }
    v
}
fn trim(v: &[u8]) -> Vec<u8> {
    let mut a = 0;
    loop {
        let s = String::from_utf8_lossy(&v[a..]);
        match s.chars().next() {
            Some(c) if c.is_whitespace() => a += c.len_utf8(),
            _ => break,
        }
    }
    let mut b = v.len();
    while b > a {
        // the last character, if it is one
        let k = (1..=4.min(b - a)).find(|k| std::str::from_utf8(&v[b - k..b]).is_ok());
        match k.and_then(|k| std::str::from_utf8(&v[b - k..b]).ok()).and_then(|s| s.chars().next()) {
            Some(c) if c.is_whitespace() => b -= c.len_utf8(),
            _ => break,
        }
    }
    v[a..b].to_vec()
}
fn upper(v: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in v.utf8_chunks() {
        for ch in c.valid().chars() {
            for u in ch.to_uppercase() {
                let mut b = [0; 4];
                o.extend(u.encode_utf8(&mut b).as_bytes());
            }
        }
        o.extend(c.invalid());
    }
    o
}
impl ModX {
    fn gen(r: &mut Rng) -> ModX {
        if r.chance(65) {
            return ModX::default();
        }
        ModX { l: r.chance(30), u: r.chance(30), t: r.chance(30), w: r.chance(30), o: r.chance(30) }
    }
    fn none(&self) -> bool {
        !(self.l || self.u || self.t || self.w || self.o)
    }
    fn apply(&self, v: Vec<u8>) -> Vec<u8> {
        let mut v = v;
        if self.o {
            v = drop_first_at(&v);
        }
        if self.t {
            v = trim(&v);
        }
        if self.w {
            v.retain(|c| *c != b' ');
        }
        if self.l {
            v = fold(true, &v);
        }
        if self.u {
            v = upper(&v);
        }
        v
    }
    fn print(&self, r: &mut Rng) -> String {
        if self.none() {
            return String::new();
        }
        let mut cs: Vec<char> = vec![];
        for (b, c) in [(self.l, 'l'), (self.u, 'u'), (self.t, 't'), (self.w, 'w'), (self.o, 'o')] {
            if b {
                cs.push(c);
                if r.chance(10) {
                    cs.push(c);
                }
            }
        }
        for i in (1..cs.len()).rev() {
            let j = r.below(i + 1);
            cs.swap(i, j);
        }
        // a space keeps the modifier apart from a code that follows
        format!("?{} ", cs.into_iter().collect::<String>())
    }
}
fn gen_fval(r: &mut Rng) -> Frag {
    let lit = |r: &mut Rng| r.pick(&[" ", ", ", "x", " (", ")", "", "@", "Ä", " ; "]).to_string();
    let (n, open) = match r.below(6) {
        0..=2 => (Some(1), false),
        3 => (Some(r.below(4)), true),
        _ => (None, true),
    };
    Frag::Val {
        m: ModX::gen(r),
        prefix: if r.chance(40) { Some(lit(r)) } else { None },
        codes: gen_codes(r),
        n,
        open,
        suffix: if r.chance(30) { Some(lit(r)) } else { None },
    }
}
fn clear_first(f: &mut Frag) {
    match f {
        Frag::Val { m, .. } => *m = ModX::default(),
        Frag::Then(v) | Frag::Cons(v) => clear_first(&mut v[0]),
        Frag::Group { .. } => (),
    }
}
fn gen_group(r: &mut Rng, d: usize) -> Frag {
    let mut inner = match r.below(3) {
        0 => gen_fval(r),
        1 => gen_then(r, d - 1),
        _ => gen_cons(r, d - 1),
    };
    let m = ModX::gen(r);
    if m.none() {
        clear_first(&mut inner);
    }
    Frag::Group { m, inner: Box::new(inner) }
}
fn gen_unit(r: &mut Rng, d: usize) -> Frag {
    if d > 0 && r.chance(35) {
        gen_group(r, d)
    } else {
        gen_fval(r)
    }
}
fn gen_then(r: &mut Rng, d: usize) -> Frag {
    Frag::Then((0..2 + r.below(2)).map(|_| gen_unit(r, d)).collect())
}
fn gen_cons(r: &mut Rng, d: usize) -> Frag {
    Frag::Cons((0..2 + r.below(2)).map(|_| if r.chance(30) { gen_then(r, d) } else { gen_unit(r, d) }).collect())
}
fn gen_frag(r: &mut Rng, d: usize) -> Frag {
    match r.below(5) {
        0 => gen_fval(r),
        1 => gen_group(r, d),
        2..=3 => gen_then(r, d),
        _ => gen_cons(r, d),
    }
}
pub fn gen_fmt(r: &mut Rng) -> FmtX {
    FmtX { tag: gen_tag(r), occ: gen_occ(r), frag: gen_frag(r, 2), filter: if r.chance(35) { Some(gen_sub(r, 0, 1)) } else { None } }
}
impl Frag {
    fn render(&self, subs: &[Sub], strip: bool) -> Vec<u8> {
        match self {
            Frag::Val { m, prefix, codes, n, suffix, .. } => {
                let mut v = vec![];
                let mut cnt = 0;
                for s in subs {
                    if !codes.set.contains(&s.code) {
                        continue;
                    }
                    if n.is_some_and(|n| cnt >= n) {
                        break;
                    }
                    cnt += 1;
                    v.extend(prefix.as_deref().unwrap_or("").as_bytes());
                    v.extend(if strip { drop_first_at(&s.val) } else { s.val.clone() });
                    v.extend(suffix.as_deref().unwrap_or("").as_bytes());
                }
                m.apply(v)
            }
            Frag::Group { m, inner } => m.apply(inner.render(subs, strip)),
            Frag::Then(l) => {
                let mut v = vec![];
                for f in l {
                    let x = f.render(subs, strip);
                    if x.is_empty() {
                        break;
                    }
                    v.extend(x);
                }
                v
            }
            Frag::Cons(l) => l.iter().flat_map(|f| f.render(subs, strip)).collect(),
        }
    }
    fn print(&self, r: &mut Rng) -> String {
        match self {
            Frag::Val { m, prefix, codes, n, open, suffix } => {
                let mut o = m.print(r);
                if let Some(p) = prefix {
                    o.push_str(&format!("{}{}", quote(r, p), sp(r)));
                }
                o.push_str(&codes.text);
                match (n, open) {
                    (Some(1), false) => (),
                    (Some(n), _) => o.push_str(&format!("..{n}")),
                    (None, _) => o.push_str(".."),
                }
                if let Some(s) = suffix {
                    o.push_str(&format!("{}{}", sp(r), quote(r, s)));
                }
                o
            }
            Frag::Group { m, inner } => {
                let m = m.print(r);
                // bounds on a group are accepted and have no effect
                let b = [String::new(), String::new(), "..".into(), format!("..{}", r.below(4))][r.below(4)].clone();
                format!("({}{m}{}{}){b}", sp(r), inner.print(r), sp(r))
            }
            Frag::Then(l) => {
                let p: Vec<String> = l.iter().map(|f| f.print(r)).collect();
                p.join(&format!("{}<$>{}", sp(r), sp(r)))
            }
            Frag::Cons(l) => {
                let p: Vec<String> = l.iter().map(|f| f.print(r)).collect();
                p.join(&format!("{}<*>{}", sp(r), sp(r)))
            }
        }
    }
}
impl FmtX {
    pub fn values(&self, rec: &Rec, o: &Opt, strip: bool) -> Vec<Vec<u8>> {
        rec.iter()
            .filter(|f| self.tag.hit(&f.tag) && self.occ.hit(f.occ.as_deref()) && self.filter.as_ref().is_none_or(|m| m.eval(&f.subs, o)))
            .map(|f| self.frag.render(&f.subs, strip))
            .filter(|v| !v.is_empty())
            .collect()
    }
    pub fn print(&self, r: &mut Rng) -> String {
        let f = match &self.filter {
            Some(m) => format!("{}|{}{}", sp(r), sp(r), m.print(r)),
            None => String::new(),
        };
        format!("{}{}{}{{{}{}{f}{}}}", self.tag.print(), self.occ.print(), sp(r), sp(r), self.frag.print(r), sp(r))
    }
}
pub fn c11(cx: &mut Cx) {
    cx.rng.1 = true;
    cx.rule("random formats (values with bounds, prefixes, suffixes, modifiers; groups; '<$>' and '<*>' lists; filters) on random records against an independent renderer; non-trivial = a non-empty text results");
    let e0 = cx.evals;
    for _ in 0..cx.n(80000) {
        if cx.full() {
            break;
        }
        let rec = gen_rec_for(&mut cx.rng);
        let mut p = gen_fmt(&mut cx.rng);
        let mut a = (p.tag.clone(), p.occ.clone());
        aim(&mut cx.rng, &mut a, &rec);
        p.tag = a.0;
        p.occ = a.1;
        let text = p.print(&mut cx.rng);
        let o = gen_opt(&mut cx.rng);
        let strip = cx.rng.chance(25);
        let raw = ser(&rec);
        let want = p.values(&rec, &o, strip);
        cx.case(&format!("{text} strip={strip} on {}", show(&raw)), !want.is_empty());
        let fo = FormatOptions::new().case_ignore(o.ci).strsim_threshold(o.thr).strip_overread_char(strip);
        let got = guard(|| {
            let f = Format::new(&text).map_err(|e| e.to_string())?;
            let rr = RecordRef::from_bytes(&raw).map_err(|e| e.to_string())?;
            let v: Vec<Vec<u8>> = rr.format(&f, &fo).map(|v| v.to_vec()).collect();
            let s: Option<Vec<Vec<u8>>> = StringRecord::try_from(ByteRecord::from_bytes(&raw).unwrap())
                .ok()
                .map(|sr| sr.format(&f, &fo).map(|v| v.into_bytes()).collect());
            Ok::<_, String>((v, s, f.to_string()))
        });
        let sw = if utf8_ok(&rec) { Some(want.clone()) } else { None };
        if got != Ok(Ok((want.clone(), sw, text.trim().to_string()))) {
            let d = match &got {
                Ok(Ok(g)) => json!({"values": g.0.iter().map(|v| show(v)).collect::<Vec<_>>(), "printed": g.2}),
                x => json!(format!("{x:?}")),
            };
            cx.violate(
                "format values",
                json!({"format": text, "record": show(&raw), "case_ignore": o.ci, "strip_overread_char": strip}),
                json!({"values": want.iter().map(|v| show(v)).collect::<Vec<_>>(), "printed": text.trim()}),
                d,
            );
        }
    }
    cx.part("formats", e0);
}

// ------------------------------------------------------------ queries

#[derive(Clone, Debug)]
pub enum QFrag {
    Path(PathX),
    Lit(String),
    Fmt(FmtX),
}
pub fn gen_query(r: &mut Rng, rec: &Rec) -> Vec<QFrag> {
    let n = [1, 1, 2, 2, 3, 4][r.below(6)];
    (0..n)
        .map(|_| match r.below(10) {
            0..=1 => QFrag::Lit(String::from_utf8(gen_val_utf8(r)).unwrap()),
            2..=3 => {
                // a plain value in braces is a path by syntax
                let mut f = gen_fmt(r);
                loop {
                    if let Frag::Val { prefix: None, suffix: None, open: false, m, .. } = &f.frag {
                        if m.none() {
                            f = gen_fmt(r);
                            continue;
                        }
                    }
                    // `(a)` is a path as well
                    if let Frag::Group { .. } = &f.frag {
                        f = gen_fmt(r);
                        continue;
                    }
                    break;
                }
                let mut a = (f.tag.clone(), f.occ.clone());
                aim(r, &mut a, rec);
                f.tag = a.0;
                f.occ = a.1;
                QFrag::Fmt(f)
            }
            _ => {
                let mut p = gen_path(r);
                let mut a = (p.tag.clone(), p.occ.clone());
                aim(r, &mut a, rec);
                p.tag = a.0;
                p.occ = a.1;
                QFrag::Path(p)
            }
        })
        .collect()
}
pub fn print_query(r: &mut Rng, q: &[QFrag]) -> String {
    let mut o = String::new();
    for (i, f) in q.iter().enumerate() {
        if i > 0 {
            o.push_str(&format!("{},{}", sp(r), sp(r)));
        }
        o.push_str(&match f {
            QFrag::Path(p) => p.print(r),
            QFrag::Lit(s) => quote(r, s),
            QFrag::Fmt(f) => f.print(r),
        });
    }
    o
}
pub fn eval_query(q: &[QFrag], rec: &Rec, o: &QOpt) -> Vec<Vec<Vec<u8>>> {
    let mut rows: Vec<Vec<Vec<u8>>> = vec![vec![]];
    for f in q {
        let mut fr: Vec<Vec<Vec<u8>>> = match f {
            QFrag::Lit(s) => vec![vec![s.as_bytes().to_vec()]],
            QFrag::Path(p) => p.rows(rec, o),
            QFrag::Fmt(f) => {
                let v = f.values(rec, &o.m, false);
                if v.is_empty() {
                    vec![vec![vec![]]]
                } else {
                    v.into_iter().map(|x| vec![x]).collect()
                }
            }
        };
        if o.merge {
            let cols = fr[0].len();
            fr = vec![(0..cols).map(|c| fr.iter().map(|r| r[c].clone()).collect::<Vec<_>>().join(o.sep.as_bytes())).collect()];
        }
        rows = cross(&rows, &fr);
    }
    rows
}
pub fn gen_qopt(r: &mut Rng) -> QOpt {
    QOpt { m: gen_opt(r), sep: r.pick(&["|", "", ";", "||", " / ", "ä"]).to_string(), squash: r.chance(35), merge: r.chance(35) }
}
pub fn c10(cx: &mut Cx) {
    cx.rule("random queries of one to four fragments with squash, merge and separators on random records against an independent evaluator; non-trivial = several rows or a squashed or merged value");
    let e0 = cx.evals;
    for _ in 0..cx.n(80000) {
        if cx.full() {
            break;
        }
        let rec = gen_rec_for(&mut cx.rng);
        let q = gen_query(&mut cx.rng, &rec);
        let o = gen_qopt(&mut cx.rng);
        let want = eval_query(&q, &rec, &o);
        if want.len() > 3000 {
            continue;
        }
        let text = print_query(&mut cx.rng, &q);
        let raw = ser(&rec);
        cx.case(
            &format!("{text} squash={} merge={} sep={:?} on {}", o.squash, o.merge, o.sep, show(&raw)),
            want.len() > 1 || want.iter().flatten().any(|v| !o.sep.is_empty() && v.windows(o.sep.len()).any(|w| w == o.sep.as_bytes())),
        );
        let qo = QueryOptions::new().case_ignore(o.m.ci).strsim_threshold(o.m.thr).separator(o.sep.clone()).squash(o.squash).merge(o.merge);
        let got = guard(|| {
            let query = Query::new(&text).map_err(|e| e.to_string())?;
            let rr = RecordRef::from_bytes(&raw).map_err(|e| e.to_string())?;
            let v: Vec<Vec<Vec<u8>>> = rr.query(&query, &qo).into_inner().into_iter().map(|r| r.into_iter().map(|c| c.to_vec()).collect()).collect();
            let s: Option<Vec<Vec<Vec<u8>>>> = StringRecord::try_from(ByteRecord::from_bytes(&raw).unwrap())
                .ok()
                .map(|sr| sr.query(&query, &qo).into_inner().into_iter().map(|r| r.into_iter().map(|c| c.into_bytes()).collect()).collect());
            Ok::<_, String>((v, s, query.to_string()))
        });
        let sw = if utf8_ok(&rec) { Some(want.clone()) } else { None };
        if got != Ok(Ok((want.clone(), sw, text.clone()))) {
            let d = match &got {
                Ok(Ok(g)) => json!({"rows": show_rows(&g.0), "printed": g.2}),
                x => json!(format!("{x:?}")),
            };
            cx.violate(
                "query rows",
                json!({"query": text, "record": show(&raw), "case_ignore": o.m.ci, "squash": o.squash, "merge": o.merge, "separator": o.sep}),
                json!({"rows": show_rows(&want), "printed": text}),
                d,
            );
        }
    }
    cx.part("queries", e0);
}
