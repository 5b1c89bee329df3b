//! Independent reference semantics of matcher expressions: abstract syntax,
//! printer (concrete syntax with varied layout) and evaluator.
use crate::cx::Rng;
use crate::rec::*;

pub struct Opt {
    pub ci: bool,
    pub thr: f64,
}

// ------------------------------------------------------------ tags, occurrences

#[derive(Clone, Debug)]
pub enum TagM {
    Exact(String),
    /// printed form and the four member sets
    Pat(String, [Vec<u8>; 4]),
}
impl TagM {
    pub fn print(&self) -> String {
        match self {
            TagM::Exact(s) | TagM::Pat(s, _) => s.clone(),
        }
    }
    pub fn hit(&self, t: &[u8]) -> bool {
        match self {
            TagM::Exact(s) => s.as_bytes() == t,
            TagM::Pat(_, p) => (0..4).all(|i| p[i].contains(&t[i])),
        }
    }
}
const ALLOWED: [&[u8]; 4] = [b"012", b"0123456789", b"0123456789", b"ABCDEFGHIJKLMNOPQRSTUVWXYZ@"];
pub fn gen_tag(r: &mut Rng) -> TagM {
    if r.chance(50) {
        return TagM::Exact(r.pick(&TAGS).to_string());
    }
    gen_tag_pat(r, TAGS[r.clone().below(TAGS.len())].as_bytes())
}
pub fn gen_tag_pat(r: &mut Rng, base: &[u8]) -> TagM {
    loop {
        let mut text = String::new();
        let mut sets: [Vec<u8>; 4] = Default::default();
        let mut special = false;
        for i in 0..4 {
            let al = ALLOWED[i];
            match r.below(10) {
                0..=4 => {
                    text.push(base[i] as char);
                    sets[i] = vec![base[i]];
                }
                5..=6 => {
                    special = true;
                    text.push('.');
                    sets[i] = al.to_vec();
                }
                _ => {
                    special = true;
                    text.push('[');
                    for _ in 0..1 + r.below(3) {
                        if r.chance(40) {
                            // range inside the allowed alphabet; for letters '@' < 'A'
                            let a = *r.pick(al);
                            let b = *r.pick(al);
                            if a < b {
                                text.push_str(&format!("{}-{}", a as char, b as char));
                                sets[i].extend(a..=b);
                                continue;
                            }
                        }
                        let c = if r.chance(50) { base[i] } else { *r.pick(al) };
                        text.push(c as char);
                        sets[i].push(c);
                    }
                    text.push(']');
                }
            }
        }
        if special {
            return TagM::Pat(text, sets);
        }
    }
}

#[derive(Clone, Debug)]
pub enum OccM {
    None,
    Any,
    Exact(String),
    Range(String, String),
}
impl OccM {
    pub fn print(&self) -> String {
        match self {
            OccM::None => String::new(),
            OccM::Any => "/*".into(),
            OccM::Exact(s) => format!("/{s}"),
            OccM::Range(a, b) => format!("/{a}-{b}"),
        }
    }
    pub fn hit(&self, o: Option<&[u8]>) -> bool {
        match (self, o) {
            (OccM::Any, _) => true,
            (OccM::None, None) => true,
            (OccM::None, Some(o)) => o == b"00",
            (_, None) => false,
            (OccM::Exact(s), Some(o)) => s.as_bytes() == o,
            (OccM::Range(a, b), Some(o)) => {
                let num = |x: &[u8]| std::str::from_utf8(x).unwrap().parse::<u32>().unwrap();
                o.len() == a.len() && num(a.as_bytes()) <= num(o) && num(o) <= num(b.as_bytes())
            }
        }
    }
}
pub fn gen_occ(r: &mut Rng) -> OccM {
    match r.below(10) {
        0..=3 => OccM::None,
        4..=6 => OccM::Any,
        7 => OccM::Exact(["01", "02", "03", "11", "99", "001", "011", "100", "000"][r.below(9)].into()),
        _ => {
            let w = [("01", "03"), ("00", "99"), ("02", "11"), ("01", "99"), ("001", "011"), ("010", "100"), ("11", "99"), ("000", "999")];
            let (a, b) = w[r.below(w.len())];
            OccM::Range(a.into(), b.into())
        }
    }
}

// ------------------------------------------------------------ strings, codes

pub fn quote(r: &mut Rng, s: &str) -> String {
    let dbl = r.chance(30);
    let q = if dbl { '"' } else { '\'' };
    let mut o = String::new();
    o.push(q);
    for c in s.chars() {
        // escaped white space stands for nothing
        if !" \t\n\r".contains(c) && r.chance(3) {
            o.push('\\');
            o.push_str(r.pick(&[" ", "\n", "\t", "\r\n", "\n  ", " \t \n"]));
        }
        match c {
            '\\' => o.push_str("\\\\"),
            '\r' if r.chance(50) => o.push_str("\\r"),
            '\u{8}' if r.chance(50) => o.push_str("\\b"),
            '\u{c}' if r.chance(50) => o.push_str("\\f"),
            '\n' => o.push_str("\\n"),
            '\t' if r.chance(50) => o.push_str("\\t"),
            '/' if r.chance(20) => o.push_str("\\/"),
            c if c == q => {
                o.push('\\');
                o.push(c);
            }
            c => o.push(c),
        }
    }
    o.push(q);
    o
}
#[derive(Clone, Debug)]
pub struct Codes {
    pub text: String,
    pub set: Vec<u8>,
}
pub fn gen_codes(r: &mut Rng) -> Codes {
    match r.below(10) {
        0..=4 => {
            let c = *r.pick(&CODES);
            Codes { text: (c as char).to_string(), set: vec![c] }
        }
        5..=7 => {
            let mut text = "[".to_string();
            let mut set = vec![];
            let n = 1 + r.below(3);
            for _ in 0..r.large(20).unwrap_or(n) {
                if r.chance(35) {
                    let w = [(b'a', b'c'), (b'0', b'5'), (b'x', b'z'), (b'W', b'Z'), (b'b', b'z'), (b'a', b'b')];
                    let (a, b) = *r.pick(&w);
                    text.push_str(&format!("{}-{}", a as char, b as char));
                    set.extend(a..=b);
                } else {
                    let c = *r.pick(&CODES);
                    text.push(c as char);
                    set.push(c);
                }
            }
            text.push(']');
            Codes { text, set }
        }
        _ => Codes {
            text: "*".into(),
            set: (b'0'..=b'9').chain(b'a'..=b'z').chain(b'A'..=b'Z').collect(),
        },
    }
}
fn gen_lit(r: &mut Rng) -> String {
    String::from_utf8(gen_val_utf8(r)).unwrap()
}
pub fn sp(r: &mut Rng) -> &'static str {
    ["", " ", "  ", "\t", "\n"][[0, 1, 1, 0, 2, 1, 3, 4][r.below(8)]]
}

/// case folding: Unicode lower case of the valid parts, byte for byte elsewhere
pub fn fold(ci: bool, b: &[u8]) -> Vec<u8> {
    if !ci {
        return b.to_vec();
    }
    let mut o = vec![];
    for c in b.utf8_chunks() {
        for ch in c.valid().chars() {
            for l in ch.to_lowercase() {
                let mut buf = [0; 4];
                o.extend(l.encode_utf8(&mut buf).as_bytes());
            }
        }
        o.extend(c.invalid());
    }
    o
}
fn lev(a: &[char], b: &[char]) -> usize {
    let mut d = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            d[i][j] = if i == 0 {
                j
            } else if j == 0 {
                i
            } else {
                let c = d[i - 1][j - 1] + usize::from(a[i - 1] != b[j - 1]);
                c.min(d[i - 1][j] + 1).min(d[i][j - 1] + 1)
            };
        }
    }
    d[a.len()][b.len()]
}
pub fn similarity(a: &str, b: &str) -> f64 {
    let a: Vec<char> = a.chars().collect();
    let b: Vec<char> = b.chars().collect();
    let m = a.len().max(b.len());
    if m == 0 {
        1.0
    } else {
        1.0 - lev(&a, &b) as f64 / m as f64
    }
}

// ------------------------------------------------------------ subfield level

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Q {
    Default,
    All,
    Any,
}
impl Q {
    pub fn text(&self) -> &'static str {
        match self {
            Q::Default => "",
            Q::All => "ALL ",
            Q::Any => "ANY ",
        }
    }
    pub fn is_all(&self) -> bool {
        *self == Q::All
    }
}
pub fn gen_q(r: &mut Rng) -> Q {
    [Q::Default, Q::Default, Q::All, Q::Any][r.below(4)]
}
pub const STR_OPS: [&str; 7] = ["==", "!=", "=^", "!^", "=$", "!$", "=*"];
pub const NUM_OPS: [&str; 6] = ["==", "!=", ">=", ">", "<=", "<"];

#[derive(Clone, Debug)]
pub enum SubM {
    Exists(Codes),
    Rel(Q, Codes, &'static str, String),
    Contains(Q, Codes, Vec<String>),
    Regex(Q, Codes, bool, String),
    RegexSet(Q, Codes, bool, Vec<String>),
    In(Q, Codes, bool, Vec<String>),
    /// `in 'abc'`: the characters of the string
    InChars(Q, Codes, bool, String),
    Card(Codes, &'static str, usize),
    Group(Box<SubM>),
    Not(Box<SubM>),
    Bin(&'static str, Vec<SubM>),
}

pub fn str_op(op: &str, o: &Opt, v: &[u8], lit: &[u8]) -> bool {
    let a = fold(o.ci, v);
    let b = fold(o.ci, lit);
    match op {
        "==" => a == b,
        "!=" => a != b,
        "=^" => a.starts_with(&b),
        "!^" => !a.starts_with(&b),
        "=$" => a.ends_with(&b),
        "!$" => !a.ends_with(&b),
        "=*" => {
            let a = String::from_utf8_lossy(v).to_string();
            let b = String::from_utf8_lossy(lit).to_string();
            if o.ci {
                similarity(&a.to_lowercase(), &b.to_lowercase()) > o.thr
            } else {
                similarity(&a, &b) > o.thr
            }
        }
        _ => unreachable!(),
    }
}
pub fn num_op(op: &str, n: usize, k: usize) -> bool {
    match op {
        "==" => n == k,
        "!=" => n != k,
        ">=" => n >= k,
        ">" => n > k,
        "<=" => n <= k,
        "<" => n < k,
        _ => unreachable!(),
    }
}
fn occurs(h: &[u8], n: &[u8]) -> bool {
    n.is_empty() || h.windows(n.len()).any(|w| w == n)
}
fn re_hit(re: &str, ci: bool, v: &[u8]) -> bool {
    let re = if ci { format!("(?i:{re})") } else { re.to_string() };
    thread_local! { static C: std::cell::RefCell<std::collections::HashMap<String, regex::bytes::Regex>> = Default::default(); }
    C.with(|c| c.borrow_mut().entry(re.clone()).or_insert_with(|| regex::bytes::Regex::new(&re).unwrap()).is_match(v))
}
fn quant(q: Q, codes: &Codes, subs: &[Sub], f: impl Fn(&[u8]) -> bool) -> bool {
    let mut it = subs.iter().filter(|s| codes.set.contains(&s.code));
    if q.is_all() {
        it.all(|s| f(&s.val))
    } else {
        it.any(|s| f(&s.val))
    }
}
impl SubM {
    pub fn eval(&self, s: &[Sub], o: &Opt) -> bool {
        match self {
            SubM::Exists(c) => s.iter().any(|x| c.set.contains(&x.code)),
            SubM::Rel(q, c, op, lit) => quant(*q, c, s, |v| str_op(op, o, v, lit.as_bytes())),
            SubM::Contains(q, c, l) => quant(*q, c, s, |v| l.iter().any(|x| occurs(&fold(o.ci, v), &fold(o.ci, x.as_bytes())))),
            SubM::Regex(q, c, inv, re) => quant(*q, c, s, |v| re_hit(re, o.ci, v) != *inv),
            SubM::RegexSet(q, c, inv, res) => quant(*q, c, s, |v| res.iter().any(|re| re_hit(re, o.ci, v)) != *inv),
            SubM::In(q, c, inv, l) => quant(*q, c, s, |v| l.iter().any(|x| fold(o.ci, x.as_bytes()) == fold(o.ci, v)) != *inv),
            SubM::InChars(q, c, inv, l) => {
                quant(*q, c, s, |v| l.chars().any(|x| fold(o.ci, x.to_string().as_bytes()) == fold(o.ci, v)) != *inv)
            }
            SubM::Card(c, op, n) => num_op(op, s.iter().filter(|x| c.set.contains(&x.code)).count(), *n),
            SubM::Group(m) => m.eval(s, o),
            SubM::Not(m) => !m.eval(s, o),
            SubM::Bin("&&", v) => v.iter().all(|m| m.eval(s, o)),
            SubM::Bin("||", v) => v.iter().any(|m| m.eval(s, o)),
            SubM::Bin(_, v) => v.iter().filter(|m| m.eval(s, o)).count() % 2 == 1,
        }
    }
    pub fn print(&self, r: &mut Rng) -> String {
        let list = |r: &mut Rng, l: &[String]| {
            let mut o = format!("[{}", sp(r));
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    o.push_str(&format!("{},{}", sp(r), sp(r)));
                }
                o.push_str(&quote(r, x));
            }
            if r.chance(20) {
                o.push_str(&format!("{},", sp(r)));
            }
            format!("{o}{}]", sp(r))
        };
        match self {
            SubM::Exists(c) => format!("{}?", c.text),
            SubM::Rel(q, c, op, l) => format!("{}{}{}{op}{}{}", q.text(), c.text, sp(r), sp(r), quote(r, l)),
            SubM::Contains(q, c, l) => {
                let v = if l.len() == 1 && r.chance(60) { quote(r, &l[0]) } else { list(r, l) };
                format!("{}{}{}=?{}{v}", q.text(), c.text, sp(r), sp(r))
            }
            SubM::Regex(q, c, inv, re) => format!("{}{}{}{}{}{}", q.text(), c.text, sp(r), if *inv { "!~" } else { "=~" }, sp(r), quote(r, re)),
            SubM::RegexSet(q, c, inv, res) => {
                format!("{}{}{}{}{}{}", q.text(), c.text, sp(r), if *inv { "!~" } else { "=~" }, sp(r), list(r, res))
            }
            SubM::In(q, c, inv, l) => format!("{}{}{}in{}{}", q.text(), c.text, if *inv { " not " } else { " " }, sp(r), list(r, l)),
            SubM::InChars(q, c, inv, l) => format!("{}{}{}in{}{}", q.text(), c.text, if *inv { " not " } else { " " }, sp(r), quote(r, l)),
            SubM::Card(c, op, n) => format!("#{}{}{}{op}{}{n}", sp(r), c.text, sp(r), sp(r)),
            SubM::Group(m) => format!("({}{}{})", sp(r), m.print(r), sp(r)),
            SubM::Not(m) => format!("!{}{}", sp(r), m.print(r)),
            SubM::Bin(op, v) => {
                let mut o = String::new();
                for (i, m) in v.iter().enumerate() {
                    if i > 0 {
                        let op = if *op == "^" && r.chance(40) { "XOR" } else { op };
                        if op == "XOR" {
                            o.push_str(" XOR ");
                        } else {
                            o.push_str(&format!("{}{op}{}", sp(r), sp(r)));
                        }
                    }
                    o.push_str(&m.print(r));
                }
                o
            }
        }
    }
}
fn count(r: &mut Rng) -> usize {
    let n = 1 + r.below(3);
    r.large(80).unwrap_or(n)
}
/// the characters of an `in` string
fn gen_chars(r: &mut Rng) -> String {
    let n = 2 + r.below(4);
    let n = r.large(120).unwrap_or(n);
    (0..n)
        .map(|_| if n > 20 && r.chance(90) { (b'!' + r.below(60) as u8) as char } else { *r.pick(&['a', 'b', 'c', 'k', 'K', 'ä', 'Ä', '4', '2', ',', ';', ' ', 'A', 'x', '\u{212A}', '/', '\'', '"']) })
        .collect()
}
pub fn gen_sub_atom(r: &mut Rng) -> SubM {
    let c = gen_codes(r);
    let q = gen_q(r);
    match r.below(12) {
        0..=1 => SubM::Exists(c),
        2..=5 => SubM::Rel(q, c, STR_OPS[r.below(7)], gen_lit(r)),
        6 => SubM::Contains(q, c, (0..count(r)).map(|_| gen_lit(r)).collect()),
        7 => SubM::Regex(q, c, r.chance(40), r.pick(&["^a", "b$", "[0-9]+", "a.c", "^$", "(ab)+", "K|x"]).to_string()),
        8 => SubM::RegexSet(q, c, r.chance(40), (0..count(r)).map(|_| r.pick(&["^a", "b$", "\\d", "c", "^A"]).to_string()).collect()),
        9 => SubM::In(q, c, r.chance(40), (0..count(r)).map(|_| gen_lit(r)).collect()),
        10 => SubM::InChars(q, c, r.chance(40), gen_chars(r)),
        _ => {
            let n = r.below(4);
            SubM::Card(c, NUM_OPS[r.below(6)], r.large(40).unwrap_or(n))
        }
    }
}
/// level: 0 = or, 1 = xor, 2 = and, 3 = atom
pub fn gen_sub(r: &mut Rng, level: usize, depth: usize) -> SubM {
    if depth == 0 {
        return gen_sub_atom(r);
    }
    if level < 3 {
        if r.chance(45) {
            let op = ["||", "^", "&&"][level];
            let n = 2 + r.below(2);
            let n = r.large(7).unwrap_or(n);
            return SubM::Bin(op, (0..n).map(|_| gen_sub(r, level + 1, depth - 1)).collect());
        }
        return gen_sub(r, level + 1, depth);
    }
    match r.below(10) {
        0..=2 => SubM::Group(Box::new(gen_sub(r, 0, depth - 1))),
        3 => SubM::Not(Box::new(SubM::Group(Box::new(gen_sub(r, 0, depth - 1))))),
        4 => SubM::Not(Box::new(SubM::Exists(gen_codes(r)))),
        5 => SubM::Not(Box::new(SubM::Not(Box::new(SubM::Exists(gen_codes(r)))))),
        _ => gen_sub_atom(r),
    }
}

// ------------------------------------------------------------ field level

#[derive(Clone, Debug)]
pub enum FldM {
    Exists(TagM, OccM),
    /// 012A.<atom>
    Dot(Q, TagM, OccM, SubM),
    /// 012A{<expression>}
    Curly(Q, TagM, OccM, SubM),
    Card(TagM, OccM, Option<SubM>, &'static str, usize),
    Group(Box<FldM>),
    Not(Box<FldM>),
    Bin(&'static str, Vec<FldM>),
}
impl FldM {
    pub fn eval(&self, fs: &[Fld], o: &Opt) -> bool {
        let at = |t: &TagM, c: &OccM, f: &Fld| t.hit(&f.tag) && c.hit(f.occ.as_deref());
        match self {
            FldM::Exists(t, c) => fs.iter().any(|f| at(t, c, f)),
            FldM::Dot(q, t, c, m) | FldM::Curly(q, t, c, m) => {
                let mut it = fs.iter().filter(|f| at(t, c, f));
                if q.is_all() {
                    it.all(|f| m.eval(&f.subs, o))
                } else {
                    it.any(|f| m.eval(&f.subs, o))
                }
            }
            FldM::Card(t, c, m, op, n) => {
                let k = fs.iter().filter(|f| at(t, c, f) && m.as_ref().is_none_or(|m| m.eval(&f.subs, o))).count();
                num_op(op, k, *n)
            }
            FldM::Group(m) => m.eval(fs, o),
            FldM::Not(m) => !m.eval(fs, o),
            FldM::Bin("&&", v) => v.iter().all(|m| m.eval(fs, o)),
            FldM::Bin("||", v) => v.iter().any(|m| m.eval(fs, o)),
            FldM::Bin(_, v) => v.iter().filter(|m| m.eval(fs, o)).count() % 2 == 1,
        }
    }
    pub fn print(&self, r: &mut Rng) -> String {
        match self {
            FldM::Exists(t, c) => format!("{}{}?", t.print(), c.print()),
            FldM::Dot(q, t, c, m) => format!("{}{}{}.{}", q.text(), t.print(), c.print(), m.print(r)),
            FldM::Curly(q, t, c, m) => format!("{}{}{}{}{{{}{}{}}}", q.text(), t.print(), c.print(), sp(r), sp(r), m.print(r), sp(r)),
            FldM::Card(t, c, m, op, n) => {
                let m = match m {
                    Some(m) => format!("{}{{{}{}{}}}", sp(r), sp(r), m.print(r), sp(r)),
                    None => String::new(),
                };
                format!("#{}{}{}{m}{}{op}{}{n}", sp(r), t.print(), c.print(), sp(r), sp(r))
            }
            FldM::Group(m) => format!("({}{}{})", sp(r), m.print(r), sp(r)),
            FldM::Not(m) => format!("!{}{}", sp(r), m.print(r)),
            FldM::Bin(op, v) => {
                let mut o = String::new();
                for (i, m) in v.iter().enumerate() {
                    if i > 0 {
                        let op = if *op == "^" && r.chance(40) { "XOR" } else { op };
                        if op == "XOR" {
                            o.push_str(" XOR ");
                        } else {
                            o.push_str(&format!("{}{op}{}", sp(r), sp(r)));
                        }
                    }
                    o.push_str(&m.print(r));
                }
                o
            }
        }
    }
}
pub fn gen_fld_atom(r: &mut Rng) -> FldM {
    let t = gen_tag(r);
    let c = gen_occ(r);
    let q = gen_q(r);
    match r.below(10) {
        0..=1 => FldM::Exists(t, c),
        2..=5 => FldM::Dot(q, t, c, gen_sub_dot(r)),
        6..=7 => FldM::Curly(q, t, c, gen_sub(r, 0, 2)),
        _ => FldM::Card(t, c, if r.chance(50) { Some(gen_sub(r, 0, 1)) } else { None }, NUM_OPS[r.below(6)], r.below(4)),
    }
}
/// singleton without its own quantifier: the usual dotted form
fn gen_sub_dot(r: &mut Rng) -> SubM {
    let mut m = gen_sub_atom(r);
    match &mut m {
        SubM::Rel(q, ..) | SubM::Contains(q, ..) | SubM::Regex(q, ..) | SubM::RegexSet(q, ..) | SubM::In(q, ..) | SubM::InChars(q, ..) => {
            *q = Q::Default
        }
        _ => {}
    }
    m
}
pub fn gen_fldm(r: &mut Rng, level: usize, depth: usize) -> FldM {
    if depth == 0 {
        return gen_fld_atom(r);
    }
    if level < 3 {
        if r.chance(45) {
            let op = ["||", "^", "&&"][level];
            let n = 2 + r.below(2);
            return FldM::Bin(op, (0..n).map(|_| gen_fldm(r, level + 1, depth - 1)).collect());
        }
        return gen_fldm(r, level + 1, depth);
    }
    match r.below(10) {
        0..=2 => FldM::Group(Box::new(gen_fldm(r, 0, depth - 1))),
        3 => FldM::Not(Box::new(FldM::Group(Box::new(gen_fldm(r, 0, depth - 1))))),
        4 => FldM::Not(Box::new(FldM::Exists(gen_tag(r), gen_occ(r)))),
        5 => FldM::Not(Box::new(FldM::Curly(Q::Default, gen_tag(r), gen_occ(r), gen_sub(r, 0, 1)))),
        6 => FldM::Not(Box::new(FldM::Dot(Q::Default, gen_tag(r), gen_occ(r), SubM::Exists(gen_codes(r))))),
        _ => gen_fld_atom(r),
    }
}
