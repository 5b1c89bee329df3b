//! Independent reference model of normalised PICA+ (the oracle side).
use crate::cx::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sub {
    pub code: u8,
    pub val: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fld {
    pub tag: Vec<u8>,
    pub occ: Option<Vec<u8>>,
    pub subs: Vec<Sub>,
}
pub type Rec = Vec<Fld>;

pub fn is_tag(t: &[u8]) -> bool {
    t.len() == 4
        && (b'0'..=b'2').contains(&t[0])
        && t[1].is_ascii_digit()
        && t[2].is_ascii_digit()
        && (t[3] == b'@' || t[3].is_ascii_uppercase())
}
pub fn is_occ(o: &[u8]) -> bool {
    (o.len() == 2 || o.len() == 3) && o.iter().all(u8::is_ascii_digit)
}

/// reference parser: one record line including its newline
pub fn parse_line(b: &[u8]) -> Option<Rec> {
    let (last, body) = b.split_last()?;
    if *last != b'\n' || body.is_empty() || body[body.len() - 1] != 0x1e {
        return None;
    }
    let mut out = vec![];
    for raw in body[..body.len() - 1].split(|c| *c == 0x1e) {
        out.push(parse_field(raw)?);
    }
    Some(out)
}
/// reference parser: a field without its terminator
pub fn parse_field(raw: &[u8]) -> Option<Fld> {
    if raw.len() < 5 || !is_tag(&raw[..4]) {
        return None;
    }
    let rest = &raw[4..];
    let (occ, rest) = if rest[0] == b'/' {
        let sp = rest.iter().position(|c| *c == b' ')?;
        let o = &rest[1..sp];
        if !is_occ(o) {
            return None;
        }
        (Some(o.to_vec()), &rest[sp..])
    } else {
        (None, rest)
    };
    if rest.is_empty() || rest[0] != b' ' {
        return None;
    }
    let rest = &rest[1..];
    let mut subs = vec![];
    if !rest.is_empty() {
        if rest[0] != 0x1f {
            return None;
        }
        for s in rest[1..].split(|c| *c == 0x1f) {
            if s.is_empty() || !s[0].is_ascii_alphanumeric() {
                return None;
            }
            subs.push(Sub { code: s[0], val: s[1..].to_vec() });
        }
    }
    Some(Fld { tag: raw[..4].to_vec(), occ, subs })
}
pub fn ser_field(f: &Fld) -> Vec<u8> {
    let mut o = f.tag.clone();
    if let Some(c) = &f.occ {
        o.push(b'/');
        o.extend(c);
    }
    o.push(b' ');
    for s in &f.subs {
        o.push(0x1f);
        o.push(s.code);
        o.extend(&s.val);
    }
    o.push(0x1e);
    o
}
pub fn ser(r: &Rec) -> Vec<u8> {
    let mut o: Vec<u8> = r.iter().flat_map(ser_field).collect();
    if !r.is_empty() {
        o.push(b'\n');
    }
    o
}
pub fn utf8_ok(r: &Rec) -> bool {
    r.iter().all(|f| f.subs.iter().all(|s| std::str::from_utf8(&s.val).is_ok()))
}

// ------------------------------------------------------------ generation

pub const TAGS: [&str; 9] = ["003@", "012A", "028A", "028B", "044K", "101@", "201A", "209A", "247C"];
pub const OCCS: [&str; 9] = ["00", "01", "02", "03", "11", "99", "001", "011", "100"];
pub const CODES: [u8; 6] = [b'a', b'b', b'0', b'X', b'z', b'9'];
pub const VALS: [&str; 38] = [
    "", "a", "A", "ab", "aB", "abc", "ABC", "abcabc", "b", "bc", "c", "x y", " x ", "ß", "ẞ", "SS", "ss", "\u{212A}", "k", "K", "\u{130}", "i",
    "ä", "Ä", "a@b", "@c", "42", "a|b", "O'Neil", "back\\slash", "a,b", ";", "\"q\"", "\ta", "a\u{a0}", "(x)", "$0", "a/b",
];

pub fn gen_val(r: &mut Rng) -> Vec<u8> {
    if r.chance(4) {
        return [vec![0xffu8, b'a'], vec![b'a', 0xc3], vec![0x80]][r.below(3)].clone();
    }
    if let Some(n) = r.large(300) {
        let mut v = vec![];
        while v.len() < n {
            v.extend(r.pick(&VALS).as_bytes());
        }
        return v;
    }
    if r.chance(15) {
        let mut v = r.pick(&VALS).as_bytes().to_vec();
        v.extend(r.pick(&VALS).as_bytes());
        return v;
    }
    r.pick(&VALS).as_bytes().to_vec()
}
pub fn gen_val_utf8(r: &mut Rng) -> Vec<u8> {
    loop {
        let v = gen_val(r);
        if std::str::from_utf8(&v).is_ok() {
            return v;
        }
    }
}
pub fn gen_fld(r: &mut Rng, tags: &[&str]) -> Fld {
    let nsub = [0, 1, 1, 2, 2, 3, 4][r.below(7)];
    let nsub = r.large(40).unwrap_or(nsub);
    Fld {
        tag: r.pick(tags).as_bytes().to_vec(),
        occ: if r.chance(45) { Some(r.pick(&OCCS).as_bytes().to_vec()) } else { None },
        subs: (0..nsub).map(|_| Sub { code: *r.pick(&CODES), val: gen_val(r) }).collect(),
    }
}
pub fn gen_rec(r: &mut Rng) -> Rec {
    let n = 1 + r.below(6);
    let n = r.large(60).unwrap_or(n);
    let k = 2 + r.below(TAGS.len() - 2);
    (0..n).map(|_| gen_fld(r, &TAGS[..k])).collect()
}
pub fn gen_rec_utf8(r: &mut Rng) -> Rec {
    loop {
        let x = gen_rec(r);
        if utf8_ok(&x) {
            return x;
        }
    }
}
