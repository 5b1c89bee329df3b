//! Matchers: tag/occurrence, subfield, field/record, Boolean algebra,
//! expression syntax.
use crate::cx::*;
use crate::mexpr::*;
use crate::rec::*;
use pica_record::matcher::subfield::SubfieldMatcher;
use pica_record::prelude::*;
use pica_record::primitives::{FieldRef, OccurrenceRef, RecordRef, SubfieldRef, TagRef};
use serde_json::json;

pub fn opts(o: &Opt) -> MatcherOptions {
    MatcherOptions::new().case_ignore(o.ci).strsim_threshold(o.thr)
}
pub fn gen_opt(r: &mut Rng) -> Opt {
    Opt { ci: r.chance(40), thr: [0.0, 0.25, 0.5, 0.65, 0.8, 0.99][r.below(6)] }
}
fn sub_bytes(s: &[Sub]) -> Vec<Vec<u8>> {
    s.iter()
        .map(|s| {
            let mut v = vec![0x1f, s.code];
            v.extend(&s.val);
            v
        })
        .collect()
}

// ---------------------------------------------------------------- C04

pub fn c04(cx: &mut Cx) {
    cx.rule("tag patterns: random pattern against all 8100 valid tags; occurrence matchers: every matcher form against no occurrence and all 1100 two/three-digit occurrences; non-trivial = the matcher accepts some and rejects some");
    let all_tags: Vec<Vec<u8>> = {
        let mut v = vec![];
        for a in b"012" {
            for b in b"0123456789" {
                for c in b"0123456789" {
                    for d in b"ABCDEFGHIJKLMNOPQRSTUVWXYZ@" {
                        v.push(vec![*a, *b, *c, *d]);
                    }
                }
            }
        }
        v
    };
    let e0 = cx.evals;
    for k in 0..cx.n(400) {
        if cx.full() {
            break;
        }
        let m = {
            let base = all_tags[cx.rng.below(all_tags.len())].clone();
            if k % 4 == 0 {
                TagM::Exact(String::from_utf8(base).unwrap())
            } else {
                gen_tag_pat(&mut cx.rng, &base)
            }
        };
        let text = m.print();
        let real = match guard(|| TagMatcher::new(&text)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => {
                cx.violate("tag matcher rejected", json!({"matcher": text}), json!("accepted"), json!(e.to_string()));
                continue;
            }
            Err(p) => {
                cx.violate("tag matcher panicked", json!({"matcher": text}), json!("accepted"), json!(p));
                continue;
            }
        };
        if real.to_string() != text {
            cx.violate("tag matcher text", json!({"matcher": text}), json!(text), json!(real.to_string()));
        }
        let (mut y, mut n) = (false, false);
        for t in &all_tags {
            cx.evals += 1;
            let tr = TagRef::from_unchecked(t);
            let want = m.hit(t);
            if want {
                y = true
            } else {
                n = true
            }
            match guard(|| real.is_match(&tr)) {
                Ok(got) if got == want => (),
                got => {
                    cx.violate("tag match", json!({"matcher": text, "tag": show(t)}), json!(want), json!(format!("{got:?}")));
                    break;
                }
            }
        }
        cx.case(&format!("tag {text}"), y && n);
    }
    cx.part("tag patterns x all tags", e0);

    let e0 = cx.evals;
    let mut occs: Vec<Option<Vec<u8>>> = vec![None];
    for i in 0..100 {
        occs.push(Some(format!("{i:02}").into_bytes()));
    }
    for i in 0..1000 {
        occs.push(Some(format!("{i:03}").into_bytes()));
    }
    let mut ms: Vec<OccM> = vec![OccM::None, OccM::Any];
    for i in 1..occs.len() {
        let s = String::from_utf8(occs[i].clone().unwrap()).unwrap();
        if s != "00" {
            ms.push(OccM::Exact(s));
        }
    }
    for _ in 0..cx.n(700) {
        let w = if cx.rng.chance(50) { 2 } else { 3 };
        let lim = if w == 2 { 100 } else { 1000 };
        let (a, b) = (cx.rng.below(lim), cx.rng.below(lim));
        if a < b {
            ms.push(OccM::Range(format!("{a:0w$}"), format!("{b:0w$}")));
        }
    }
    for m in ms {
        if cx.full() {
            break;
        }
        let text = m.print();
        let real = match guard(|| OccurrenceMatcher::new(&text)) {
            Ok(Ok(x)) => x,
            e => {
                cx.violate("occurrence matcher rejected", json!({"matcher": text}), json!("accepted"), json!(format!("{e:?}")));
                continue;
            }
        };
        if real.to_string() != text {
            cx.violate("occurrence matcher text", json!({"matcher": text}), json!(text), json!(real.to_string()));
        }
        let (mut y, mut n) = (false, false);
        for o in &occs {
            cx.evals += 1;
            let want = m.hit(o.as_deref());
            if want {
                y = true
            } else {
                n = true
            }
            let or = o.as_ref().map(|o| OccurrenceRef::from_unchecked(o));
            match guard(|| real.is_match(or.as_ref())) {
                Ok(got) if got == want => (),
                got => {
                    cx.violate(
                        "occurrence match",
                        json!({"matcher": text, "occurrence": o.as_ref().map(|o| show(o))}),
                        json!(want),
                        json!(format!("{got:?}")),
                    );
                    break;
                }
            }
        }
        cx.case(&format!("occ {text}"), y && n);
    }
    cx.part("occurrence matchers x all occurrences", e0);

    // accepted syntax of occurrence matchers: exhaustive over short texts
    let e0 = cx.evals;
    let accepts = |t: &str| -> bool {
        let b = t.as_bytes();
        if t.is_empty() || t == "/*" || t == "/00" {
            return true;
        }
        if b[0] != b'/' {
            return false;
        }
        match t[1..].split_once('-') {
            None => is_occ(&b[1..]),
            Some((a, c)) => is_occ(a.as_bytes()) && is_occ(c.as_bytes()) && a.len() == c.len() && a < c,
        }
    };
    let mut texts = vec![String::new()];
    let mut cur = vec!["/".to_string()];
    for _ in 0..4 {
        texts.extend(cur.clone());
        let mut nx = vec![];
        for s in &cur {
            for c in "019-*/ ".chars() {
                nx.push(format!("{s}{c}"));
            }
        }
        cur = nx;
    }
    texts.extend(cur);
    for a in ["00", "01", "10", "000", "001", "100", "1", "0001", "0a"] {
        for b in ["00", "01", "02", "10", "000", "001", "010", "101", "1", "1001", ""] {
            texts.push(format!("/{a}-{b}"));
        }
    }
    for t in texts {
        if cx.full() {
            break;
        }
        let want = accepts(&t);
        let got = guard(|| OccurrenceMatcher::new(&t).is_ok());
        cx.case(&format!("occ syntax {t}"), want);
        if got != Ok(want) {
            cx.violate("occurrence matcher syntax", json!({"matcher": t}), json!(want), json!(format!("{got:?}")));
        }
    }
    cx.part("occurrence matcher syntax, all texts up to 5 characters", e0);
}

// ---------------------------------------------------------------- C05

fn check_sub(cx: &mut Cx, m: &SubM, subs: &[Sub], o: &Opt) {
    let text = m.print(&mut cx.rng);
    let raw = sub_bytes(subs);
    let refs: Vec<SubfieldRef> = raw.iter().map(|b| SubfieldRef::from_bytes(b).unwrap()).collect();
    let want = m.eval(subs, o);
    let got = guard(|| SubfieldMatcher::new(&text).map(|x| x.is_match(&refs, &opts(o))).map_err(|e| e.to_string()));
    let key = format!("{text} | {} | ci={} thr={}", show(&raw.concat()), o.ci, o.thr);
    cx.case(&key, !subs.is_empty());
    if got != Ok(Ok(want)) {
        cx.violate(
            "subfield predicate",
            json!({"matcher": text, "subfields": raw.iter().map(|b| show(b)).collect::<Vec<_>>(), "case_ignore": o.ci, "strsim_threshold": o.thr}),
            json!(want),
            json!(format!("{got:?}")),
        );
    }
}
pub fn gen_subs(r: &mut Rng) -> Vec<Sub> {
    let k = [0, 1, 1, 1, 2, 2, 3, 5][r.below(8)];
    (0..k).map(|_| Sub { code: *r.pick(&CODES), val: gen_val(r) }).collect()
}
pub fn c05(cx: &mut Cx) {
    cx.rng.1 = true;
    cx.rule("subfield predicates: every operator x quantifier x case option on every pair (value, literal) of a fixed pool, then random predicates and Boolean trees on random subfield lists; non-trivial = at least one subfield");
    let e0 = cx.evals;
    let one = |c: u8| Codes { text: (c as char).to_string(), set: vec![c] };
    for ci in [false, true] {
        for v in VALS {
            for l in VALS {
                if cx.full() {
                    return;
                }
                let o = Opt { ci, thr: [0.3, 0.5, 0.75][cx.rng.below(3)] };
                let s = [Sub { code: b'a', val: v.as_bytes().to_vec() }];
                for op in STR_OPS {
                    check_sub(cx, &SubM::Rel(Q::Default, one(b'a'), op, l.into()), &s, &o);
                }
                check_sub(cx, &SubM::Contains(Q::Default, one(b'a'), vec![l.into()]), &s, &o);
                check_sub(cx, &SubM::In(Q::Default, one(b'a'), false, vec![l.into()]), &s, &o);
                check_sub(cx, &SubM::In(Q::Default, one(b'a'), true, vec!["q".into(), l.into()]), &s, &o);
            }
        }
    }
    cx.part("operator x value x literal grid", e0);
    let e0 = cx.evals;
    // cardinalities and codes, exhaustively small
    for n in 0..4usize {
        for k in 0..5usize {
            for op in NUM_OPS {
                let subs: Vec<Sub> = (0..n)
                    .flat_map(|_| [Sub { code: b'a', val: b"x".to_vec() }, Sub { code: b'b', val: b"".to_vec() }])
                    .collect();
                let o = Opt { ci: false, thr: 0.8 };
                check_sub(cx, &SubM::Card(one(b'a'), op, k), &subs, &o);
                let ab = Codes { text: "[ab]".into(), set: vec![b'a', b'b'] };
                check_sub(cx, &SubM::Card(ab, op, k), &subs, &o);
            }
        }
    }
    let all: Vec<u8> = (b'0'..=b'9').chain(b'a'..=b'z').chain(b'A'..=b'Z').collect();
    for &c in &all {
        for (text, set) in [("*", all.clone()), ("[a-z]", (b'a'..=b'z').collect()), ("[0-9X]", b"0123456789X".to_vec()), ("[b-dA]", b"bcdA".to_vec())] {
            let s = [Sub { code: c, val: b"v".to_vec() }];
            let o = Opt { ci: false, thr: 0.8 };
            check_sub(cx, &SubM::Exists(Codes { text: text.into(), set }), &s, &o);
        }
    }
    cx.part("cardinality and code lists, small exhaustive", e0);
    let e0 = cx.evals;
    for _ in 0..cx.n(12000) {
        if cx.full() {
            break;
        }
        let m = gen_sub_atom(&mut cx.rng);
        for _ in 0..4 {
            let subs = gen_subs(&mut cx.rng);
            let o = gen_opt(&mut cx.rng);
            check_sub(cx, &m, &subs, &o);
        }
    }
    cx.part("random predicates", e0);
    let e0 = cx.evals;
    for _ in 0..cx.n(4000) {
        if cx.full() {
            break;
        }
        let m = gen_sub(&mut cx.rng, 0, 3);
        let subs = gen_subs(&mut cx.rng);
        let o = gen_opt(&mut cx.rng);
        check_sub(cx, &m, &subs, &o);
    }
    cx.part("random Boolean combinations", e0);
}

// ---------------------------------------------------------------- C06

fn check_fld(cx: &mut Cx, m: &FldM, rec: &Rec, o: &Opt, what: &str) {
    let text = m.print(&mut cx.rng);
    let raw = ser(rec);
    let rr = RecordRef::from_bytes(&raw).unwrap();
    let want = m.eval(rec, o);
    let got = guard(|| RecordMatcher::new(&text).map(|x| x.is_match(&rr, &opts(o))).map_err(|e| e.to_string()));
    cx.case(&format!("{text} | {} | ci={} thr={}", show(&raw), o.ci, o.thr), true);
    if got != Ok(Ok(want)) {
        cx.violate(
            what,
            json!({"matcher": text, "record": show(&raw), "case_ignore": o.ci, "strsim_threshold": o.thr}),
            json!(want),
            json!(format!("{got:?}")),
        );
    }
}
/// a value with its letters in the other case, or with a letter more
fn near(r: &mut Rng, v: &str) -> String {
    let mut t: String = v.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    if r.chance(25) {
        t = format!("{v}x");
    }
    t
}
/// an expression around a leaf about a value of the record that depends on the options
fn gen_opt_tree(r: &mut Rng, rec: &Rec) -> Option<FldM> {
    let all: Vec<(&Fld, &Sub)> = rec.iter().flat_map(|f| f.subs.iter().map(move |s| (f, s))).filter(|(_, s)| s.val.iter().any(|c| c.is_ascii_alphabetic()) && s.code.is_ascii_alphanumeric()).collect();
    if all.is_empty() {
        return None;
    }
    let (f, s) = *r.pick(&all);
    let v = String::from_utf8(s.val.clone()).ok()?;
    if !v.chars().all(|c| c.is_ascii_alphanumeric()) {
        return None;
    }
    let lit = near(r, &v);
    let q = if r.chance(30) { Q::All } else { Q::Default };
    let c = Codes { text: (s.code as char).to_string(), set: vec![s.code] };
    let leaf = match r.below(6) {
        0..=2 => SubM::Rel(q, c, STR_OPS[r.below(7)], lit),
        3 => SubM::Contains(q, c, vec![lit, "zz".into()]),
        4 => SubM::In(q, c, r.chance(40), vec!["zz".into(), lit]),
        _ => SubM::Regex(q, c, r.chance(40), format!("^{lit}")),
    };
    let occ = match &f.occ {
        None => OccM::None,
        Some(_) => OccM::Any,
    };
    let t = TagM::Exact(String::from_utf8(f.tag.clone()).ok()?);
    let mut m = if r.chance(40) {
        let l = match leaf {
            SubM::Rel(_, c, op, v) => SubM::Rel(Q::Default, c, op, v),
            SubM::Contains(_, c, v) => SubM::Contains(Q::Default, c, v),
            SubM::In(_, c, n, v) => SubM::In(Q::Default, c, n, v),
            SubM::Regex(_, c, n, v) => SubM::Regex(Q::Default, c, n, v),
            l => l,
        };
        FldM::Dot(Q::Default, t, occ, l)
    } else {
        let mut l = leaf;
        for _ in 0..r.below(3) {
            let y = SubM::Exists(Codes { text: (s.code as char).to_string(), set: vec![s.code] });
            l = SubM::Group(Box::new(match r.below(5) {
                0..=1 => SubM::Not(Box::new(SubM::Group(Box::new(l)))),
                2 => SubM::Bin("&&", if r.chance(50) { vec![y, l] } else { vec![l, y] }),
                3 => SubM::Bin("||", vec![SubM::Not(Box::new(y)), l]),
                _ => SubM::Bin("^", if r.chance(50) { vec![y, l] } else { vec![l, y] }),
            }));
        }
        if r.chance(25) {
            FldM::Card(t, occ, Some(l), NUM_OPS[r.below(6)], r.below(3))
        } else {
            FldM::Curly(Q::Default, t, occ, l)
        }
    };
    for _ in 0..r.below(4) {
        let y = FldM::Exists(TagM::Exact(String::from_utf8(f.tag.clone()).ok()?), OccM::Any);
        m = match r.below(6) {
            0..=2 => FldM::Not(Box::new(if matches!(m, FldM::Curly(..)) && r.chance(50) { m } else { FldM::Group(Box::new(m)) })),
            3 => FldM::Group(Box::new(FldM::Bin("&&", if r.chance(50) { vec![y, m] } else { vec![m, y] }))),
            4 => FldM::Group(Box::new(FldM::Bin("||", vec![FldM::Not(Box::new(y)), m]))),
            _ => FldM::Group(Box::new(FldM::Bin("^", if r.chance(50) { vec![y, m] } else { vec![m, y] }))),
        };
    }
    Some(m)
}
pub fn c06(cx: &mut Cx) {
    cx.rng.1 = true;
    cx.rule("field and record matchers: random expressions (existence, dotted and braced predicates with ALL/ANY, cardinality with all operators and thresholds, groups, negation) on random records, compared with an independent evaluator; non-trivial = every evaluated pair");
    let e0 = cx.evals;
    // cardinality grid
    for n in 0..4usize {
        for k in 0..5usize {
            for op in NUM_OPS {
                for filt in [false, true] {
                    let mut rec: Rec = vec![];
                    for i in 0..n {
                        rec.push(Fld { tag: b"012A".to_vec(), occ: None, subs: vec![Sub { code: b'a', val: if i % 2 == 0 { b"x".to_vec() } else { b"y".to_vec() } }] });
                    }
                    rec.push(Fld { tag: b"003@".to_vec(), occ: None, subs: vec![Sub { code: b'0', val: b"1".to_vec() }] });
                    let m = if filt { Some(SubM::Rel(Q::Default, Codes { text: "a".into(), set: vec![b'a'] }, "==", "x".into())) } else { None };
                    let m = FldM::Card(TagM::Exact("012A".into()), OccM::None, m, op, k);
                    let o = Opt { ci: false, thr: 0.8 };
                    check_fld(cx, &m, &rec, &o, "field cardinality");
                }
            }
        }
    }
    cx.part("cardinality grid", e0);
    let e0 = cx.evals;
    for _ in 0..cx.n(9000) {
        if cx.full() {
            break;
        }
        let m = gen_fld_atom(&mut cx.rng);
        for _ in 0..3 {
            let rec = gen_rec(&mut cx.rng);
            let o = gen_opt(&mut cx.rng);
            check_fld(cx, &m, &rec, &o, "field matcher");
        }
    }
    cx.part("random field matchers", e0);
    // the options reach every part of an expression: one leaf that depends on
    // them, below negations, groups, connectives and braces
    let e0 = cx.evals;
    for _ in 0..cx.n(3000) {
        if cx.full() {
            break;
        }
        let rec = gen_rec(&mut cx.rng);
        let o = gen_opt(&mut cx.rng);
        if let Some(m) = gen_opt_tree(&mut cx.rng, &rec) {
            check_fld(cx, &m, &rec, &o, "options below an expression");
        }
    }
    cx.part("options below expressions", e0);
    let e0 = cx.evals;
    for _ in 0..cx.n(3000) {
        if cx.full() {
            break;
        }
        let m = gen_fldm(&mut cx.rng, 0, 3);
        let rec = gen_rec(&mut cx.rng);
        let o = gen_opt(&mut cx.rng);
        check_fld(cx, &m, &rec, &o, "record matcher");
    }
    cx.part("random Boolean combinations", e0);
}

// ---------------------------------------------------------------- C07

pub fn c07(cx: &mut Cx) {
    cx.rng.1 = true;
    cx.rule("Boolean operators on parsed record/field/subfield matchers (& | ^ ! and their assigning forms, nested up to 5 operations, and the builder's and/or/not) against the Boolean combination of the operands' own results; the printed form of every composite must parse back to the same function; non-trivial = composite of at least two operands");
    let e0 = cx.evals;
    for _ in 0..cx.n(6000) {
        if cx.full() {
            break;
        }
        let rec = gen_rec(&mut cx.rng);
        let raw = ser(&rec);
        let rr = RecordRef::from_bytes(&raw).unwrap();
        let o = gen_opt(&mut cx.rng);
        let n = 2 + cx.rng.below(4);
        let mut trace: Vec<String> = vec![];
        let mk = |r: &mut Rng| {
            let d = r.below(3);
            let m = gen_fldm(r, 0, d);
            m.print(r)
        };
        let t0 = mk(&mut cx.rng);
        let steps: Vec<(usize, String)> = (1..n).map(|_| (cx.rng.below(8), mk(&mut cx.rng))).collect();
        let res = guard(|| -> Result<(bool, bool, String, Vec<String>), String> {
            let p = |t: &str| RecordMatcher::new(t).map_err(|e| format!("rejected: {e}"));
            let ev = |m: &RecordMatcher| m.is_match(&rr, &opts(&o));
            let mut acc = p(&t0)?;
            let mut want = ev(&acc);
            let mut tr = vec![t0.clone()];
            for (k, t) in &steps {
                let rhs = p(t)?;
                let b = ev(&rhs);
                match k {
                    0 => {
                        acc = acc & rhs;
                        want &= b;
                        tr.push(format!("& {t}"));
                    }
                    1 => {
                        acc = acc | rhs;
                        want |= b;
                        tr.push(format!("| {t}"));
                    }
                    2 => {
                        acc = acc ^ rhs;
                        want ^= b;
                        tr.push(format!("^ {t}"));
                    }
                    3 => {
                        acc = !acc;
                        want = !want;
                        tr.push("!".into());
                    }
                    4 => {
                        acc &= rhs;
                        want &= b;
                        tr.push(format!("&= {t}"));
                    }
                    5 => {
                        acc |= rhs;
                        want |= b;
                        tr.push(format!("|= {t}"));
                    }
                    6 => {
                        acc ^= rhs;
                        want ^= b;
                        tr.push(format!("^= {t}"));
                    }
                    _ => {
                        acc = rhs & !acc;
                        want = b && !want;
                        tr.push(format!("{t} & !acc"));
                    }
                }
            }
            Ok((want, ev(&acc), acc.to_string(), tr))
        });
        match res {
            Ok(Ok((want, got, text, tr))) => {
                trace.extend(tr);
                cx.case(&format!("{trace:?} | {}", show(&raw)), true);
                if want != got {
                    cx.violate("Boolean operator", json!({"operations": trace, "record": show(&raw), "case_ignore": o.ci}), json!(want), json!(got));
                }
                let back = guard(|| RecordMatcher::new(&text).map(|m| m.is_match(&rr, &opts(&o))).map_err(|e| e.to_string()));
                if back != Ok(Ok(want)) {
                    cx.violate(
                        "printed composite does not mean the composite",
                        json!({"operations": trace, "printed": text, "record": show(&raw), "case_ignore": o.ci}),
                        json!(want),
                        json!(format!("{back:?}")),
                    );
                }
            }
            e => {
                cx.case(&format!("{t0} {steps:?}"), true);
                cx.violate("Boolean operator", json!({"start": t0, "steps": steps, "record": show(&raw)}), json!("a result"), json!(format!("{e:?}")));
            }
        }
    }
    cx.part("operator chains", e0);

    let e0 = cx.evals;
    for _ in 0..cx.n(3000) {
        if cx.full() {
            break;
        }
        let subs = gen_subs(&mut cx.rng);
        let raw = sub_bytes(&subs);
        let refs: Vec<SubfieldRef> = raw.iter().map(|b| SubfieldRef::from_bytes(b).unwrap()).collect();
        let o = gen_opt(&mut cx.rng);
        let ts: Vec<String> = (0..3)
            .map(|_| {
                let d = cx.rng.below(3);
                let m = gen_sub(&mut cx.rng, 0, d);
                m.print(&mut cx.rng)
            })
            .collect();
        let ops: Vec<usize> = (0..2).map(|_| cx.rng.below(6)).collect();
        let neg = cx.rng.chance(30);
        let res = guard(|| -> Result<(bool, bool, String), String> {
            let p = |t: &str| SubfieldMatcher::new(t).map_err(|e| format!("rejected: {e}"));
            let ev = |m: &SubfieldMatcher| m.is_match(&refs, &opts(&o));
            let mut acc = p(&ts[0])?;
            let mut want = ev(&acc);
            for (i, k) in ops.iter().enumerate() {
                let rhs = p(&ts[i + 1])?;
                let b = ev(&rhs);
                match k {
                    0 => acc = acc & rhs,
                    1 => acc = acc | rhs,
                    2 => acc = acc ^ rhs,
                    3 => acc &= rhs,
                    4 => acc |= rhs,
                    _ => acc ^= rhs,
                }
                want = match k % 3 {
                    0 => want && b,
                    1 => want || b,
                    _ => want ^ b,
                };
            }
            if neg {
                acc = !acc;
                want = !want;
            }
            Ok((want, ev(&acc), acc.to_string()))
        });
        cx.case(&format!("sub {ts:?} {ops:?} {neg}"), true);
        match res {
            Ok(Ok((want, got, text))) => {
                let back = guard(|| SubfieldMatcher::new(&text).map(|m| m.is_match(&refs, &opts(&o))).map_err(|e| e.to_string()));
                if want != got || back != Ok(Ok(want)) {
                    cx.violate(
                        "Boolean operator on subfield matchers",
                        json!({"operands": ts, "ops(0&,1|,2^,3&=,4|=,5^=)": ops, "negated": neg, "printed": text, "subfields": show(&raw.concat()), "case_ignore": o.ci}),
                        json!(want),
                        json!(format!("{got} / reparsed {back:?}")),
                    );
                }
            }
            e => cx.violate("Boolean operator on subfield matchers", json!({"operands": ts, "ops": ops}), json!("a result"), json!(format!("{e:?}"))),
        }
    }
    cx.part("subfield matcher operators", e0);

    let e0 = cx.evals;
    for _ in 0..cx.n(3000) {
        if cx.full() {
            break;
        }
        let rec = gen_rec(&mut cx.rng);
        let raw = ser(&rec);
        let rr = RecordRef::from_bytes(&raw).unwrap();
        let o = gen_opt(&mut cx.rng);
        let mk = |r: &mut Rng, k: usize| -> Vec<(String, bool)> {
            (0..k)
                .map(|_| {
                    let d = r.below(3);
                    let m = gen_fldm(r, 0, d);
                    (m.print(r), m.eval(&rec, &o))
                })
                .collect()
        };
        let base = mk(&mut cx.rng, 1).remove(0);
        let k = [cx.rng.below(3), cx.rng.below(3), cx.rng.below(3)];
        let ands = mk(&mut cx.rng, k[0]);
        let ors = mk(&mut cx.rng, k[1]);
        let nots = mk(&mut cx.rng, k[2]);
        let tx = |v: &[(String, bool)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
        // order and, or, not (as the commands apply them)
        let want = ((base.1 && ands.iter().all(|x| x.1)) || ors.iter().any(|x| x.1)) && nots.iter().all(|x| !x.1);
        let transform = cx.rng.chance(40);
        let got = guard(|| -> Result<bool, String> {
            let b = if transform {
                // a transformation that only re-encodes the text must be applied to every predicate
                RecordMatcherBuilder::with_transform(base.0.replace('a', "\u{1}"), |s: String| s.replace('\u{1}', "a"))
            } else {
                RecordMatcherBuilder::new(base.0.clone())
            };
            let enc = |v: Vec<String>| if transform { v.into_iter().map(|s| s.replace('a', "\u{1}")).collect() } else { v };
            let m = b
                .and_then(|b| b.and(enc(tx(&ands))))
                .and_then(|b| b.or(enc(tx(&ors))))
                .and_then(|b| b.not(enc(tx(&nots))))
                .map_err(|e| e.to_string())?
                .build();
            Ok(m.is_match(&rr, &opts(&o)))
        });
        cx.case(&format!("builder {} {:?} {:?} {:?}", base.0, tx(&ands), tx(&ors), tx(&nots)), k.iter().sum::<usize>() > 0);
        if got != Ok(Ok(want)) {
            cx.violate(
                "matcher builder",
                json!({"where": base.0, "and": tx(&ands), "or": tx(&ors), "not": tx(&nots), "transform": transform, "record": show(&raw), "case_ignore": o.ci}),
                json!(want),
                json!(format!("{got:?}")),
            );
        }
    }
    cx.part("builder", e0);
}

// ---------------------------------------------------------------- C08

pub fn c08(cx: &mut Cx) {
    cx.rng.1 = true;
    cx.rule("expression syntax: random trees printed without redundant parentheses and with varied layout, quoting and escapes must be accepted with the precedence AND > XOR > OR; the text a matcher prints must parse to the same function; acceptance must not depend on what was parsed before; non-trivial = composite expression");
    let e0 = cx.evals;
    for _ in 0..cx.n(5000) {
        if cx.full() {
            break;
        }
        let m = gen_fldm(&mut cx.rng, 0, 3);
        let text = m.print(&mut cx.rng);
        let recs: Vec<Rec> = (0..3).map(|_| gen_rec(&mut cx.rng)).collect();
        let o = gen_opt(&mut cx.rng);
        for rec in &recs {
            let raw = ser(rec);
            let rr = RecordRef::from_bytes(&raw).unwrap();
            let want = m.eval(rec, &o);
            let got = guard(|| -> Result<(bool, bool, String), String> {
                let a = RecordMatcher::new(&text).map_err(|e| e.to_string())?;
                let shown = a.to_string();
                let b = RecordMatcher::new(&shown).map_err(|e| format!("printed form rejected: {shown}: {e}"))?;
                Ok((a.is_match(&rr, &opts(&o)), b.is_match(&rr, &opts(&o)), shown))
            });
            cx.case(&format!("{text} | {}", show(&raw)), matches!(m, FldM::Bin(..) | FldM::Not(..) | FldM::Group(..)));
            match got {
                Ok(Ok((a, b, _))) if a == want && b == want => (),
                got => {
                    cx.violate(
                        "expression meaning",
                        json!({"matcher": text, "record": show(&raw), "case_ignore": o.ci, "strsim_threshold": o.thr}),
                        json!(want),
                        json!(format!("{got:?}")),
                    );
                    break;
                }
            }
        }
    }
    cx.part("random expressions", e0);
    let e0 = cx.evals;
    for _ in 0..cx.n(4000) {
        if cx.full() {
            break;
        }
        let m = gen_sub(&mut cx.rng, 0, 3);
        let text = m.print(&mut cx.rng);
        let subs = gen_subs(&mut cx.rng);
        let raw = sub_bytes(&subs);
        let refs: Vec<SubfieldRef> = raw.iter().map(|b| SubfieldRef::from_bytes(b).unwrap()).collect();
        let o = gen_opt(&mut cx.rng);
        let want = m.eval(&subs, &o);
        let got = guard(|| -> Result<(bool, bool), String> {
            let a = SubfieldMatcher::new(&text).map_err(|e| e.to_string())?;
            let b = SubfieldMatcher::new(&a.to_string()).map_err(|e| format!("printed form rejected: {a}: {e}"))?;
            Ok((a.is_match(&refs, &opts(&o)), b.is_match(&refs, &opts(&o))))
        });
        cx.case(&text, matches!(m, SubM::Bin(..) | SubM::Not(..) | SubM::Group(..)));
        if got != Ok(Ok((want, want))) {
            cx.violate("subfield expression meaning", json!({"matcher": text, "subfields": show(&raw.concat()), "case_ignore": o.ci}), json!(want), json!(format!("{got:?}")));
        }
    }
    cx.part("random subfield expressions", e0);
    // malformed texts are rejected (and never panic)
    let e0 = cx.evals;
    for _ in 0..cx.n(3000) {
        if cx.full() {
            break;
        }
        let m = gen_fldm(&mut cx.rng, 0, 2);
        let mut t: Vec<char> = m.print(&mut cx.rng).chars().collect();
        for _ in 0..1 + cx.rng.below(3) {
            let i = cx.rng.below(t.len() + 1);
            match cx.rng.below(3) {
                0 => t.insert(i, *cx.rng.pick(&['(', ')', '&', '|', '!', '\'', '{', '}', '?', '=', 'a', '.', ' ', '#', '\u{fc}'])),
                1 if i < t.len() => {
                    t.remove(i);
                }
                _ => t.truncate(i),
            }
        }
        let t: String = t.into_iter().collect();
        let got = guard(|| RecordMatcher::new(&t).is_ok());
        cx.case(&t, true);
        let bad = t.chars().filter(|c| *c == '(').count() != t.chars().filter(|c| *c == ')').count() && !t.contains(['\'', '"']);
        if got.is_err() || (bad && got == Ok(true)) {
            cx.violate("malformed expression", json!({"matcher": t}), json!(if bad { "rejected" } else { "no panic" }), json!(format!("{got:?}")));
        }
    }
    for t in ["", " ", "012A.a", "012A", "012A.a? &&", "&& 012A.a?", "012A.a? || ", "!", "()", "012A{}", "012A.a == ", "012A.a == 'x", "#012A", "#012A >", "012A.a in []", "012A.a in 'a'", "013A.a?? ", "312A?", "012a?", "012A/0?", "012A/01-01?", "012A/03-01?", "012A/1-2?", "012A.[b-a]?", "012A.a =~ '('", "012A.a >= 'x'", "#012A =^ 3", "012A.a == 'x' 'y'", "012A.a? 012A.b?"] {
        let got = guard(|| RecordMatcher::new(t).is_ok());
        cx.case(t, true);
        if got != Ok(false) {
            cx.violate("malformed expression", json!({"matcher": t}), json!("rejected"), json!(format!("{got:?}")));
        }
    }
    cx.part("malformed expressions", e0);
    // long chains of negations: accepted or rejected, but answered
    let e0 = cx.evals;
    for i in 0..5 {
        for (n, want) in [(10usize, Some(true)), (200, Some(true)), (5_000, None), (100_000, None)] {
            let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["--nest", &i.to_string(), &n.to_string()]).output().unwrap();
            let got = String::from_utf8_lossy(&o.stdout).trim().to_string();
            cx.case(&format!("negations {i} {n}"), true);
            if !o.status.success() || (got != "true" && got != "false") || want.is_some_and(|w| got != w.to_string()) {
                cx.violate("nested negations", json!({"form": i, "negations": n}), json!(want), json!(format!("{:?} {got}", o.status)));
            }
        }
    }
    cx.part("nested negations", e0);
    history(cx);
}

/// acceptance of an expression is a function of its text alone
/// is a text with `n` negations accepted?
pub fn nested(form: usize, n: usize) -> bool {
    let b = "!".repeat(n);
    let w = "! ".repeat(n);
    match form {
        0 => RecordMatcher::new(&format!("{b}012A?")).is_ok(),
        1 => RecordMatcher::new(&format!("012A{{{b}a?}}")).is_ok(),
        2 => RecordMatcher::new(&format!("{w}(012A.a == 'x')")).is_ok(),
        3 => SubfieldMatcher::new(&format!("{b}(a == 'x')")).is_ok(),
        _ => SubfieldMatcher::new(&format!("a? || {w}b?")).is_ok(),
    }
}

fn history(cx: &mut Cx) {
    let e0 = cx.evals;
    let n = cx.n(400);
    let good = ["(012A.a?)", "012A{ (a? || b?) && (a? || !(b?)) }", "((012A.a? || 013A.a?) && (028A?))", "!(012A{(a == 'x')})"];
    let bads: [(&str, fn(&str) -> bool); 3] = [
        ("RecordMatcher", |t| RecordMatcher::new(t).is_ok()),
        ("SubfieldMatcher", |t| SubfieldMatcher::new(t).is_ok()),
        ("Format", |t| Format::new(t).is_ok()),
    ];
    let badtext = ["(012A.a?", "((012A.a? || 013A.b)", "(a == 'x' || b", "((a?) && (b? ", "012A{(a <$> b", "012A{((a) <*> (b <$> }", "012A{(a == 'x' || (b?)", "(#012A > )"];
    let goodsub = ["(a?)", "(a? || b?) && (b? || !(a?))", "((a == 'x'))"];
    let goodfmt = ["012A{(a <$> b)}", "012A{(a) <*> (b) <*> ((a <$> b) <$> a)}", "012A{(a) | (b?)}"];
    let handle = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut out: Vec<(String, String, usize)> = vec![];
        let mut evals = 0u64;
        let check = |step: usize, what: &str, out: &mut Vec<(String, String, usize)>, evals: &mut u64| {
            for g in good {
                *evals += 1;
                if guard(|| RecordMatcher::new(g).is_ok()) != Ok(true) {
                    out.push((format!("RecordMatcher {g}"), what.into(), step));
                }
            }
            for g in goodsub {
                *evals += 1;
                if guard(|| SubfieldMatcher::new(g).is_ok()) != Ok(true) {
                    out.push((format!("SubfieldMatcher {g}"), what.into(), step));
                }
            }
            for g in goodfmt {
                *evals += 1;
                if guard(|| Format::new(g).is_ok()) != Ok(true) {
                    out.push((format!("Format {g}"), what.into(), step));
                }
            }
        };
        for i in 0..n {
            let b = badtext[i % badtext.len()];
            for (_, f) in &bads {
                evals += 1;
                let _ = guard(|| f(b));
            }
            check(i, "after rejected expressions", &mut out, &mut evals);
            if !out.is_empty() {
                break;
            }
        }
        // many sibling groups in one expression
        for k in [1usize, 8, 40, 120, 300] {
            let t = format!("012A{{ {} }}", vec!["(a?)"; k].join(" || "));
            evals += 1;
            if guard(|| RecordMatcher::new(&t).is_ok()) != Ok(true) {
                out.push((format!("RecordMatcher 012A{{ (a?) || ... }} with {k} groups"), "single parse".into(), k));
            }
            let t = vec!["(012A.a?)"; k].join(" || ");
            evals += 1;
            if guard(|| RecordMatcher::new(&t).is_ok()) != Ok(true) {
                out.push((format!("RecordMatcher (012A.a?) || ... with {k} groups"), "single parse".into(), k));
            }
            let t = format!("012A{{ {} }}", vec!["(a <$> b)"; k.max(2)].join(" <*> "));
            evals += 1;
            if guard(|| Format::new(&t).is_ok()) != Ok(true) {
                out.push((format!("Format 012A{{ (a <$> b) <*> ... }} with {k} groups"), "single parse".into(), k));
            }
        }
        (out, evals)
    });
    let (out, evals) = handle.unwrap().join().unwrap();
    cx.evals += evals;
    for (a, b, c) in out {
        cx.violate("acceptance depends on earlier parses", json!({"expression": a, "situation": b, "step": c}), json!("accepted"), json!("rejected"));
    }
    cx.case("history of rejected parses then valid ones", true);
    cx.part("history independence", e0);
}

// ---------------------------------------------------------------- C12

pub fn c12(cx: &mut Cx) {
    cx.rng.1 = true;
    use pica_record::ByteRecord;
    cx.rule("keep/discard with random predicate lists on random records against list filtering; the serialised result, the remaining fields and the digest must agree; non-trivial = the list keeps some and removes some fields");
    let e0 = cx.evals;
    for _ in 0..cx.n(20000) {
        if cx.full() {
            break;
        }
        let rec = gen_rec(&mut cx.rng);
        let raw = ser(&rec);
        let np = cx.rng.below(4);
        let np = cx.rng.large(12).unwrap_or(np);
        let preds: Vec<(TagM, OccM)> = (0..np).map(|_| (gen_tag(&mut cx.rng), gen_occ(&mut cx.rng))).collect();
        let ptx: Vec<String> = preds.iter().map(|(t, o)| format!("{}{}", t.print(), o.print())).collect();
        let hit = |f: &Fld| preds.iter().any(|(t, o)| t.hit(&f.tag) && o.hit(f.occ.as_deref()));
        let keep = cx.rng.chance(50);
        let want: Rec = if np == 0 { rec.clone() } else { rec.iter().filter(|f| hit(f) == keep).cloned().collect() };
        let nt = !want.is_empty() && want.len() < rec.len();
        let got = guard(|| {
            let real: Vec<(TagMatcher, OccurrenceMatcher)> =
                preds.iter().map(|(t, o)| (TagMatcher::new(&t.print()).unwrap(), OccurrenceMatcher::new(&o.print()).unwrap())).collect();
            let mut r = ByteRecord::from_bytes(&raw).unwrap();
            if keep {
                r.keep(&real)
            } else {
                r.discard(&real)
            }
            let mut out = vec![];
            r.write_to(&mut out).unwrap();
            let flds: Vec<Vec<u8>> = r
                .fields()
                .iter()
                .map(|f: &FieldRef| {
                    let mut b = vec![];
                    f.write_to(&mut b).unwrap();
                    b
                })
                .collect();
            (out, flds.concat(), r.sha256())
        });
        cx.case(&format!("{} {:?} {}", if keep { "keep" } else { "discard" }, ptx, show(&raw)), nt);
        let wb = ser(&want);
        let wf: Vec<u8> = want.iter().flat_map(ser_field).collect();
        use sha2::Digest;
        let ws = sha2::Sha256::digest(&wb).to_vec();
        if got != Ok((wb.clone(), wf, ws)) {
            cx.violate(
                if keep { "keep" } else { "discard" },
                json!({"predicates": ptx, "record": show(&raw)}),
                json!(show(&wb)),
                json!(match got {
                    Ok((a, b, _)) => format!("written {} fields {}", show(&a), show(&b)),
                    Err(e) => e,
                }),
            );
        }
    }
    cx.part("keep / discard", e0);
    crate::cli::c12_cli(cx);
}
