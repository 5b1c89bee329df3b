//@include cli_w.rs
//@include cli_opts.rs
//@include cli_sink.rs
//@include cli_csv.rs
//@include cli_query.rs
//@path civil::DateTime::strptime = strptime
//@ret strptime = Result<int, XErr>
//@ret ByteRecord::validate = Result<(), XErr>
//@static crates/pica-cli/src/commands/check/checks/iso639.rs CODES = iso_codes()
//@static crates/pica-cli/src/commands/check/checks/jelc.rs CODES = jel_codes()
//@known validate
//@static crates/pica-cli/src/commands/check/checks/unicode.rs is_nfc = fn_nfc()
//@static crates/pica-cli/src/commands/check/checks/unicode.rs is_nfkc = fn_nfkc()
//@static crates/pica-cli/src/commands/check/checks/unicode.rs is_nfd = fn_nfd()
//@static crates/pica-cli/src/commands/check/checks/unicode.rs is_nfkd = fn_nfkd()
//@tymap Box<allow::Allow> = Allow
//@tymap Box<datetime::DateTime> = DateTime
//@tymap Box<duplicates::Duplicates> = Duplicates
//@tymap Box<filter::Filter> = Filter
//@tymap Box<isni::Isni> = Isni
//@tymap Box<iso639::Iso639> = Iso639
//@tymap Box<jelc::Jel> = Jel
//@tymap Box<link::Link> = Link
//@tymap Box<unicode::Unicode> = Unicode
//@tymap Writer = Reports
//@tymap Record = Report
//@mut finish self
//@mut check_mut self
//@mut check_each self 1
//@mut finish_each self 0
//@path Default::x_default = MatcherOptions::x_default
//@ret finish = Seq<(Seq<u8>, Option<Seq<u8>>)>
verus! {
/// `BStr::to_str` of a value that is UTF-8, `[u8]::strip_prefix`
pub trait XText: Sized {
    spec fn to_str(self) -> Option<Seq<u8>>;
    spec fn strip_prefix(self, p: Seq<u8>) -> Option<Seq<u8>>;
}
pub uninterp spec fn utf8_ok(b: Seq<u8>) -> bool;
impl XText for Seq<u8> {
    open spec fn to_str(self) -> Option<Seq<u8>> { if utf8_ok(self) { Some(self) } else { None } }
    open spec fn strip_prefix(self, p: Seq<u8>) -> Option<Seq<u8>> { if p.is_prefix_of(self) { Some(self.subrange(p.len() as int, self.len() as int)) } else { None } }
}
/// `[String]::join`
pub trait XJoin: Sized { spec fn join(self, sep: Seq<u8>) -> Seq<u8>; }
impl XJoin for Seq<Seq<u8>> { open spec fn join(self, sep: Seq<u8>) -> Seq<u8> { joined(self, sep) } }
pub open spec fn joined(s: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() }
}
impl RecordRef {
    /// contract proved in m_record.rs
    pub open spec fn validate(self) -> Result<(), XErr> { if utf8_values(self) { Ok(()) } else { Err(x_err()) } }
}
/// all values are UTF-8
pub open spec fn utf8_values(r: RecordRef) -> bool {
    forall|i: int, j: int| 0 <= i < r.fields().len() && 0 <= j < r.fields()[i].subfields().len() ==> utf8_ok(#[trigger] r.fields()[i].subfields()[j].value())
}
/// the built-in code lists
pub uninterp spec fn iso_codes() -> Set<Seq<u8>>;
pub uninterp spec fn jel_codes() -> Set<Seq<u8>>;
/// whether a text is in a normal form
pub uninterp spec fn is_nfc(t: Seq<u8>) -> bool;
pub open spec fn fn_nfc() -> spec_fn(Seq<u8>) -> bool { |t: Seq<u8>| is_nfc(t) }
pub uninterp spec fn is_nfkc(t: Seq<u8>) -> bool;
pub open spec fn fn_nfkc() -> spec_fn(Seq<u8>) -> bool { |t: Seq<u8>| is_nfkc(t) }
pub uninterp spec fn is_nfd(t: Seq<u8>) -> bool;
pub open spec fn fn_nfd() -> spec_fn(Seq<u8>) -> bool { |t: Seq<u8>| is_nfd(t) }
pub uninterp spec fn is_nfkd(t: Seq<u8>) -> bool;
pub open spec fn fn_nfkd() -> spec_fn(Seq<u8>) -> bool { |t: Seq<u8>| is_nfkd(t) }
pub uninterp spec fn strptime(f: Seq<u8>, v: Seq<u8>) -> Result<int, XErr>;
//@type crates/pica-cli/src/commands/check/checks/filter.rs Filter
//@type crates/pica-cli/src/commands/check/checks/allow.rs List
//@type crates/pica-cli/src/commands/check/checks/allow.rs Allow
//@type crates/pica-cli/src/commands/check/checks/datetime.rs DateTime
//@type crates/pica-cli/src/commands/check/checks/duplicates.rs Duplicates
//@type crates/pica-cli/src/commands/check/checks/isni.rs Isni
//@type crates/pica-cli/src/commands/check/checks/iso639.rs Iso639
//@type crates/pica-cli/src/commands/check/checks/jelc.rs Jel
//@type crates/pica-cli/src/commands/check/checks/unicode.rs Unicode
//@type crates/pica-cli/src/commands/check/checks/link.rs Source
//@type crates/pica-cli/src/commands/check/checks/link.rs Target
//@type crates/pica-cli/src/commands/check/checks/link.rs Link
impl Filter {
//@fn crates/pica-cli/src/commands/check/checks/filter.rs Filter::check => check
}
impl Allow {
//@fn crates/pica-cli/src/commands/check/checks/allow.rs Allow::check => check
}
impl DateTime {
//@fn crates/pica-cli/src/commands/check/checks/datetime.rs DateTime::check => check
}
impl Duplicates {
//@fn crates/pica-cli/src/commands/check/checks/duplicates.rs Duplicates::check => check
}
impl Isni {
//@fn crates/pica-cli/src/commands/check/checks/isni.rs Isni::check => check
}
impl Iso639 {
//@fn crates/pica-cli/src/commands/check/checks/iso639.rs Iso639::check => check
}
impl Jel {
//@fn crates/pica-cli/src/commands/check/checks/jelc.rs Jel::check => check
}
impl Unicode {
//@fn crates/pica-cli/src/commands/check/checks/unicode.rs Unicode::check => check
}
impl Link {
//@fn crates/pica-cli/src/commands/check/checks/link.rs Link::preprocess => preprocess
//@fn crates/pica-cli/src/commands/check/checks/link.rs Link::check => x_check_mut
//@fn crates/pica-cli/src/commands/check/checks/link.rs Link::finish => finish
}
/// the report: its rows, in order (write errors and the text form are not modelled)
pub struct Report { pub ppn: Option<Seq<u8>>, pub rule: Seq<u8>, pub level: Level, pub message: Option<Seq<u8>> }
pub struct Reports { pub rows: Seq<Report>, pub done: bool }
impl Reports {
    pub open spec fn write_record(self, r: Report) -> (Result<(), XErr>, Reports) { (Ok(()), Reports { rows: self.rows.push(r), ..self }) }
    pub open spec fn with(self, s: Seq<Report>) -> Reports { Reports { rows: self.rows + s, ..self } }
    pub open spec fn finish(self) -> (Result<(), XErr>, Reports) { (Ok(()), Reports { done: true, ..self }) }
}
//@type crates/pica-cli/src/commands/check/rule.rs Level
//@type crates/pica-cli/src/commands/check/checks/mod.rs Checks
//@type crates/pica-cli/src/commands/check/rule.rs Rule
impl Rule {
//@fn crates/pica-cli/src/commands/check/rule.rs Rule::preprocess => preprocess
//@fn crates/pica-cli/src/commands/check/rule.rs Rule::check => x_check_each
//@fn crates/pica-cli/src/commands/check/rule.rs Rule::finish => x_finish_each
}
//@type crates/pica-cli/src/commands/check/set.rs Termination
//@type crates/pica-cli/src/commands/check/set.rs RuleSet
impl RuleSet {
//@fn crates/pica-cli/src/commands/check/set.rs RuleSet::preprocess => preprocess
//@fn crates/pica-cli/src/commands/check/set.rs RuleSet::check => x_check_set
//@fn crates/pica-cli/src/commands/check/set.rs RuleSet::finish => x_finish_set
}
//@helpers
}
verus! {
pub type Outcome = (bool, Option<Seq<u8>>);
pub open spec fn comma() -> Seq<u8> { seq![44u8, 32u8] }
pub open spec fn semi() -> Seq<u8> { seq![59u8, 32u8] }
/// what is reported about a record with these bad values
pub open spec fn report(bad: Seq<Seq<u8>>) -> Outcome { if bad.len() == 0 { (false, None) } else { (true, Some(joined(bad, comma()))) } }
pub type Bad = spec_fn(Seq<u8>) -> bool;
pub open spec fn the_bad(bad: Bad) -> bool { true }
/// the bad ones of the values, in order
pub open spec fn picks(s: Seq<Seq<u8>>, bad: Bad) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if bad(s.last()) { picks(s.drop_last(), bad).push(s.last()) } else { picks(s.drop_last(), bad) }
}
pub open spec fn opts(t: XF64, ci: bool) -> MatcherOptions { MatcherOptions { strsim: t, ignore: ci } }
pub broadcast proof fn lem_filter(s: Seq<Seq<u8>>, f: Bad, bad: Bad)
    requires forall|v: Seq<u8>| #[trigger] f(v) == bad(v)
    ensures #![trigger s.filter(f), the_bad(bad)] s.filter(f) == picks(s, bad)
    decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { lem_filter(s.drop_last(), f, bad); } }
pub broadcast proof fn lem_id(s: Seq<Seq<u8>>, f: spec_fn(Seq<u8>) -> Seq<u8>)
    requires forall|v: Seq<u8>| #[trigger] f(v) == v
    ensures #[trigger] s.map_values(f) == s
{ assert(s.map_values(f) =~= s); }
pub type Found = (Seq<Seq<u8>>, bool);
pub open spec fn found(m: Found, s: Seq<Seq<u8>>, bad: Bad) -> Found { (m.0 + picks(s, bad), m.1 || picks(s, bad).len() > 0) }
pub broadcast proof fn lem_fold_bad(s: Seq<Seq<u8>>, m: Found, f: spec_fn(Found, Seq<u8>) -> Found, bad: Bad)
    requires forall|a: Found, v: Seq<u8>| #[trigger] f(a, v) == (if bad(v) { (a.0.push(v), true) } else { a })
    ensures #![trigger seq_fold(s, m, f), the_bad(bad)] seq_fold(s, m, f) == found(m, s, bad)
    decreases s.len()
{
    if s.len() > 0 { lem_fold_bad(s.drop_last(), m, f, bad); assert(m.0 + picks(s.drop_last(), bad).push(s.last()) =~= (m.0 + picks(s.drop_last(), bad)).push(s.last())); }
    else { assert(m.0 + picks(s, bad) =~= m.0); }
}
proof fn lem_front(s: Seq<Seq<u8>>, bad: Bad)
    requires s.len() > 0
    ensures picks(s, bad) == (if bad(s[0]) { seq![s[0]] } else { Seq::empty() }) + picks(s.subrange(1, s.len() as int), bad)
    decreases s.len()
{
    let t = s.subrange(1, s.len() as int);
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(picks(s.drop_last(), bad) =~= Seq::empty()); assert(t =~= Seq::empty()); assert(picks(s, bad) =~= (if bad(s[0]) { seq![s[0]] } else { Seq::empty() }) + picks(t, bad)); }
    else {
        lem_front(s.drop_last(), bad);
        assert(s.drop_last().subrange(1, s.len() - 1) =~= t.drop_last());
        assert(t.last() == s.last());
        assert(picks(s, bad) =~= (if bad(s[0]) { seq![s[0]] } else { Seq::empty() }) + picks(t, bad));
    }
}
pub broadcast proof fn lem_for_bad<R>(s: Seq<Seq<u8>>, m: Found, f: spec_fn(Found, Seq<u8>) -> Ctl<Found, R>, bad: Bad)
    requires forall|a: Found, v: Seq<u8>| #[trigger] f(a, v) == Ctl::<Found, R>::Next(if bad(v) { (a.0.push(v), true) } else { a })
    ensures #![trigger seq_for(s, m, f), the_bad(bad)] seq_for(s, m, f) == Ctl::<Found, R>::Next(found(m, s, bad))
    decreases s.len()
{
    if s.len() > 0 {
        let n = if bad(s[0]) { (m.0.push(s[0]), true) } else { m };
        assert(f(m, s[0]) == Ctl::<Found, R>::Next(n));
        lem_for_bad(s.subrange(1, s.len() as int), n, f, bad);
        lem_front(s, bad);
        assert(found(n, s.subrange(1, s.len() as int), bad).0 =~= found(m, s, bad).0);
    } else { assert(m.0 + picks(s, bad) =~= m.0); }
}
// ---- filter
pub proof fn ob_filter_check(c: Filter, r: ByteRecord)
    ensures c.check(r) == (c.matcher.is_match(r, opts(c.strsim_threshold, c.case_ignore)) != c.invert_match, None::<Seq<u8>>)
{ assert(MatcherOptions::new().strsim_threshold(c.strsim_threshold).case_ignore(c.case_ignore) == opts(c.strsim_threshold, c.case_ignore)); }
// ---- lists
pub open spec fn unlisted(l: Set<Seq<u8>>) -> Bad { |v: Seq<u8>| !l.contains(v) }
pub proof fn ob_allow_check(c: Allow, r: ByteRecord)
    ensures c.check(r) == report(picks(r.path(c.path, opts(c.strsim_threshold, c.case_ignore)), unlisted(c.values)))
{ broadcast use {lem_filter, lem_id}; assert(the_bad(unlisted(c.values))); assert(MatcherOptions::x_default().strsim_threshold(c.strsim_threshold).case_ignore(c.case_ignore) == opts(c.strsim_threshold, c.case_ignore)); }
pub proof fn ob_iso639_check(c: Iso639, r: ByteRecord)
    ensures c.check(r) == report(picks(r.path(c.path, opts(c.strsim_threshold, c.case_ignore)), unlisted(iso_codes())))
{ broadcast use {lem_filter, lem_id}; assert(the_bad(unlisted(iso_codes()))); assert(MatcherOptions::new().strsim_threshold(c.strsim_threshold).case_ignore(c.case_ignore) == opts(c.strsim_threshold, c.case_ignore)); }
pub proof fn ob_jelc_check(c: Jel, r: ByteRecord)
    ensures c.check(r) == report(picks(r.path(c.path, opts(c.strsim_threshold, c.case_ignore)), unlisted(jel_codes())))
{ broadcast use {lem_filter, lem_id}; assert(the_bad(unlisted(jel_codes()))); assert(MatcherOptions::new().strsim_threshold(c.strsim_threshold).case_ignore(c.case_ignore) == opts(c.strsim_threshold, c.case_ignore)); }
// ---- dates
pub open spec fn no_date(c: DateTime) -> Bad { |v: Seq<u8>| c.offset >= v.len() || strptime(c.format, v.subrange(c.offset, v.len() as int)) is Err }
pub proof fn ob_datetime_check(c: DateTime, r: ByteRecord)
    ensures c.check(r) == report(picks(r.path(c.path, opts(c.strsim_threshold, c.case_ignore)), no_date(c)))
{
    broadcast use lem_fold_bad;
    assert(the_bad(no_date(c)));
    assert(MatcherOptions::x_default().strsim_threshold(c.strsim_threshold).case_ignore(c.case_ignore) == opts(c.strsim_threshold, c.case_ignore));
    let p = picks(r.path(c.path, opts(c.strsim_threshold, c.case_ignore)), no_date(c));
    assert(Seq::<Seq<u8>>::empty() + p =~= p);
}
// ---- ISNI
/// the bytes of an ISNI: without spaces, hyphens and all else before '0'
pub open spec fn marks(v: Seq<u8>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.last() >= 48 { marks(v.drop_last()).push(v.last()) } else { marks(v.drop_last()) } }
pub open spec fn decimal(b: u8) -> bool { 48 <= b <= 57 }
/// the weighted sum of ISO 7064 MOD 11-2
pub open spec fn weighted(d: Seq<u8>) -> int decreases d.len() { if d.len() == 0 { 0 } else { 2 * (weighted(d.drop_last()) + (d.last() - 48)) } }
/// 15 digits and the check character, ISO 7064 MOD 11-2
pub open spec fn isni_ok(v: Seq<u8>) -> bool {
    let m = marks(v);
    &&& m.len() == 16
    &&& forall|i: int| 0 <= i < 15 ==> decimal(#[trigger] m[i])
    &&& decimal(m[15]) || m[15] == 88
    &&& (weighted(m.take(15)) + (if m[15] == 88 { 10 } else { m[15] - 48 })) % 11 == 1
}
pub open spec fn no_isni(prefix: Option<Seq<u8>>) -> Bad {
    |v: Seq<u8>| match prefix { Some(p) => p.is_prefix_of(v) && !isni_ok(v.subrange(p.len() as int, v.len() as int)), None => !isni_ok(v) }
}
pub open spec fn digit(b: u8) -> u8 { (b - 48) as u8 }
pub open spec fn digit_fn() -> spec_fn(u8) -> u8 { |b: u8| digit(b) }
pub open spec fn in_isni(c: Isni) -> bool { true }
pub broadcast proof fn lem_digits(v: Seq<u8>, f: spec_fn(u8) -> Option<u8>, c: Isni)
    requires forall|b: u8| #[trigger] f(b) == (if b >= 48 { Some(digit(b)) } else { None })
    ensures #![trigger v.x_filter_map(f), in_isni(c)] v.x_filter_map(f) == marks(v).map_values(digit_fn())
    decreases v.len()
{
    let t = v.map_values(f);
    if v.len() > 0 {
        lem_digits(v.drop_last(), f, c);
        assert(t.drop_last() =~= v.drop_last().map_values(f));
        assert(marks(v.drop_last()).push(v.last()).map_values(digit_fn()) =~= marks(v.drop_last()).map_values(digit_fn()).push(digit(v.last())));
    }
    assert(v.x_filter_map(f) =~= marks(v).map_values(digit_fn()));
}
pub broadcast proof fn lem_weighted(d: Seq<u8>, f: spec_fn(int, u8) -> int, c: Isni)
    requires forall|a: int, x: u8| #[trigger] f(a, x) == (a + x) * 2
    ensures #![trigger seq_fold(d, 0, f), in_isni(c)] seq_fold(d, 0, f) == total(d)
    decreases d.len()
{ if d.len() > 0 { lem_weighted(d.drop_last(), f, c); } }
pub open spec fn total(d: Seq<u8>) -> int decreases d.len() { if d.len() == 0 { 0 } else { (total(d.drop_last()) + d.last()) * 2 } }
proof fn lem_total(m: Seq<u8>)
    requires forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] >= 48
    ensures total(m.map_values(digit_fn())) == weighted(m), weighted(m) >= 0
    decreases m.len()
{
    if m.len() > 0 {
        assert forall|i: int| 0 <= i < m.drop_last().len() implies #[trigger] m.drop_last()[i] >= 48 by { assert(m[i] >= 48); }
        lem_total(m.drop_last());
        assert(m.map_values(digit_fn()).drop_last() =~= m.drop_last().map_values(digit_fn()));
        assert(m[m.len() - 1] >= 48);
    }
}
proof fn lem_marks(v: Seq<u8>)
    ensures forall|i: int| 0 <= i < marks(v).len() ==> #[trigger] marks(v)[i] >= 48
    decreases v.len()
{
    if v.len() > 0 {
        lem_marks(v.drop_last());
        let p = marks(v.drop_last());
        assert forall|i: int| 0 <= i < marks(v).len() implies #[trigger] marks(v)[i] >= 48 by { if i < p.len() { assert(p[i] >= 48); } }
    }
}
/// the code's comparison
pub open spec fn code_isni(v: Seq<u8>) -> bool {
    let d = marks(v).map_values(digit_fn());
    &&& d.len() == 16
    &&& forall|i: int| 0 <= i < 15 ==> d.subrange(0, 15)[i] <= 9
    &&& ({ let r = (12 - total(d.subrange(0, 15)) % 11) % 11; d[15] == if r == 10 { 40 } else { r } })
}
proof fn lem_mod(w: int, x: int)
    requires w >= 0, 0 <= x <= 10
    ensures ((w + x) % 11 == 1) == (x == (12 - w % 11) % 11)
{ }
proof fn lem_isni(v: Seq<u8>)
    ensures code_isni(v) == isni_ok(v)
{
    lem_marks(v);
    let m = marks(v);
    let d = m.map_values(digit_fn());
    if m.len() == 16 {
        let t = m.take(15);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] >= 48 by { assert(m[i] >= 48); }
        lem_total(t);
        assert(d.subrange(0, 15) =~= t.map_values(digit_fn()));
        assert(m[15] >= 48);
        assert(d[15] == m[15] - 48);
        assert forall|i: int| 0 <= i < 15 implies (d.subrange(0, 15)[i] <= 9) == decimal(#[trigger] m[i]) by { assert(m[i] >= 48); }
        let w = weighted(t);
        let r = (12 - w % 11) % 11;
        if code_isni(v) { assert forall|i: int| 0 <= i < 15 implies decimal(#[trigger] m[i]) by { assert(d.subrange(0, 15)[i] <= 9); } }
        if isni_ok(v) { assert forall|i: int| 0 <= i < 15 implies d.subrange(0, 15)[i] <= 9 by { assert(decimal(m[i])); } }
        if decimal(m[15]) || m[15] == 88 { lem_mod(w, if m[15] == 88 { 10 } else { m[15] - 48 }); }
    }
}
pub proof fn ob_isni_check(c: Isni, r: ByteRecord)
    ensures c.check(r) == report(picks(r.path(c.path, opts(c.strsim_threshold, c.case_ignore)), no_isni(c.prefix)))
{
    broadcast use {lem_for_bad, lem_digits, lem_weighted};
    assert(the_bad(no_isni(c.prefix)) && in_isni(c));
    assert forall|v: Seq<u8>| #[trigger] isni_ok(v) == code_isni(v) by { lem_isni(v); }
    assert(MatcherOptions::x_default().strsim_threshold(c.strsim_threshold).case_ignore(c.case_ignore) == opts(c.strsim_threshold, c.case_ignore));
    let p = picks(r.path(c.path, opts(c.strsim_threshold, c.case_ignore)), no_isni(c.prefix));
    assert(Seq::<Seq<u8>>::empty() + p =~= p);
}
// ---- normal forms
pub open spec fn not_normal(nf: NormForm) -> Bad { |v: Seq<u8>| !match nf { NormForm::Nfc => is_nfc(v), NormForm::Nfkc => is_nfkc(v), NormForm::Nfd => is_nfd(v), NormForm::Nfkd => is_nfkd(v) } }
pub open spec fn field_values(f: FieldRef) -> Seq<Seq<u8>> { f.subfields().map_values(|s: SubfieldRef| s.value()) }
/// all values of the fields, in order
pub open spec fn values(fs: Seq<FieldRef>) -> Seq<Seq<u8>> decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { values(fs.drop_last()) + field_values(fs.last()) } }
proof fn lem_picks_add(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, bad: Bad)
    ensures picks(a + b, bad) == picks(a, bad) + picks(b, bad)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(picks(a, bad) + picks(b, bad) =~= picks(a, bad)); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lem_picks_add(a, b.drop_last(), bad); assert(picks(a + b, bad) =~= picks(a, bad) + picks(b, bad)); }
}
pub broadcast proof fn lem_subs(s: Seq<SubfieldRef>, m: Found, f: spec_fn(Found, SubfieldRef) -> Found, bad: Bad)
    requires forall|a: Found, x: SubfieldRef| utf8_ok(x.value()) ==> #[trigger] f(a, x) == (if bad(x.value()) { (a.0.push(x.value()), true) } else { a }),
        forall|j: int| 0 <= j < s.len() ==> utf8_ok((#[trigger] s[j]).value())
    ensures #![trigger seq_fold(s, m, f), the_bad(bad)] seq_fold(s, m, f) == found(m, s.map_values(|x: SubfieldRef| x.value()), bad)
    decreases s.len()
{
    let vs = s.map_values(|x: SubfieldRef| x.value());
    if s.len() > 0 {
        assert forall|j: int| 0 <= j < s.drop_last().len() implies utf8_ok((#[trigger] s.drop_last()[j]).value()) by { assert(utf8_ok(s[j].value())); }
        lem_subs(s.drop_last(), m, f, bad);
        assert(vs.drop_last() =~= s.drop_last().map_values(|x: SubfieldRef| x.value()));
        assert(utf8_ok(s[s.len() - 1].value()));
        assert(m.0 + picks(vs.drop_last(), bad).push(vs.last()) =~= (m.0 + picks(vs.drop_last(), bad)).push(vs.last()));
    } else { assert(m.0 + picks(vs, bad) =~= m.0); }
}
pub open spec fn utf8_field(f: FieldRef) -> bool { forall|j: int| 0 <= j < f.subfields().len() ==> utf8_ok((#[trigger] f.subfields()[j]).value()) }
pub broadcast proof fn lem_fields(s: Seq<FieldRef>, m: Found, f: spec_fn(Found, FieldRef) -> Found, bad: Bad)
    requires forall|a: Found, x: FieldRef| utf8_field(x) ==> #[trigger] f(a, x) == found(a, field_values(x), bad),
        forall|j: int| 0 <= j < s.len() ==> utf8_field(#[trigger] s[j])
    ensures #![trigger seq_fold(s, m, f), the_bad(bad)] seq_fold(s, m, f) == found(m, values(s), bad)
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|j: int| 0 <= j < s.drop_last().len() implies utf8_field(#[trigger] s.drop_last()[j]) by { assert(utf8_field(s[j])); }
        lem_fields(s.drop_last(), m, f, bad);
        assert(utf8_field(s[s.len() - 1]));
        let a = values(s.drop_last());
        let b = field_values(s.last());
        lem_picks_add(a, b, bad);
        assert((m.0 + picks(a, bad)) + picks(b, bad) =~= m.0 + (picks(a, bad) + picks(b, bad)));
    } else { assert(m.0 + picks(values(s), bad) =~= m.0); }
}
pub proof fn ob_unicode_check(c: Unicode, r: ByteRecord)
    ensures c.check(r) == (if !utf8_values(r.record) { (true, None::<Seq<u8>>) } else { match c.normalization { None => (false, None), Some(nf) => report(picks(values(r.record.fields()), not_normal(nf))) } })
{
    broadcast use {lem_subs, lem_fields};
    if let Some(nf) = c.normalization {
        let bad = not_normal(nf);
        assert(the_bad(bad));
        let fs = r.record.fields();
        if utf8_values(r.record) {
            assert forall|j: int| 0 <= j < fs.len() implies utf8_field(#[trigger] fs[j]) by { assert forall|k: int| 0 <= k < fs[j].subfields().len() implies utf8_ok((#[trigger] fs[j].subfields()[k]).value()) by { } }
        }
        let p = picks(values(fs), bad);
        assert(Seq::<Seq<u8>>::empty() + p =~= p);
    }
}
// ---- duplicates
pub open spec fn blank(r: Row) -> bool { forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i].len() == 0 }
impl Duplicates {
    pub open spec fn rows(self, r: ByteRecord) -> Seq<Row> { r.query(self.query, QueryOptions { case_ignore: self.case_ignore, strsim_threshold: self.strsim_threshold, ..QueryOptions::x_default() }) }
    /// how often a text is a row that is not blank, its columns joined
    pub open spec fn occurs(self, rs: Seq<Row>, k: Seq<u8>) -> int decreases rs.len() {
        if rs.len() == 0 { 0 } else { (if !blank(rs[0]) && joined(rs[0], self.separator) == k { 1int } else { 0 }) + self.occurs(rs.subrange(1, rs.len() as int), k) }
    }
    pub open spec fn too_often(self, r: ByteRecord, k: Seq<u8>) -> bool { self.occurs(self.rows(r), k) >= 1 && self.occurs(self.rows(r), k) >= self.threshold }
    pub open spec fn next(self, m: Map<Seq<u8>, int>, r: Row) -> Map<Seq<u8>, int> { if blank(r) { m } else { map_put(m, joined(r, self.separator), map_or(m, joined(r, self.separator), 0) + 1) } }
    pub open spec fn tally(self, m: Map<Seq<u8>, int>, rs: Seq<Row>) -> Map<Seq<u8>, int> decreases rs.len() {
        if rs.len() == 0 { m } else { self.tally(self.next(m, rs[0]), rs.subrange(1, rs.len() as int)) }
    }
}
pub open spec fn in_dup(c: Duplicates) -> bool { true }
pub broadcast proof fn lem_dup_for<R>(c: Duplicates, rs: Seq<Row>, m: Map<Seq<u8>, int>, f: spec_fn(Map<Seq<u8>, int>, Row) -> Ctl<Map<Seq<u8>, int>, R>)
    requires forall|a: Map<Seq<u8>, int>, r: Row| #[trigger] f(a, r) == Ctl::<Map<Seq<u8>, int>, R>::Next(c.next(a, r))
    ensures #![trigger seq_for(rs, m, f), in_dup(c)] seq_for(rs, m, f) == Ctl::<Map<Seq<u8>, int>, R>::Next(c.tally(m, rs))
    decreases rs.len()
{ if rs.len() > 0 { assert(f(m, rs[0]) == Ctl::<Map<Seq<u8>, int>, R>::Next(c.next(m, rs[0]))); lem_dup_for(c, rs.subrange(1, rs.len() as int), c.next(m, rs[0]), f); } }
proof fn lem_tally(c: Duplicates, m: Map<Seq<u8>, int>, rs: Seq<Row>, k: Seq<u8>)
    requires forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> m[k] > 0
    ensures map_or(c.tally(m, rs), k, 0) == map_or(m, k, 0) + c.occurs(rs, k), c.tally(m, rs).contains_key(k) ==> c.tally(m, rs)[k] > 0, c.occurs(rs, k) >= 0
    decreases rs.len()
{ if rs.len() > 0 { lem_tally(c, c.next(m, rs[0]), rs.subrange(1, rs.len() as int), k); } }
pub open spec fn kept(c: Duplicates, r: ByteRecord) -> Map<Seq<u8>, int> { map_retain(c.tally(Map::empty(), c.rows(r)), |k: Seq<u8>, n: int| n >= c.threshold) }
pub broadcast proof fn lem_retain(m: Map<Seq<u8>, int>, f: spec_fn(Seq<u8>, int) -> bool, c: Duplicates)
    requires forall|k: Seq<u8>, n: int| #[trigger] f(k, n) == (n >= c.threshold)
    ensures #![trigger m.x_retain(f), in_dup(c)] m.x_retain(f) == map_retain(m, |k: Seq<u8>, n: int| n >= c.threshold)
{ assert(f =~= |k: Seq<u8>, n: int| n >= c.threshold); }
pub proof fn lem_kept(c: Duplicates, r: ByteRecord, k: Seq<u8>)
    ensures kept(c, r).contains_key(k) == c.too_often(r, k)
{ lem_tally(c, Map::empty(), c.rows(r), k); }
pub proof fn ob_duplicates_run(c: Duplicates, r: ByteRecord)
    ensures c.check(r) == (if kept(c, r).x_is_empty() { (false, None) } else { (true, Some(joined(kept(c, r).x_keys(), semi()))) })
{
    broadcast use {lem_dup_for, lem_retain, lem_id};
    assert(in_dup(c));
    assert(QueryOptions::new().strsim_threshold(c.strsim_threshold).case_ignore(c.case_ignore) == (QueryOptions { case_ignore: c.case_ignore, strsim_threshold: c.strsim_threshold, ..QueryOptions::x_default() }));
    assert forall|r: Row| #[trigger] blank(r) == r.x_all(|v: Seq<u8>| v.x_is_empty()) by { }
}
/// reported if and only if a row occurs too often
pub proof fn ob_duplicates_check(c: Duplicates, r: ByteRecord)
    ensures c.check(r).0 == exists|k: Seq<u8>| #[trigger] c.too_often(r, k), c.check(r).0 == (c.check(r).1 is Some)
{
    ob_duplicates_run(c, r);
    assert forall|k: Seq<u8>| #[trigger] kept(c, r).contains_key(k) == c.too_often(r, k) by { lem_kept(c, r, k); }
    if exists|k: Seq<u8>| #[trigger] c.too_often(r, k) { let k = choose|k: Seq<u8>| #[trigger] c.too_often(r, k); lem_kept(c, r, k); }
    if !kept(c, r).x_is_empty() { let k = choose|k: Seq<u8>| #[trigger] kept(c, r).contains_key(k); assert(c.too_often(r, k)); }
}
/// the message names each row that occurs too often, once
pub proof fn ob_duplicates_message(c: Duplicates, r: ByteRecord)
    requires forall|m: Map<Seq<u8>, int>| lists_entries(#[trigger] map_items(m), m)
    ensures c.check(r).0 ==> exists|t: Seq<Seq<u8>>| c.check(r).1 == Some(#[trigger] joined(t, semi())) && t.no_duplicates() && forall|k: Seq<u8>| #[trigger] t.contains(k) == c.too_often(r, k)
{
    ob_duplicates_run(c, r);
    if c.check(r).0 {
        let m = kept(c, r);
        let e = map_items(m);
        let t = m.x_keys();
        assert(lists_entries(e, m));
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < j { assert(e[i].0 != e[j].0); } else { assert(e[j].0 != e[i].0); } }
        assert forall|k: Seq<u8>| #[trigger] t.contains(k) == c.too_often(r, k) by {
            lem_kept(c, r, k);
            if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(m.contains_key(e[i].0)); }
            if m.contains_key(k) { let i = choose|i: int| 0 <= i < e.len() && #[trigger] e[i] == (k, m[k]); assert(t[i] == k); }
        }
        assert(c.check(r).1 == Some(joined(t, semi())));
    }
}
}
//@include check_link.rs
//@include check_rule.rs
//@include check_set.rs
