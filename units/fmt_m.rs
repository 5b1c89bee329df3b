//@tymap RangeTo<usize> = XRangeTo
//@tymap RangeTo = XRangeTo
//@nomut trim lowercase uppercase remove_ws strip_overread_char
//@tymap Self::Value = Seq<u8>
//@tymap FormatExt = RecordRef
pub mod fmt {
use super::*;
use super::subfield::SubfieldMatcher;
verus! {
broadcast use group_x;
pub struct XRangeTo { pub end: int }
impl XRangeTo { pub open spec fn x_contains(self, i: int) -> bool { i < self.end } }
//@type src/fmt/mod.rs Format
//@type src/fmt/mod.rs FormatOptions
//@type src/fmt/mod.rs Fragments
//@type src/fmt/mod.rs Group
//@type src/fmt/mod.rs Value
//@type src/fmt/mod.rs List
//@type src/fmt/mod.rs Modifier
/// the text without its first '@'
pub open spec fn without_at(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s } else if s[0] == 64 { s.subrange(1, s.len() as int) } else { seq![s[0]] + without_at(s.subrange(1, s.len() as int)) }
}
pub open spec fn without_spaces(s: Seq<u8>) -> Seq<u8> { s.filter(|c: u8| c != 32) }
impl Modifier {
    pub open spec fn modify(self, v: Seq<u8>) -> Seq<u8> {
        let v = if self.strip_overread_char { without_at(v) } else { v };
        let v = if self.trim { trim_ws(v) } else { v };
        let v = if self.remove_ws { without_spaces(v) } else { v };
        let v = if self.lowercase { lowercase(v) } else { v };
        if self.uppercase { uppercase(v) } else { v }
    }
}
pub open spec fn opt_text(t: Option<Seq<u8>>) -> Seq<u8> { match t { Some(t) => t, None => Seq::empty() } }
impl Value {
    /// one selected subfield: prefix, value, suffix
    pub open spec fn piece(self, s: SubfieldRef, o: FormatOptions) -> Seq<u8> {
        opt_text(self.prefix) + (if o.strip_overread_char { without_at(s.1) } else { s.1 }) + opt_text(self.suffix)
    }
    /// the first `n` subfields with a listed code, in order
    pub open spec fn pieces(self, ss: Seq<SubfieldRef>, n: int, o: FormatOptions) -> Seq<u8> decreases ss.len() {
        if ss.len() == 0 || n <= 0 { Seq::empty() }
        else if self.codes.contains(ss[0].0) { self.piece(ss[0], o) + self.pieces(ss.subrange(1, ss.len() as int), n - 1, o) }
        else { self.pieces(ss.subrange(1, ss.len() as int), n, o) }
    }
    pub open spec fn fmt_field(self, f: FieldRef, o: FormatOptions) -> Seq<u8> {
        self.modifier.modify(self.pieces(f.subfields, self.bounds.end, o))
    }
}
pub open spec fn parts(fs: Seq<Fragments>, f: FieldRef, o: FormatOptions) -> Seq<Seq<u8>> decreases fs {
    Seq::new(fs.len(), |i: int| if 0 <= i < fs.len() { fs[i].fmt_field(f, o) } else { Seq::empty() })
}
/// all parts
pub open spec fn concat(p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() {
    if p.len() == 0 { Seq::empty() } else { p[0] + concat(p.subrange(1, p.len() as int)) }
}
/// the parts before the first empty one
pub open spec fn concat_until_empty(p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() {
    if p.len() == 0 || p[0].len() == 0 { Seq::empty() } else { p[0] + concat_until_empty(p.subrange(1, p.len() as int)) }
}
impl Fragments {
    /// the parser never puts a group directly into a group
    pub open spec fn wf(self) -> bool decreases self {
        match self {
            Fragments::Value(_) => true,
            Fragments::List(List::AndThen(l)) => forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).wf(),
            Fragments::List(List::Cons(l)) => forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).wf(),
            Fragments::Group(g) => !(*g.fragments is Group) && g.fragments.wf(),
        }
    }
    pub open spec fn fmt_field(self, f: FieldRef, o: FormatOptions) -> Seq<u8> decreases self {
        match self {
            Fragments::Value(v) => v.fmt_field(f, o),
            Fragments::List(List::AndThen(l)) => concat_until_empty(parts(l, f, o)),
            Fragments::List(List::Cons(l)) => concat(parts(l, f, o)),
            Fragments::Group(g) => g.modifier.modify(g.fragments.fmt_field(f, o)),
        }
    }
}
impl Group { pub open spec fn fmt_field(self, f: FieldRef, o: FormatOptions) -> Seq<u8> { Fragments::Group(self).fmt_field(f, o) } }
impl List { pub open spec fn fmt_field(self, f: FieldRef, o: FormatOptions) -> Seq<u8> { Fragments::List(self).fmt_field(f, o) } }
pub open spec fn matcher_options(o: FormatOptions) -> MatcherOptions { MatcherOptions { strsim_threshold: o.strsim_threshold, case_ignore: o.case_ignore } }
impl Format {
    pub open spec fn addresses(self, f: FieldRef, o: FormatOptions) -> bool {
        self.tag_matcher.is_match(f.tag) && self.occurrence_matcher.is_match(f.occurrence)
            && (self.subfield_matcher is Some ==> self.subfield_matcher->0.is_match(f.subfields, matcher_options(o)))
    }
    pub open spec fn fmt_field(self, f: FieldRef, o: FormatOptions) -> Option<Seq<u8>> {
        let v = self.fragments.fmt_field(f, o);
        if v.len() == 0 { None } else { Some(v) }
    }
}
pub open spec fn format_values(m: Format, o: FormatOptions, fs: Seq<FieldRef>) -> Seq<Seq<u8>> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else {
        let r = format_values(m, o, fs.subrange(1, fs.len() as int));
        if m.addresses(fs[0], o) && m.fmt_field(fs[0], o) is Some { seq![m.fmt_field(fs[0], o)->0] + r } else { r }
    }
}
impl RecordRef {
    pub open spec fn format(self, m: Format, o: FormatOptions) -> Seq<Seq<u8>> { format_values(m, o, self.0) }
}
}
}
