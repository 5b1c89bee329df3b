//@tymap Path = PicaPath
//@tymap Self::Value = Seq<u8>
//@tymap PathExt = RecordRef
//@path Default::x_default = MatcherOptions::x_default
pub mod path {
use super::*;
use super::subfield::SubfieldMatcher;
verus! {
broadcast use group_x;
//@type src/path.rs Path PicaPath
/// the fields a path looks at
pub open spec fn path_field(p: PicaPath, o: MatcherOptions, f: FieldRef) -> bool {
    p.tag_matcher.is_match(f.tag) && p.occurrence_matcher.is_match(f.occurrence)
        && (p.subfield_matcher is Some ==> p.subfield_matcher->0.is_match(f.subfields, o))
}
/// the codes of a path: those of any of its lists
pub open spec fn path_code(p: PicaPath, c: char) -> bool {
    exists|i: int| 0 <= i < p.codes.len() && (#[trigger] p.codes[i]).contains(c)
}
/// the addressed values of one field, in order, with repetitions
pub open spec fn field_values(p: PicaPath, ss: Seq<SubfieldRef>) -> Seq<Seq<u8>> decreases ss.len() {
    if ss.len() == 0 { Seq::empty() } else {
        let r = field_values(p, ss.subrange(1, ss.len() as int));
        if path_code(p, ss[0].0) { seq![ss[0].1] + r } else { r }
    }
}
pub open spec fn path_values(p: PicaPath, o: MatcherOptions, fs: Seq<FieldRef>) -> Seq<Seq<u8>> decreases fs.len() {
    if fs.len() == 0 { Seq::empty() } else {
        let r = path_values(p, o, fs.subrange(1, fs.len() as int));
        if path_field(p, o, fs[0]) { field_values(p, fs[0].subfields) + r } else { r }
    }
}
impl RecordRef {
    pub open spec fn path(self, p: PicaPath, o: MatcherOptions) -> Seq<Seq<u8>> { path_values(p, o, self.0) }
    pub open spec fn first(self, p: PicaPath, o: MatcherOptions) -> Option<Seq<u8>> { self.path(p, o).x_first() }
}
}
}
