//@include model.rs
//@include tagocc_m.rs
//@include subfield_m.rs
//@include seqlem_m.rs
//@include path_m.rs
pub mod path_code {
use super::*;
use super::path::*;
use super::seqlem::*;
verus! {
broadcast use group_x;
/// parsing a path (contract of the path parser; decided for C08/C09 by the bounded part)
pub uninterp spec fn parsed_path(s: Seq<u8>) -> Result<PicaPath, XErr>;
impl PicaPath { pub open spec fn new(s: Seq<u8>) -> Result<PicaPath, XErr> { parsed_path(s) } }
impl RecordRef {
//@fn src/path.rs PathExt for RecordRef::path => code_path
//@fn src/path.rs PathExt::first => code_first
//@fn src/path.rs PathExt::ppn => code_ppn
}
//@helpers
spec fn sel(p: PicaPath) -> spec_fn(SubfieldRef) -> Option<Seq<u8>> { |s: SubfieldRef| if path_code(p, s.0) { Some(s.1) } else { None } }
proof fn lem_fields(p: PicaPath, ss: Seq<SubfieldRef>)
    ensures ss.x_filter_map(sel(p)) == field_values(p, ss)
    decreases ss.len()
{
    if ss.len() == 0 { assert(ss.map_values(sel(p)) =~= Seq::empty()); }
    else { lem_fm_cons(ss, sel(p)); lem_fields(p, rest(ss)); }
}
proof fn lem_values(p: PicaPath, o: MatcherOptions, fs: Seq<FieldRef>)
    ensures fs.x_filter(|f: FieldRef| path_field(p, o, f)).x_flat_map(|f: FieldRef| f.subfields).x_filter_map(sel(p)) == path_values(p, o, fs)
    decreases fs.len()
{
    let q = |f: FieldRef| path_field(p, o, f);
    let g = |f: FieldRef| f.subfields;
    if fs.len() == 0 {
        assert(fs.filter(q) =~= Seq::<FieldRef>::empty()) by { reveal(Seq::filter); }
        assert(Seq::<FieldRef>::empty().map_values(g) =~= Seq::empty());
        assert(Seq::<SubfieldRef>::empty().map_values(sel(p)) =~= Seq::empty());
    } else {
        lem_values(p, o, rest(fs));
        lem_filter_cons(fs, q);
        if q(fs[0]) {
            let r = rest(fs).filter(q);
            let w = seq![fs[0]] + r;
            assert(rest(w) =~= r);
            lem_fl_cons(w, g);
            lem_fm_add(fs[0].subfields, r.x_flat_map(g), sel(p));
            lem_fields(p, fs[0].subfields);
        }
    }
}
/// the values of a path, in record order
proof fn ob_path(r: RecordRef, p: PicaPath, o: MatcherOptions)
    ensures r.code_path(p, o) == r.path(p, o)
{
    lem_values(p, o, r.0);
    let q = |f: FieldRef| path_field(p, o, f);
    let g = |f: FieldRef| f.subfields;
    broadcast use group_sx;
    assert forall|c: char| path_code(p, c) == p.codes.x_any(|k: Seq<char>| k.x_contains(c)) by { }
    assert(r.code_path(p, o) == r.0.x_filter(q).x_flat_map(g).x_filter_map(sel(p)));
}
/// the first value of a path
proof fn ob_first(r: RecordRef, p: PicaPath, o: MatcherOptions)
    ensures r.code_first(p, o) == r.first(p, o) { }
/// the PPN is the first value of `003@.0`
proof fn ob_ppn(r: RecordRef)
    ensures r.code_ppn() == r.first(PicaPath::new(seq![48u8, 48, 51, 64, 46, 48])->Ok_0, MatcherOptions { strsim_threshold: x_f64_lit(seq![48u8, 46, 56]), case_ignore: false }) { }
}
}
