verus! {
//@type crates/pica-cli/src/utils.rs FilterSet
//@type crates/pica-cli/src/utils.rs FilterSetBuilder
impl FilterSet {
//@fn crates/pica-cli/src/utils.rs FilterSet::check => check
}
impl FilterSetBuilder {
    pub open spec fn x_default() -> FilterSetBuilder { FilterSetBuilder { column: None, path: None, allow: Seq::empty(), deny: Seq::empty() } }
//@fn crates/pica-cli/src/utils.rs FilterSetBuilder::new => new
//@fn crates/pica-cli/src/utils.rs FilterSetBuilder::column => column ret=FilterSetBuilder
//@fn crates/pica-cli/src/utils.rs FilterSetBuilder::source => source
//@fn crates/pica-cli/src/utils.rs FilterSetBuilder::allow => allow
//@fn crates/pica-cli/src/utils.rs FilterSetBuilder::deny => deny
//@fn crates/pica-cli/src/utils.rs FilterSetBuilder::build => build
}
}
verus! {
impl FilterSet {
    /// the allow- and deny-list rule
    pub open spec fn allows(self, r: ByteRecord) -> bool {
        (match self.allow { Some(a) => shares(r.path(self.path, self.options), a), None => true })
            && (match self.deny { Some(d) => !shares(r.path(self.path, self.options), d), None => true })
    }
}
pub proof fn ob_filter_set(fs: FilterSet, r: ByteRecord)
    ensures fs.check(r) == fs.allows(r)
{
    let vals = r.path(fs.path, fs.options);
    if let Some(a) = fs.allow { lem_shares(vals, a); assert(vals.x_any(|v: Seq<u8>| a.x_contains(v)) == shares(vals, a)); if a == Set::<Seq<u8>>::empty() { assert(!shares(vals, a)); } }
    if let Some(d) = fs.deny { lem_shares(vals, d); assert(vals.x_any(|v: Seq<u8>| d.x_contains(v)) == shares(vals, d)); }
}
proof fn lem_shares(vals: Seq<Seq<u8>>, s: Set<Seq<u8>>)
    ensures vals.x_any(|v: Seq<u8>| s.x_contains(v)) == shares(vals, s)
{
    let f = |v: Seq<u8>| s.x_contains(v);
    if shares(vals, s) { let i = choose|i: int| 0 <= i < vals.len() && s.contains(#[trigger] vals[i]); assert(f(vals[i])); assert(vals.x_any(f)); }
    if vals.x_any(f) { let i = choose|i: int| 0 <= i < vals.len() && f(#[trigger] vals[i]); assert(s.contains(vals[i])); }
}
/// one of the values is in the list
pub open spec fn shares(vals: Seq<Seq<u8>>, s: Set<Seq<u8>>) -> bool { exists|i: int| 0 <= i < vals.len() && s.contains(#[trigger] vals[i]) }
/// the filter lists of a command line
pub open spec fn list_spec(source: Option<PicaPath>, column: Option<Seq<u8>>, allow: Seq<Seq<u8>>, deny: Seq<Seq<u8>>) -> Result<FilterSet, XErr> {
    match (read_filter_list(allow, column), read_filter_list(deny, column)) {
        (Ok(allow), Ok(deny)) => Ok(FilterSet { allow, deny, path: match source { Some(p) => p, None => PicaPath::new(seq![48u8, 48u8, 51u8, 64u8, 46u8, 48u8])->Ok_0 }, options: MatcherOptions::x_default() }),
        _ => Err(x_err()),
    }
}
pub proof fn ob_filter_lists(source: Option<PicaPath>, column: Option<Seq<u8>>, allow: Seq<Seq<u8>>, deny: Seq<Seq<u8>>)
    ensures FilterSetBuilder::new().source(source).column(column).allow(allow).deny(deny).build() == list_spec(source, column, allow, deny)
{
    assert(allow.x_map(|p: Seq<u8>| p) =~= allow);
    assert(deny.x_map(|p: Seq<u8>| p) =~= deny);
}
}
