//@include cli_sel.rs
//@nomut check append matcher
//@ret FilterSet::try_from = Result<FilterSet, XErr>
//@ret MatcherOptions::from = MatcherOptions
verus! {
//@type crates/pica-cli/src/cli.rs FilterOpts
impl FilterOpts {
//@fn crates/pica-cli/src/cli.rs FilterOpts::matcher => matcher
}
impl MatcherOptions {
//@fn crates/pica-cli/src/cli.rs From<&FilterOpts> for MatcherOptions::from => x_from
}
impl FilterSet {
//@fn crates/pica-cli/src/utils.rs TryFrom<&FilterOpts> for FilterSet::try_from => try_from ret=Result<FilterSet,~XErr>
}
}
verus! {
impl FilterOpts {
    /// the selection's matcher: --where combined with --and, --or and --not
    pub open spec fn matcher_spec(self, nf: Option<NormForm>) -> Result<Option<RecordMatcher>, XErr> {
        match self.where_v { None => Ok(None), Some(e) => match RecordMatcherBuilder::with_transform(e, translit(nf)) {
            Err(_) => Err(x_err()), Ok(b) => match b.and(self.and) { Err(_) => Err(x_err()), Ok(b) => match b.or(self.or) { Err(_) => Err(x_err()), Ok(b) =>
                match b.not(self.not) { Err(_) => Err(x_err()), Ok(b) => Ok(Some(b.build())) } } } } }
    }
    pub open spec fn opts(self) -> MatcherOptions {
        MatcherOptions { strsim: f64_div(x_to_f64(self.strsim_threshold as int), x_f64_lit(seq![49u8, 48u8, 48u8, 46u8, 48u8])), ignore: self.ignore_case }
    }
    pub open spec fn lists(self) -> Result<FilterSet, XErr> { list_spec(self.filter_set_source, self.filter_set_column, self.allow, self.deny) }
}
pub proof fn ob_opts_matcher(fo: FilterOpts, nf: Option<NormForm>)
    ensures fo.matcher(nf, None) == fo.matcher_spec(nf)
{ }
pub proof fn ob_opts_options(fo: FilterOpts)
    ensures MatcherOptions::x_from(fo) == fo.opts()
{ }
pub proof fn ob_opts_lists(fo: FilterOpts)
    ensures FilterSet::try_from(fo) == fo.lists()
{ ob_filter_lists(fo.filter_set_source, fo.filter_set_column, fo.allow, fo.deny); }
pub open spec fn wanted(fs: FilterSet, m: Option<RecordMatcher>, o: MatcherOptions, r: ByteRecord) -> bool {
    fs.allows(r) && (match m { Some(m) => m.is_match(r, o), None => true })
}
/// the selected records
pub open spec fn selects(fs: FilterSet, m: Option<RecordMatcher>, o: MatcherOptions) -> EmitFn<ByteRecord> {
    |x: Option<Item>| match x { Some(Ok(r)) => if wanted(fs, m, o, r) { Some(r) } else { None }, _ => None }
}
}
