//! Functionalising translation: a Rust function body (syn AST) becomes the
//! body of a Verus `spec fn` over mathematical values.
use crate::db::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use syn::visit::{self, Visit};
use syn::{Expr, Pat, Stmt, Type};

#[derive(Default, Clone)]
pub struct Cfg {
    pub newtypes: BTreeMap<String, String>,
    pub std_methods: BTreeSet<String>,
    pub pathmap: Vec<(String, String)>,
    /// constants that are kept by name: file, name, expression
    pub statics: Vec<(String, String, String)>,
    pub known: BTreeSet<(Option<String>, String)>,
    pub tymap: BTreeMap<String, String>,
    /// error types that are kept (others are erased to XErr)
    pub errs: BTreeSet<String>,
    pub rets: BTreeMap<String, String>,
    /// mutually recursive parser functions (file, name): they get a bound on
    /// the recursion depth
    pub fuel: BTreeSet<(String, String)>,
    /// functions whose calls are dropped
    pub noop: BTreeSet<String>,
    pub pre: crate::pre::PreCfg,
}

#[derive(Default, Clone, Debug)]
pub struct Opts {
    pub free: bool,
    /// the item of an `impl Trait for`: no visibility
    pub intrait: bool,
    pub eqt: bool,
    pub parser: bool,
    pub ret: Option<String>,
    pub uses: Vec<String>,
    /// the variables that a successful run ends with, instead of the exit code
    pub out: Vec<String>,
    pub log: Option<String>,
    pub collect: Option<String>,
}

#[derive(Clone)]
pub enum K {
    Ret,
    Val,
    State { vars: Vec<String>, val: bool },
    /// like `State`, wrapped as `Ctl::Next`
    Join { vars: Vec<String>, val: bool },
    Loop,
    Bind { pat: Pat, rest: Rc<Vec<Stmt>>, k: Rc<K>, ty: Option<String> },
    Then { rest: Rc<Vec<Stmt>>, k: Rc<K> },
}

pub struct Tr<'a> {
    pub db: &'a Db,
    pub cfg: &'a Cfg,
    pub opts: Opts,
    /// what the parser being translated returns
    pub pret: Option<String>,
    pub file: String,
    pub impl_ty: Option<String>,
    pub variants: HashMap<String, String>,
    pub generics: HashMap<String, String>,
    pub fresh: usize,
    /// types of named sub-parsers
    pub ptys: HashMap<String, String>,
    pub errors: Vec<String>,
    /// called helper candidates: (Some(type)|None, name)
    pub calls: BTreeSet<(Option<String>, String)>,
    pub mut_params: Vec<String>,
    pub ret_unit: bool,
    pub ret_opt: bool,
    loops: Vec<(Vec<String>, bool)>, // vars, uses_ret
    /// label of each open loop; `None` for loops without
    labels: Vec<Option<String>>,
    pub tys: HashMap<String, String>,
    all_stmts: Vec<Stmt>,
    local_consts: HashSet<String>,
    newty_params: HashSet<String>,
    self_name: String,
}

pub const ERASED: &[&str] = &[
    "iter", "into_iter", "as_ref", "as_bytes", "as_slice", "to_owned",
    "to_vec", "clone", "cloned", "copied", "by_ref", "into", "as_str",
    "deref", "as_deref", "borrow", "as_mut", "to_bytes", "as_bstr",
    "into_boxed_slice", "map_err", "into_owned", "as_mut_slice", "iter_mut",
    "into_bytes", "flush", "into_inner",
];

pub const MUT_STD: &[(&str, bool)] = &[
    ("push", false), ("push_str", false), ("insert", true), ("remove", true),
    ("extend", false), ("extend_from_slice", false), ("clear", false),
    ("retain", false), ("sort", false), ("sort_unstable", false), ("sort_by", false),
    ("dedup", false), ("truncate", false), ("pop", true), ("append", false),
    ("write_all", false), ("reverse", false), ("next", true), ("swap", false),
    ("push_byte", false), ("update", false),
];

fn ident_of(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.path.segments.len() == 1 && p.qself.is_none() {
            return Some(p.path.segments[0].ident.to_string());
        }
    }
    None
}

pub fn clean(s: &str) -> String {
    let s = s.strip_prefix("r#").unwrap_or(s);
    match s {
        "where" | "spec" | "proof" | "exec" | "seq" | "map" | "set" | "int" | "nat"
        | "fn" | "decreases" | "requires" | "ensures" | "by" | "when"
        | "open" | "closed" | "tracked" | "ghost" | "invariant" | "choose"
        | "is" | "has" | "broadcast" | "via" | "recommends" => {
            format!("{s}_v")
        }
        _ => s.to_string(),
    }
}

/// the variable at the root of a place expression
fn place_root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(_) => ident_of(e),
        Expr::Field(f) => place_root(&f.base),
        Expr::Index(i) => place_root(&i.expr),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
            place_root(&u.expr)
        }
        Expr::Reference(r) => place_root(&r.expr),
        Expr::Paren(p) => place_root(&p.expr),
        _ => None,
    }
}

fn mac_name(m: &syn::Macro) -> String {
    m.path.segments.last().unwrap().ident.to_string()
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

struct Esc {
    found: bool,
    depth: usize,
}
impl<'ast> Visit<'ast> for Esc {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => {
                if let Expr::Try(t) = e {
                    // infallible writes do not escape
                    if is_write(&t.expr) {
                        visit::visit_expr(self, &t.expr);
                        return;
                    }
                }
                self.found = true
            }
            Expr::Break(_) | Expr::Continue(_) => {
                let labelled = matches!(e, Expr::Break(b) if b.label.is_some())
                    || matches!(e, Expr::Continue(b) if b.label.is_some());
                if self.depth == 0 || labelled {
                    self.found = true
                }
            }
            Expr::Closure(_) => {}
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                self.depth += 1;
                visit::visit_expr(self, e);
                self.depth -= 1;
            }
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if let Stmt::Local(l) = s {
            if let Some(i) = &l.init {
                if i.diverge.is_some() {
                    self.found = true;
                }
            }
        }
        visit::visit_stmt(self, s);
    }
}

fn is_write(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Macro(m) => {
            let n = mac_name(&m.mac);
            n == "write" || n == "writeln"
        }
        Expr::MethodCall(m) => {
            matches!(
                m.method.to_string().as_str(),
                "write_all" | "write_to" | "flush" | "write_byte_record" | "write_record" | "finish"
            )
        }
        _ => false,
    }
}

fn esc<T>(f: impl Fn(&mut Esc) -> T) -> bool {
    let mut v = Esc { found: false, depth: 0 };
    f(&mut v);
    v.found
}
fn has_escape(e: &Expr) -> bool {
    esc(|v| v.visit_expr(e))
}
pub fn block_escape(b: &syn::Block) -> bool {
    esc(|v| v.visit_block(b))
}

struct MutV<'a> {
    db: &'a Db,
    out: BTreeSet<String>,
    decl: HashSet<String>,
}
impl MutV<'_> {
    fn add(&mut self, e: &Expr) {
        if let Some(r) = place_root(e) {
            if !self.decl.contains(&r) {
                self.out.insert(r);
            }
        } else {
            // no variable holds what is changed here: whoever translates
            // this effect has to reject it
            self.out.insert("x_nowhere".into());
        }
    }
}
fn pat_idents(p: &Pat, out: &mut HashSet<String>) {
    struct P<'a>(&'a mut HashSet<String>);
    impl<'ast> Visit<'ast> for P<'_> {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            self.0.insert(i.ident.to_string());
            visit::visit_pat_ident(self, i);
        }
    }
    P(out).visit_pat(p);
}
/// names a pattern binds by reference or value, but not as variables of their own
fn pat_shared(p: &Pat) -> HashSet<String> {
    struct P(HashSet<String>);
    impl<'ast> Visit<'ast> for P {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            if i.mutability.is_none() {
                self.0.insert(i.ident.to_string());
            }
            visit::visit_pat_ident(self, i);
        }
    }
    let mut v = P(HashSet::new());
    v.visit_pat(p);
    v.0
}
impl<'ast> Visit<'ast> for MutV<'_> {
    fn visit_local(&mut self, l: &'ast syn::Local) {
        visit::visit_local(self, l);
        pat_idents(&l.pat, &mut self.decl);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Assign(a) => self.add(&a.left),
            Expr::Binary(b) if is_assign_op(&b.op) => self.add(&b.left),
            Expr::MethodCall(m) => {
                if let Some((recv, args)) = mutating(self.db, m) {
                    if recv {
                        self.add(&m.receiver);
                    }
                    for a in args {
                        self.add(&m.args[a]);
                    }
                }
            }
            Expr::Call(c) => {
                for a in call_muts(self.db, c) {
                    self.add(&c.args[a]);
                }
            }
            Expr::Macro(m) => {
                if let Some(t) = write_target(&m.mac) {
                    self.add(&t);
                }
            }
            Expr::Closure(_) => return,
            // names bound by patterns are local to their scope
            Expr::ForLoop(f) => {
                self.visit_expr(&f.expr);
                let save = self.decl.clone();
                pat_idents(&f.pat, &mut self.decl);
                self.visit_block(&f.body);
                self.decl = save;
                return;
            }
            Expr::If(i) => {
                let save = self.decl.clone();
                self.visit_expr(&i.cond);
                self.visit_block(&i.then_branch);
                self.decl = save;
                if let Some((_, x)) = &i.else_branch {
                    self.visit_expr(x);
                }
                return;
            }
            Expr::Let(l) => {
                self.visit_expr(&l.expr);
                pat_idents(&l.pat, &mut self.decl);
                return;
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        let save = self.decl.clone();
        visit::visit_block(self, b);
        self.decl = save;
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        let save = self.decl.clone();
        pat_idents(&a.pat, &mut self.decl);
        visit::visit_arm(self, a);
        self.decl = save;
    }
    fn visit_stmt(&mut self, s: &'ast Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(t) = write_target(&m.mac) {
                self.add(&t);
            }
        }
        visit::visit_stmt(self, s);
    }
}

fn write_target(m: &syn::Macro) -> Option<Expr> {
    let n = mac_name(m);
    if n == "write" || n == "writeln" {
        let args = m
            .parse_body_with(
                syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
            )
            .ok()?;
        args.first().cloned()
    } else {
        None
    }
}

/// a type with a part left to inference
fn has_infer(t: &syn::Type) -> bool {
    quote::quote!(#t).to_string().split_whitespace().any(|w| w == "_")
}

fn is_assign_op(o: &syn::BinOp) -> bool {
    use syn::BinOp::*;
    matches!(
        o,
        AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_)
            | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_)
            | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)
    )
}

/// Some((receiver mutated, indices of mutated args)) for a mutating call
fn mutating(db: &Db, m: &syn::ExprMethodCall) -> Option<(bool, Vec<usize>)> {
    let name = m.method.to_string();
    let root_ok = place_root(&m.receiver).is_some();
    if let Some((mself, idx)) = db.muts.get(&name) {
        let idx: Vec<usize> =
            idx.iter().copied().filter(|i| *i < m.args.len() && place_root(&m.args[*i]).is_some()).collect();
        let std = MUT_STD.iter().any(|x| x.0 == name);
        if (*mself || std) && root_ok || !idx.is_empty() {
            return Some(((*mself || std) && root_ok, idx));
        }
    }
    if root_ok && MUT_STD.iter().any(|x| x.0 == name) {
        return Some((true, vec![]));
    }
    if root_ok && name == "take" && m.args.is_empty() {
        return Some((true, vec![]));
    }
    None
}

fn call_muts(db: &Db, c: &syn::ExprCall) -> Vec<usize> {
    if let Expr::Path(p) = &*c.func {
        let n = p.path.segments.last().unwrap().ident.to_string();
        if let Some((_, idx)) = db.muts.get(&n) {
            return idx
                .iter()
                .copied()
                .filter(|i| *i < c.args.len() && place_root(&c.args[*i]).is_some())
                .collect();
        }
    }
    vec![]
}

fn mutated(db: &Db, e: &Expr) -> Vec<String> {
    let mut v = MutV { db, out: BTreeSet::new(), decl: HashSet::new() };
    v.visit_expr(e);
    v.out.into_iter().collect()
}
fn mutated_block(db: &Db, b: &syn::Block) -> Vec<String> {
    let mut v = MutV { db, out: BTreeSet::new(), decl: HashSet::new() };
    v.visit_block(b);
    v.out.into_iter().collect()
}

fn effectful(db: &Db, e: &Expr) -> bool {
    struct W(bool, bool);
    impl<'ast> Visit<'ast> for W {
        fn visit_expr(&mut self, e: &'ast Expr) {
            if matches!(e, Expr::Closure(_)) {
                return;
            }
            if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
                self.0 = true;
            }
            if is_write(e) && (self.1 || !matches!(unparen(e), Expr::MethodCall(m) if m.method == "finish")) {
                self.0 = true;
            }
            if matches!(e, Expr::Try(_)) {
                self.0 = true;
            }
            visit::visit_expr(self, e);
        }
    }
    let mut w = W(false, db.muts.contains_key("finish"));
    w.visit_expr(e);
    w.0 || has_escape(e) || !mutated(db, e).is_empty()
}

fn byte_seq(b: &[u8]) -> String {
    if b.is_empty() {
        "Seq::<u8>::empty()".into()
    } else {
        format!(
            "seq![{}]",
            b.iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", ")
        )
    }
}

fn tuple(v: &[String]) -> String {
    match v.len() {
        0 => "()".into(),
        1 => v[0].clone(),
        _ => format!("({})", v.join(", ")),
    }
}

impl<'a> Tr<'a> {
    pub fn new(db: &'a Db, cfg: &'a Cfg, opts: Opts, f: &FnInfo) -> Self {
        let mut t = Tr {
            db,
            cfg,
            opts,
            file: f.file.clone(),
            impl_ty: f.impl_ty.clone().map(|n| cfg.tymap.get(&n).filter(|t| !t.contains('<')).cloned().unwrap_or(n)),
            variants: HashMap::new(),
            generics: HashMap::new(),
            fresh: 0,
            pret: None,
            ptys: HashMap::new(),
            errors: vec![],
            calls: BTreeSet::new(),
            mut_params: vec![],
            ret_unit: false,
            ret_opt: false,
            loops: vec![],
            labels: vec![],
            tys: HashMap::new(),
            all_stmts: vec![],
            local_consts: HashSet::new(),
            newty_params: HashSet::new(),
            self_name: "self".into(),
        };
        for u in t.opts.uses.clone() {
            t.use_glob(&u);
        }
        t
    }

    fn err(&mut self, s: impl Into<String>) -> String {
        self.errors.push(s.into());
        "arbitrary()".into()
    }

    fn fresh(&mut self, p: &str) -> String {
        self.fresh += 1;
        format!("{p}__{}", self.fresh)
    }

    fn use_glob(&mut self, name: &str) {
        let en = name.rsplit("::").next().unwrap();
        let vs: Vec<String> = self
            .db
            .enums
            .iter()
            .filter(|e| e.1.ident == en)
            .flat_map(|e| e.1.variants.iter().map(|v| v.ident.to_string()))
            .collect();
        for v in vs {
            self.variants.insert(v, en.to_string());
        }
    }

    pub fn use_tree(&mut self, t: &syn::UseTree, last: &str) {
        match t {
            syn::UseTree::Path(p) => self.use_tree(&p.tree, &p.ident.to_string()),
            syn::UseTree::Glob(_) => {
                let l = if last == "Self" { self.impl_ty.clone().unwrap_or_default() } else { last.to_string() };
                self.use_glob(&l)
            }
            syn::UseTree::Group(g) => {
                for i in &g.items {
                    self.use_tree(i, last);
                }
            }
            syn::UseTree::Name(n) => {
                let is_variant = self.db.enums.iter().any(|e| {
                    e.1.ident == last && e.1.variants.iter().any(|v| v.ident == n.ident)
                });
                if is_variant {
                    self.variants.insert(n.ident.to_string(), last.to_string());
                }
            }
            syn::UseTree::Rename(_) => {}
        }
    }

    // ---------------------------------------------------------- types

    pub fn bind_generics(&mut self, g: &syn::Generics) {
        for p in &g.params {
            if let syn::GenericParam::Type(t) = p {
                let n = t.ident.to_string();
                for b in &t.bounds {
                    self.bind_bound(&n, b);
                }
            }
        }
        if let Some(w) = &g.where_clause {
            for p in &w.predicates {
                if let syn::WherePredicate::Type(t) = p {
                    let n = ty_name(&t.bounded_ty);
                    for b in &t.bounds {
                        self.bind_bound(&n, b);
                    }
                }
            }
        }
    }

    fn bind_bound(&mut self, n: &str, b: &syn::TypeParamBound) {
        if let Some(s) = self.bound(b) {
            self.generics.insert(n.to_string(), s);
        }
    }

    fn bound(&mut self, b: &syn::TypeParamBound) -> Option<String> {
        if let syn::TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last().unwrap();
            let name = s.ident.to_string();
            return match name.as_str() {
                "Parser" => {
                    let syn::PathArguments::AngleBracketed(a) = &s.arguments else { return None };
                    let t = a.args.iter().filter_map(|x| if let syn::GenericArgument::Type(t) = x { Some(t.clone()) } else { None }).nth(1)?;
                    Some(format!("PR<{}>", self.ty(&t)))
                }
                "AsRef" | "Write" | "Borrow" => Some("Seq<u8>".into()),
                "ToString" | "Display" => Some("Seq<u8>".into()),
                "IntoIterator" | "Iterator" | "DoubleEndedIterator" | "ExactSizeIterator" => {
                    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                        for x in &a.args {
                            if let syn::GenericArgument::AssocType(a) = x {
                                let t = self.ty(&a.ty);
                                return Some(format!("Seq<{t}>"));
                            }
                        }
                    }
                    None
                }
                "Fn" | "FnMut" | "FnOnce" => {
                    if let syn::PathArguments::Parenthesized(p) = &s.arguments {
                        let ins: Vec<String> = p.inputs.iter().map(|x| self.ty(x)).collect();
                        let out = match &p.output {
                            syn::ReturnType::Default => "()".to_string(),
                            syn::ReturnType::Type(_, t) => self.ty(t),
                        };
                        return Some(format!("spec_fn({}) -> {}", ins.join(", "), out));
                    }
                    None
                }
                "Into" => {
                    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                            return Some(self.ty(t));
                        }
                    }
                    None
                }
                _ => None,
            };
        }
        None
    }

    pub fn ty(&mut self, t: &Type) -> String {
        match t {
            Type::Reference(r) => self.ty(&r.elem),
            Type::Paren(r) => self.ty(&r.elem),
            Type::Group(r) => self.ty(&r.elem),
            Type::Slice(s) => {
                let x = self.ty(&s.elem);
                format!("Seq<{x}>")
            }
            Type::Array(s) => {
                let x = self.ty(&s.elem);
                format!("Seq<{x}>")
            }
            Type::Tuple(t) => {
                let v: Vec<String> = t.elems.iter().map(|x| self.ty(x)).collect();
                if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
            }
            Type::ImplTrait(i) => {
                for b in &i.bounds {
                    if let Some(s) = self.bound(b) {
                        return s;
                    }
                }
                self.err("type: impl trait")
            }
            Type::Path(p) => {
                let s = p.path.segments.last().unwrap();
                let n = s.ident.to_string();
                if let Some(g) = self.generics.get(&n) {
                    return g.clone();
                }
                if let Some(g) = self.cfg.newtypes.get(&n) {
                    return g.clone();
                }
                if let Some(g) = self.cfg.tymap.get(&n) {
                    return g.clone();
                }
                if p.path.segments.len() >= 2 {
                    let q = p.path.segments[p.path.segments.len() - 2].ident.to_string();
                    if let Some(g) = self.cfg.tymap.get(&format!("{q}::{n}")) {
                        return g.clone();
                    }
                }
                let mut args: Vec<String> = vec![];
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    for x in &a.args {
                        if let syn::GenericArgument::Type(t) = x {
                            args.push(self.ty(t));
                        }
                    }
                }
                match n.as_str() {
                    "usize" | "u64" | "u32" | "u16" | "i64" | "i32" | "isize" | "u128" | "i8" | "i16" => "int".into(),
                    "str" | "String" | "BStr" | "BString" | "Cow" | "PathBuf" | "Path" | "OsString" => "Seq<u8>".into(),
                    "LazyLock" | "OnceLock" | "Arc" | "Rc" if args.len() == 1 => args.remove(0),
                    "Vec" | "SmallVec" | "VecDeque" => {
                        let a = args.first().cloned().unwrap_or("u8".into());
                        if a.starts_with("Seq<") && n == "SmallVec" { a } else { format!("Seq<{a}>") }
                    }
                    "HashSet" | "BTreeSet" => format!("Set<{}>", args.first().cloned().unwrap_or_default()),
                    "HashMap" | "BTreeMap" => format!(
                        "Map<{}, {}>",
                        args.first().cloned().unwrap_or_default(),
                        args.get(1).cloned().unwrap_or_default()
                    ),
                    "Result" => {
                        let a = args.first().cloned().unwrap_or("()".into());
                        let e = args.get(1).filter(|e| self.cfg.errs.contains(*e)).cloned().unwrap_or("XErr".into());
                        format!("Result<{a}, {e}>")
                    }
                    "ModalResult" => {
                        let a = args.first().cloned().unwrap_or("()".into());
                        format!("PR<{a}>")
                    }
                    "Self" => self.impl_ty.clone().map(|n| self.cfg.newtypes.get(&n).cloned().unwrap_or(n)).unwrap_or("Self".into()),
                    "Output" if p.path.segments.len() == 2 => {
                        self.impl_ty.clone().map(|n| self.cfg.newtypes.get(&n).cloned().unwrap_or(n)).unwrap_or("Self".into())
                    }
                    _ => {
                        let mut segs: Vec<String> = p
                            .path
                            .segments
                            .iter()
                            .map(|s| s.ident.to_string())
                            .filter(|s| !matches!(s.as_str(), "crate" | "super" | "self" | "std"))
                            .collect();
                        if segs.len() > 2 {
                            segs = segs.split_off(segs.len() - 2);
                        }
                        let base = self.pathmap(segs.join("::"));
                        if n == "Box" && args.len() == 1 {
                            if let Some(g) = self.cfg.tymap.get(&format!("Box<{}>", args[0])) {
                                return g.clone();
                            }
                        }
                        if n == "Box" && matches!(&s.arguments, syn::PathArguments::AngleBracketed(a)
                            if matches!(a.args.first(), Some(syn::GenericArgument::Type(Type::TraitObject(_)))))
                        {
                            return args.remove(0);
                        }
                        let user = self.db.structs.iter().any(|x| x.1.ident == n) || self.db.enums.iter().any(|x| x.1.ident == n);
                        if args.is_empty() || user { base } else { format!("{base}<{}>", args.join(", ")) }
                    }
                }
            }
            Type::TraitObject(o) => {
                for b in &o.bounds {
                    if let syn::TypeParamBound::Trait(t) = b {
                        let n = t.path.segments.last().unwrap().ident.to_string();
                        if let Some(g) = self.cfg.tymap.get(&n) {
                            return g.clone();
                        }
                    }
                }
                self.err("type: trait object")
            }
            _ => self.err("type: unsupported"),
        }
    }

    fn pathmap(&self, s: String) -> String {
        for (a, b) in self.cfg.pathmap.iter().rev() {
            if s == *a {
                return b.clone();
            }
            if let Some(r) = s.strip_prefix(&format!("{a}::")) {
                return format!("{b}::{r}");
            }
        }
        s
    }

    fn is_newtype(&self, n: &str) -> bool {
        self.cfg.newtypes.contains_key(n)
            || (n == "Self"
                && self.impl_ty.as_ref().is_some_and(|t| self.cfg.newtypes.contains_key(t)))
    }

    // ---------------------------------------------------------- function

    /// The whole `spec fn` item.
    pub fn function(&mut self, f: &FnInfo, name: &str) -> String {
        let (mut head, body) = self.function_parts(f, name);
        if self.opts.intrait {
            head = head.replacen("pub open spec fn", if self.errors.is_empty() { "open spec fn" } else { "uninterp spec fn" }, 1);
        }
        if !self.errors.is_empty() {
            // keep the unit well-formed: an uninterpreted stand-in, whose
            // obligation cannot be discharged
            let h = head.replace("pub open spec fn", "pub uninterp spec fn");
            return format!("{h};\n");
        }
        format!("{head} {{\n    {body}\n}}\n")
    }

    fn function_parts(&mut self, f: &FnInfo, name: &str) -> (String, String) {
        if let Some(g) = &f.impl_generics {
            self.bind_generics(&g.clone());
        }
        self.bind_generics(&f.sig.generics.clone());
        let mut params = vec![];
        let mut pre = String::new();
        let self_is_nt = self.is_newtype("Self");
        let mut pat_binds: Vec<(Pat, String)> = vec![];
        for a in &f.sig.inputs {
            match a {
                syn::FnArg::Receiver(r) => {
                    let mself = (r.mutability.is_some() && r.reference.is_some())
                        || f.sig.ident == "next" && false;
                    if self.opts.free {
                        let t = self.impl_ty.clone().unwrap_or_default();
                        let t = self.cfg.newtypes.get(&t).cloned().unwrap_or(t);
                        params.push(format!("self_: {t}"));
                        self.self_name = "self_".into();
                    } else {
                        params.push("self".to_string());
                        if mself || r.mutability.is_some() {
                            pre = "let self_ = self; ".into();
                            self.self_name = "self_".into();
                        }
                    }
                    if mself {
                        self.mut_params.push("self".into());
                    }
                    {
                        let t = self.impl_ty.clone().unwrap_or_default();
                        let t = self.cfg.newtypes.get(&t).cloned().unwrap_or(t);
                        self.tys.insert("self".into(), t);
                    }
                    if self_is_nt {
                        self.newty_params.insert("self".into());
                    }
                }
                syn::FnArg::Typed(t) => {
                    let n = match &*t.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        p => {
                            let n = self.fresh("arg");
                            pat_binds.push((p.clone(), n.clone()));
                            n
                        }
                    };
                    let is_fmt = quote::quote!(#t).to_string().contains("Formatter");
                    if is_mut_ref(&t.ty) {
                        self.mut_params.push(n.clone());
                    }
                    if self.is_newtype(&ty_name(&t.ty)) {
                        self.newty_params.insert(n.clone());
                    }
                    let ty = if is_fmt { "Seq<u8>".to_string() } else { self.ty(&t.ty) };
                    self.bind_pat(&t.pat.clone(), &ty);
                    params.push(format!("{}: {}", clean(&n), ty));
                }
            }
        }
        for (p, n) in pat_binds {
            let ps = self.pat(&p);
            pre.push_str(&format!("let {ps} = {n}; "));
        }
        let ret = match &f.sig.output {
            syn::ReturnType::Default => None,
            syn::ReturnType::Type(_, t) => {
                let s = quote::quote!(#t).to_string().replace(' ', "");
                if s == "io::Result<()>" || s == "fmt::Result" || s == "std::io::Result<()>" || s == "()"
                    || s == "Result<(),WritePicaError>" || (s.starts_with("CliResult") && !self.mut_params.is_empty())
                {
                    None
                } else {
                    let r = self.ty(t);
                    self.ret_opt = r.starts_with("Option<");
                    Some(r)
                }
            }
        };
        self.ret_unit = ret.is_none();
        let mut rts: Vec<String> = vec![];
        if let Some(r) = &ret {
            rts.push(r.clone());
        }
        for m in self.mut_params.clone() {
            if m == "self" {
                let t = self.impl_ty.clone().unwrap_or_default();
                rts.push(self.cfg.newtypes.get(&t).cloned().unwrap_or(t));
            } else {
                for a in &f.sig.inputs {
                    if let syn::FnArg::Typed(t) = a {
                        if let Pat::Ident(i) = &*t.pat {
                            if i.ident == m {
                                let s = quote::quote!(#t).to_string();
                                let t2 = if s.contains("Formatter") { "Seq<u8>".into() } else { self.ty(&t.ty) };
                                rts.push(t2);
                            }
                        }
                    }
                }
            }
        }
        let rt = self.opts.ret.clone().unwrap_or(tuple(&rts));
        let mut gs: Vec<String> = vec![];
        for p in &f.sig.generics.params {
            if let syn::GenericParam::Type(t) = p {
                let n = t.ident.to_string();
                if !self.generics.contains_key(&n) && !self.cfg.tymap.contains_key(&n) {
                    gs.push(n);
                }
            }
        }
        let g = if gs.is_empty() { String::new() } else { format!("<{}>", gs.join(", ")) };
        let head = format!("pub open spec fn {name}{g}({}) -> {rt}", params.join(", "));
        let mut pc = self.cfg.pre.clone();
        pc.log = self.opts.log.clone();
        pc.collect = self.opts.collect.clone();
        pc.macros = self.db.macros.iter().filter(|(k, _)| k.0 == f.file).map(|(k, v)| (k.1.clone(), v.clone())).collect();
        let (block, errs) = crate::pre::run(&pc, &f.block);
        for x in errs {
            self.err(x);
        }
        self.all_stmts = block.stmts.clone();
        let body = self.stmts(&block.stmts, &K::Ret);
        (head, format!("{pre}{body}"))
    }

    /// A parser function `fn p(i: &mut &[u8]) -> ModalResult<T> { CHAIN.parse_next(i) }`
    /// becomes `spec fn p() -> Parser<T> { CHAIN }`.
    pub fn parser_function(&mut self, f: &FnInfo, name: &str) -> String {
        if let Some(g) = &f.impl_generics {
            self.bind_generics(&g.clone());
        }
        self.bind_generics(&f.sig.generics.clone());
        let mut params: Vec<String> = vec![];
        for a in &f.sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                let s = quote::quote!(#t).to_string();
                if s.contains("& mut") {
                    continue;
                }
                if let Pat::Ident(i) = &*t.pat {
                    let ty = self.ty(&t.ty);
                    params.push(format!("{}: {}", clean(&i.ident.to_string()), ty));
                }
            }
        }
        let rt = match (&self.opts.ret.clone(), &f.sig.output) {
            (Some(r), _) => r.clone(),
            (None, syn::ReturnType::Type(_, t)) => {
                let s = self.ty(t);
                s.strip_prefix("PR<").and_then(|x| x.strip_suffix('>')).map(|x| x.to_string()).unwrap_or(s)
            }
            _ => "()".into(),
        };
        let fuel = self.cfg.fuel.contains(&(f.file.clone(), f.name.clone()));
        self.pret = Some(rt.clone());
        let mut body = self.parser_block(&f.block.stmts);
        let mut dec = "";
        if fuel {
            params.push("n_: nat".into());
            body = format!("if n_ == 0 {{ p_cut() }} else {{ {body} }}");
            dec = " decreases n_";
        }
        let head = format!("pub open spec fn {name}({}) -> Parser<{rt}>{dec}", params.join(", "));
        if !self.errors.is_empty() {
            return format!("{};\n", head.replace("open spec", "uninterp spec").replace(" decreases n_", ""));
        }
        format!("{head} {{\n    {body}\n}}\n")
    }

    fn wraps_bytes(&mut self, t: &str) -> bool {
        let n = self.src_name(t);
        let Some(s) = self.db.structs.iter().find(|s| s.1.ident == n) else { return false };
        let syn::Fields::Unnamed(f) = &s.1.fields else { return false };
        if f.unnamed.len() != 1 {
            return false;
        }
        let t = f.unnamed[0].ty.clone();
        self.ty(&t) == "Seq<u8>"
    }

    fn is_noop(&self, s: &Stmt) -> bool {
        match s {
            Stmt::Expr(Expr::Call(c), Some(_)) => ident_of(&c.func).is_some_and(|n| self.cfg.noop.contains(&n)),
            _ => false,
        }
    }

    /// the function of the grammar that a path names
    fn parser_fn(&self, p: &syn::Path) -> Option<&FnInfo> {
        let n = p.segments.last()?.ident.to_string();
        let c: Vec<&FnInfo> = self.db.fns.iter().filter(|f| f.impl_ty.is_none() && f.name == n).collect();
        if p.segments.len() > 1 {
            let q: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).filter(|s| s != "crate" && s != "super").collect();
            let q = q[..q.len() - 1].join("/");
            return c.into_iter().find(|f| f.file.ends_with(&format!("{q}.rs")) || f.file.ends_with(&format!("{q}/mod.rs")));
        }
        c.iter().find(|f| f.file == self.file).or_else(|| c.first()).copied()
    }

    /// the type of what a parser returns
    fn pty(&mut self, e: &Expr) -> Option<String> {
        match unparen(e) {
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Byte(_) | syn::Lit::Char(_) => Some("u8".into()),
                _ => Some("Seq<u8>".into()),
            },
            Expr::Tuple(t) => {
                let v: Option<Vec<String>> = t.elems.iter().map(|x| self.pty(x)).collect();
                Some(format!("({})", v?.join(", ")))
            }
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if matches!(n.as_str(), "multispace0" | "multispace1" | "space0" | "space1" | "digit1") {
                    return Some("Seq<u8>".into());
                }
                if n == "empty" {
                    return Some("()".into());
                }
                if let Some(t) = self.ptys.get(&n) {
                    return Some(t.clone());
                }
                let full = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                if let Some(x) = self.cfg.rets.get(&full) {
                    return Some(x.clone());
                }
                let f = self.parser_fn(&p.path)?.clone();
                let t = self.ret_of(&f)?;
                Some(t.strip_prefix("PR<").and_then(|x| x.strip_suffix('>')).map(|x| x.to_string()).unwrap_or(t))
            }
            Expr::Closure(c) => match &c.output {
                syn::ReturnType::Type(_, t) => {
                    let t = self.ty(t);
                    Some(t.strip_prefix("PR<").and_then(|x| x.strip_suffix('>')).map(|x| x.to_string()).unwrap_or(t))
                }
                _ => None,
            },
            Expr::Call(c) => {
                let n = match &*c.func {
                    Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => return None,
                };
                match n.as_str() {
                    "one_of" | "none_of" => Some("u8".into()),
                    "take_while" | "take_till" => Some("Seq<u8>".into()),
                    "repeat" | "separated" => self.pty(&c.args[1]).map(|t| format!("Seq<{t}>")),
                    "alt" => match unparen(&c.args[0]) {
                        Expr::Tuple(t) => t.elems.iter().find_map(|x| self.pty(x)),
                        _ => None,
                    },
                    "preceded" | "delimited" => self.pty(&c.args[1]),
                    "terminated" | "ws" | "cut_err" | "peek" => self.pty(&c.args[0]),
                    "opt" => self.pty(&c.args[0]).map(|t| format!("Option<{t}>")),
                    "separated_pair" => Some(format!("({}, {})", self.pty(&c.args[0])?, self.pty(&c.args[2])?)),
                    _ => {
                        let Expr::Path(p) = &*c.func else { return None };
                        let f = self.parser_fn(&p.path)?.clone();
                        let t = self.ret_of(&f)?;
                        Some(t.strip_prefix("PR<").and_then(|x| x.strip_suffix('>')).map(|x| x.to_string()).unwrap_or(t))
                    }
                }
            }
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "map" => {
                    if matches!(unparen(&m.args[0]), Expr::Path(p) if p.path.segments.last().unwrap().ident == "unwrap_or_default") {
                        return self.pty(&m.receiver).and_then(|t| crate::infer::elem(&t));
                    }
                    let t = self.pty(&m.receiver)?;
                    self.closure_ret(&m.args[0].clone(), &[t])
                }
                "verify_map" => {
                    let t = self.pty(&m.receiver)?;
                    self.closure_ret(&m.args[0].clone(), &[t]).and_then(|t| crate::infer::elem(&t))
                }
                "verify" | "by_ref" | "context" => self.pty(&m.receiver),
                "value" => self.infer(&m.args[0].clone()),
                "fold" => match self.closure_ret(&m.args[1].clone(), &[]) {
                    Some(t) => Some(t),
                    None => self.pret.clone(),
                },
                "take" => Some("Seq<u8>".into()),
                "with_taken" => self.pty(&m.receiver).map(|t| format!("({t}, Seq<u8>)")),
                _ => None,
            },
            Expr::Unary(u) => self.pty(&u.expr),
            Expr::Reference(u) => self.pty(&u.expr),
            _ => None,
        }
    }

    fn pfunc(&mut self, recv: &Expr, f: &Expr) -> String {
        match self.pty(recv) {
            Some(t) => self.func_t(f, &[Some(t)]),
            None => self.func(f),
        }
    }

    /// The statements of a parser function: named sub-parsers, steps
    /// `let PAT = P.parse_next(i)?;` and a final parser or `Ok(VALUE)`.
    fn parser_block(&mut self, ss: &[Stmt]) -> String {
        let Some(s) = ss.first() else { return self.err("parser: no result") };
        let rest = &ss[1..];
        match s {
            Stmt::Item(syn::Item::Use(u)) => {
                self.use_tree(&u.tree.clone(), "");
                self.parser_block(rest)
            }
            Stmt::Local(l) if !rest.is_empty() => {
                let Some(init) = &l.init else { return self.err("parser: let") };
                if let Some(p) = step(&init.expr) {
                    let p = self.parser(&p);
                    let pat = self.pat(&l.pat);
                    let r = self.parser_block(rest);
                    return format!("|i__: Seq<u8>| match ({p})(i__) {{ PR::Ok({pat}, r__) => ({r})(r__), PR::Err => PR::Err, PR::Cut => PR::Cut }}");
                }
                if let Pat::Ident(i) = &l.pat {
                    if let Some(t) = self.infer(&init.expr).filter(|t| t == "char" || t == "u8") {
                        let b = self.e(&init.expr);
                        self.tys.insert(i.ident.to_string(), t);
                        let r = self.parser_block(rest);
                        return format!("{{ let {} = {b}; {r} }}", clean(&i.ident.to_string()));
                    }
                    if let Some(t) = self.pty(&init.expr) {
                        self.ptys.insert(i.ident.to_string(), t);
                    }
                    let b = self.parser(&init.expr);
                    let r = self.parser_block(rest);
                    return format!("{{ let {} = {b}; {r} }}", clean(&i.ident.to_string()));
                }
                self.err("parser: let")
            }
            s if self.is_noop(s) => self.parser_block(rest),
            Stmt::Item(syn::Item::Const(x)) => {
                let (id, ex, ty) = (&x.ident, &x.expr, &x.ty);
                self.local_consts.insert(id.to_string());
                let t = self.ty(ty);
                self.tys.insert(id.to_string(), t);
                let b = self.e(ex);
                let r = self.parser_block(rest);
                format!("{{ let {} = {b}; {r} }}", clean(&id.to_string()))
            }
            Stmt::Expr(e, semi) if !rest.is_empty() => {
                let _ = semi;
                if let Some(p) = step(e) {
                    let p = self.parser(&p);
                    let r = self.parser_block(rest);
                    return format!("|i__: Seq<u8>| match ({p})(i__) {{ PR::Ok(w__, r__) => ({r})(r__), PR::Err => PR::Err, PR::Cut => PR::Cut }}");
                }
                self.err("parser: statement")
            }
            Stmt::Expr(Expr::Call(c), None) if ident_of(&c.func).as_deref() == Some("Ok") => {
                let x = self.e(&c.args[0]);
                format!("|i__: Seq<u8>| PR::Ok({x}, i__)")
            }
            Stmt::Expr(e, None) => self.parser_tail(e),
            _ => self.err("parser: statement"),
        }
    }

    fn parser_tail(&mut self, e: &Expr) -> String {
        match unparen(e) {
            Expr::MethodCall(m) if m.method == "parse_next" => self.parser(&m.receiver),
            Expr::Call(c) => {
                // f(...)(i)
                if c.args.len() == 1 && ident_of(&c.args[0]).is_some_and(|x| x == "i") {
                    return self.parser(&c.func);
                }
                self.parser(e)
            }
            Expr::Match(_) => self.parser(e),
            // an error without a mode becomes a recoverable one
            Expr::MethodCall(m)
                if m.method == "map_err"
                    && matches!(unparen(&m.args[0]), Expr::Path(p) if p.path.segments.last().unwrap().ident == "Backtrack") =>
            {
                let p = self.parser_tail(&m.receiver);
                format!("p_backtrack({p})")
            }
            Expr::Closure(c) => {
                if let Expr::Block(b) = &*c.body {
                    if let [Stmt::Expr(e, None)] = &b.block.stmts[..] {
                        return self.parser_tail(e);
                    }
                }
                let b = c.body.clone();
                self.parser_tail(&b)
            }
            _ => self.err("parser: tail"),
        }
    }

    fn parser(&mut self, e: &Expr) -> String {
        match unparen(e) {
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Byte(b) => format!("p_byte({}u8)", b.value()),
                syn::Lit::Char(c) if (c.value() as u32) < 128 => format!("p_byte({}u8)", c.value() as u32),
                syn::Lit::Str(s) => format!("p_lit({})", byte_seq(s.value().as_bytes())),
                syn::Lit::ByteStr(s) => format!("p_lit({})", byte_seq(&s.value())),
                _ => self.err("parser: literal"),
            },
            Expr::Tuple(t) => {
                let v: Vec<String> = t.elems.iter().map(|x| self.parser(x)).collect();
                format!("p_tup{}({})", v.len(), v.join(", "))
            }
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "empty" => return "p_empty()".into(),
                    "multispace0" => return "p_multispace0()".into(),
                    "multispace1" => return "p_multispace1()".into(),
                    "space0" => return "p_space0()".into(),
                    "space1" => return "p_space1()".into(),
                    "digit1" => return "p_digit1()".into(),
                    _ => {}
                }
                if self.ptys.contains_key(&n) {
                    return clean(&n);
                }
                if matches!(self.tys.get(&n).map(|s| s.as_str()), Some("char") | Some("u8")) {
                    return format!("p_byte({} as u8)", clean(&n));
                }
                if let Some(f) = self.parser_fn(&p.path) {
                    let a = if self.cfg.fuel.contains(&(f.file.clone(), n.clone())) { "(n_ - 1) as nat" } else { "" };
                    let full = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                    if let Some((_, x)) = self.cfg.pathmap.iter().find(|x| x.0 == full) {
                        return format!("{x}({a})");
                    }
                    self.calls.insert((None, n.clone()));
                    format!("{n}({a})")
                } else {
                    clean(&n)
                }
            }
            Expr::Call(c) => {
                let n = match &*c.func {
                    Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => return self.err("parser: call"),
                };
                match n.as_str() {
                    "one_of" | "none_of" => {
                        let s = self.byte_set(&c.args[0]);
                        format!("p_{n}({s})")
                    }
                    "take_while" | "take_till" => {
                        let (lo, hi) = self.rng(&c.args[0]);
                        let s = self.byte_set(&c.args[1]);
                        format!("p_{n}({lo}, {hi}, {s})")
                    }
                    "repeat" => {
                        let (lo, hi) = self.rng(&c.args[0]);
                        let p = self.parser(&c.args[1]);
                        format!("p_repeat({lo}, {hi}, {p})")
                    }
                    "alt" => {
                        if let Expr::Tuple(t) = unparen(&c.args[0]) {
                            let v: Vec<String> = t.elems.iter().map(|x| self.parser(x)).collect();
                            let mut it = v.into_iter().rev();
                            let mut acc = it.next().unwrap();
                            for x in it {
                                acc = format!("p_alt({x}, {acc})");
                            }
                            acc
                        } else {
                            self.err("parser: alt")
                        }
                    }
                    "preceded" | "terminated" | "delimited" | "opt" | "separated_pair" | "ws" | "cut_err" | "peek" | "not" => {
                        let v: Vec<String> = c.args.iter().map(|x| self.parser(x)).collect();
                        format!("p_{n}({})", v.join(", "))
                    }
                    "separated" => {
                        let (lo, hi) = self.rng(&c.args[0]);
                        let p = self.parser(&c.args[1]);
                        let s = self.parser(&c.args[2]);
                        format!("p_separated({lo}, {hi}, {p}, {s})")
                    }
                    _ => {
                        if self.db.fns.iter().any(|f| f.name == n) {
                            self.calls.insert((None, n.clone()));
                            let v: Vec<String> = c.args.iter().map(|x| self.e(x)).collect();
                            format!("{n}({})", v.join(", "))
                        } else {
                            self.err(format!("parser: combinator {n}"))
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "map" => {
                        let p = self.parser(&m.receiver);
                        let f = self.pfunc(&m.receiver, &m.args[0]);
                        format!("p_map({p}, {f})")
                    }
                    "verify" => {
                        let p = self.parser(&m.receiver);
                        let f = self.pfunc(&m.receiver, &m.args[0]);
                        format!("p_verify({p}, {f})")
                    }
                    "verify_map" => {
                        let p = self.parser(&m.receiver);
                        let f = self.pfunc(&m.receiver, &m.args[0]);
                        format!("p_verify_map({p}, {f})")
                    }
                    "value" => {
                        let p = self.parser(&m.receiver);
                        let f = self.e(&m.args[0]);
                        format!("p_value({p}, {f})")
                    }
                    "take" => {
                        let p = self.parser(&m.receiver);
                        format!("p_take({p})")
                    }
                    "with_taken" => {
                        let p = self.parser(&m.receiver);
                        format!("p_with_taken({p})")
                    }
                    "fold" => {
                        let el = self.pty(&m.receiver).and_then(|t| crate::infer::elem(&t));
                        let acc = self.pret.clone();
                        let p = self.parser(&m.receiver);
                        let i = match unparen(&m.args[0]) {
                            Expr::Closure(c) => self.e(&c.body),
                            _ => "Seq::empty()".into(),
                        };
                        let f = self.func_t(&m.args[1], &[acc, el]);
                        format!("p_fold({p}, {i}, {f})")
                    }
                    "by_ref" | "context" => self.parser(&m.receiver),
                    _ => self.err(format!("parser: method {n}")),
                }
            }
            Expr::Closure(_) => self.parser_tail(e),
            Expr::Match(m) => {
                let x = self.e(&m.expr);
                let mut arms = vec![];
                for a in &m.arms {
                    if a.guard.is_some() {
                        return self.err("parser: guard");
                    }
                    let p = self.pat(&a.pat);
                    let b = self.parser(&a.body);
                    arms.push(format!("{p} => {b}"));
                }
                format!("match {x} {{ {} }}", arms.join(", "))
            }
            Expr::Unary(u) => self.parser(&u.expr),
            Expr::Reference(u) => self.parser(&u.expr),
            _ => self.err("parser: expression"),
        }
    }

    fn rng(&mut self, e: &Expr) -> (String, String) {
        match unparen(e) {
            Expr::Range(r) => {
                let lo = r.start.as_ref().map(|x| self.e(x)).unwrap_or("0".into());
                let hi = match (&r.end, &r.limits) {
                    (None, _) => "None".to_string(),
                    (Some(x), syn::RangeLimits::Closed(_)) => format!("Some({} as int)", self.e(x)),
                    (Some(x), _) => format!("Some({} - 1)", self.e(x)),
                };
                (lo, hi)
            }
            Expr::Lit(_) => {
                let n = self.e(e);
                (n.clone(), format!("Some({n} as int)"))
            }
            _ => (self.err("parser: range"), "None".into()),
        }
    }

    fn byte_set(&mut self, e: &Expr) -> String {
        match unparen(e) {
            Expr::Unary(u) => self.byte_set(&u.expr),
            Expr::Reference(u) => self.byte_set(&u.expr),
            Expr::Lit(l) => {
                let bytes: Vec<u8> = match &l.lit {
                    syn::Lit::ByteStr(s) => s.value(),
                    syn::Lit::Byte(b) => vec![b.value()],
                    syn::Lit::Char(c) => vec![c.value() as u8],
                    syn::Lit::Str(s) => s.value().into_bytes(),
                    _ => return self.err("byte set literal"),
                };
                let c: Vec<String> = bytes.iter().map(|b| format!("c == {b}u8")).collect();
                format!("(|c: u8| {})", if c.is_empty() { "false".into() } else { c.join(" || ") })
            }
            Expr::Range(r) => {
                let lo = r.start.as_ref().map(|x| self.byte_of(x));
                let hi = r.end.as_ref().map(|x| self.byte_of(x));
                let op = if matches!(r.limits, syn::RangeLimits::Closed(_)) { "<=" } else { "<" };
                let mut c = vec![];
                if let Some(l) = lo {
                    c.push(format!("{l} <= c"));
                }
                if let Some(h) = hi {
                    c.push(format!("c {op} {h}"));
                }
                format!("(|c: u8| {})", c.join(" && "))
            }
            Expr::Tuple(t) => {
                let c: Vec<String> = t.elems.iter().map(|x| format!("({})(c)", self.byte_set(x))).collect();
                format!("(|c: u8| {})", c.join(" || "))
            }
            Expr::Array(t) => {
                let c: Vec<String> = t.elems.iter().map(|x| format!("({})(c)", self.byte_set(x))).collect();
                format!("(|c: u8| {})", c.join(" || "))
            }
            Expr::Closure(c) => {
                let mut c = c.clone();
                if let Some(Pat::Ident(_)) = c.inputs.first() {
                    let p = c.inputs[0].clone();
                    let p: Pat = if let Pat::Ident(i) = p {
                        let t: syn::PatType = syn::PatType {
                            attrs: vec![],
                            pat: Box::new(Pat::Ident(i)),
                            colon_token: Default::default(),
                            ty: Box::new(syn::parse_str("u8").unwrap()),
                        };
                        Pat::Type(t)
                    } else {
                        p
                    };
                    c.inputs = [p].into_iter().collect();
                }
                self.closure(&c, &[Some("u8".into())])
            }
            Expr::Path(p) => {
                let s = quote::quote!(#p).to_string().replace(' ', "");
                match s.as_str() {
                    "AsChar::is_dec_digit" | "u8::is_ascii_digit" => "(|c: u8| is_digit(c))".into(),
                    "AsChar::is_alpha" | "u8::is_ascii_alphabetic" => "(|c: u8| is_alpha(c))".into(),
                    "AsChar::is_alphanum" | "u8::is_ascii_alphanumeric" => "(|c: u8| is_alnum(c))".into(),
                    "AsChar::is_space" => "(|c: u8| c == 32u8 || c == 9u8)".into(),
                    _ => self.err(format!("byte set {s}")),
                }
            }
            _ => self.err("byte set"),
        }
    }

    fn byte_of(&mut self, e: &Expr) -> String {
        match unparen(e) {
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Byte(b) => format!("{}u8", b.value()),
                syn::Lit::Char(c) => format!("{}u8", c.value() as u32),
                _ => self.err("byte"),
            },
            _ => self.e(e),
        }
    }

    fn final_value(&mut self, v: Option<String>) -> String {
        let r = if self.mut_params.is_empty() {
            v.unwrap_or("()".into())
        } else {
            let ms: Vec<String> = self
                .mut_params
                .iter()
                .map(|m| if m == "self" { self.self_name.clone() } else { clean(m) })
                .collect();
            if self.ret_unit {
                tuple(&ms)
            } else {
                let mut x = vec![v.unwrap_or("()".into())];
                x.extend(ms);
                tuple(&x)
            }
        };
        if self.loops.is_empty() {
            r
        } else {
            self.loops.last_mut().unwrap().1 = true;
            format!("Ctl::Ret({r})")
        }
    }

    fn vars(&self, vs: &[String]) -> Vec<String> {
        vs.iter().map(|v| if v == "self" { self.self_name.clone() } else { clean(v) }).collect()
    }

    fn loop_next(&mut self) -> String {
        let v = self.loops.last().unwrap().0.clone();
        format!("Ctl::Next({})", tuple(&self.vars(&v)))
    }

    fn finish(&mut self, v: Option<String>, k: &K) -> String {
        match k {
            K::Ret => self.final_value(v),
            K::Val => v.unwrap_or("()".into()),
            K::State { vars, val } => {
                let mut xs = vec![];
                if *val {
                    xs.push(v.unwrap_or("()".into()));
                }
                xs.extend(self.vars(vars));
                tuple(&xs)
            }
            K::Join { vars, val } => {
                let mut xs = vec![];
                if *val {
                    xs.push(v.unwrap_or("()".into()));
                }
                xs.extend(self.vars(vars));
                format!("Ctl::Next({})", tuple(&xs))
            }
            K::Loop => self.loop_next(),
            K::Bind { pat, rest, k, ty } => {
                // the continuation may be translated once per branch
                let save = self.tys.clone();
                if let Some(t) = ty {
                    self.bind_pat(pat, t);
                }
                let p = self.pat(pat);
                let r = self.stmts(rest, k);
                self.tys = save;
                format!("{{ let {p} = {}; {r} }}", v.unwrap_or("()".into()))
            }
            K::Then { rest, k } => {
                let save = self.tys.clone();
                let r = self.stmts(rest, k);
                self.tys = save;
                r
            }
        }
    }

    pub fn stmts(&mut self, ss: &[Stmt], k: &K) -> String {
        let Some(s) = ss.first() else {
            return self.finish(None, k);
        };
        let rest = &ss[1..];
        match s {
            s if self.is_noop(s) => self.stmts(rest, k),
            Stmt::Item(syn::Item::Use(u)) => {
                self.use_tree(&u.tree.clone(), "");
                self.stmts(rest, k)
            }
            Stmt::Item(syn::Item::Static(x)) => {
                let (id, ex, ty) = (&x.ident, &x.expr, &x.ty);
                self.local_consts.insert(id.to_string());
                let lt: Stmt = syn::parse_quote!(let #id: #ty = #ex;);
                let mut r = vec![lt];
                r.extend(rest.iter().cloned());
                self.stmts(&r, k)
            }
            Stmt::Item(syn::Item::Const(x)) => {
                let (id, ex, ty) = (&x.ident, &x.expr, &x.ty);
                self.local_consts.insert(id.to_string());
                let lt: Stmt = syn::parse_quote!(let #id: #ty = #ex;);
                let mut r = vec![lt];
                r.extend(rest.iter().cloned());
                self.stmts(&r, k)
            }
            Stmt::Item(_) => self.err("nested item"),
            Stmt::Macro(m) => {
                let n = mac_name(&m.mac);
                if matches!(
                    n.as_str(),
                    "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "assert" | "assert_eq"
                        | "eprintln" | "eprint" | "trace" | "println"
                ) {
                    return self.stmts(rest, k);
                }
                let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                let k2 = if rest.is_empty() && m.semi_token.is_none() {
                    k.clone()
                } else {
                    K::Then { rest: Rc::new(rest.to_vec()), k: Rc::new(k.clone()) }
                };
                self.eff(&e, &k2)
            }
            Stmt::Local(l) => {
                let lt = self.local_ty(l);
                let mut pat = &l.pat;
                let mut annot: Option<Type> = None;
                if let Pat::Type(t) = pat {
                    annot = Some((*t.ty).clone());
                    pat = &t.pat;
                }
                let Some(init) = &l.init else {
                    // declared, assigned later
                    if let Some(t) = &lt {
                        self.bind_pat(pat, t);
                    }
                    return self.stmts(rest, k);
                };
                if let Some((_, els)) = &init.diverge {
                    let x = if effectful(self.db, &init.expr) {
                        // hoist
                        let t = self.fresh("t");
                        let ti = syn::Ident::new(&t, proc_macro2::Span::call_site());
                        let mut nl = l.clone();
                        nl.init.as_mut().unwrap().expr = Box::new(syn::parse_quote!(#ti));
                        let mut r = vec![Stmt::Local(nl)];
                        r.extend(rest.iter().cloned());
                        let k2 = K::Bind { pat: syn::parse_quote!(#ti), rest: Rc::new(r), k: Rc::new(k.clone()), ty: None };
                        return self.eff(&init.expr, &k2);
                    } else {
                        self.e(&init.expr)
                    };
                    if let Some(t) = &lt {
                        self.bind_pat(pat, t);
                    }
                    let p = self.pat(pat);
                    let r = self.stmts(rest, k);
                    let d = self.eff(els, &K::Val);
                    return format!("(match {x} {{ {p} => {{ {r} }}, _ => {{ {d} }} }})");
                }
                let mut ie = (*init.expr).clone();
                if let Some(t) = &annot {
                    if let Type::Path(p) = t {
                        let n = p.path.segments.last().unwrap().ident.to_string();
                        if n.starts_with("HashSet") || n.starts_with("BTreeSet") {
                            if let Expr::MethodCall(m) = &mut ie {
                                if m.method == "collect" {
                                    m.method = syn::Ident::new("collect_set", m.method.span());
                                }
                            }
                        }
                    }
                }
                if matches!(pat, Pat::Wild(_)) && !effectful(self.db, &ie) {
                    // `let _ = pure;`
                    return self.stmts(rest, k);
                }
                if effectful(self.db, &ie) {
                    let k2 = K::Bind { pat: pat.clone(), rest: Rc::new(rest.to_vec()), k: Rc::new(k.clone()), ty: lt };
                    return self.eff(&ie, &k2);
                }
                let v = self.e(&ie);
                match &lt {
                    Some(t) => self.bind_pat(pat, t),
                    None => self.unbind_pat(pat),
                }
                let p = self.pat(pat);
                let an = match &annot {
                    Some(t) if !quote::quote!(#t).to_string().contains('_') => {
                        let t = self.ty(t);
                        format!(": {t}")
                    }
                    _ => String::new(),
                };
                let r = self.stmts(rest, k);
                format!("{{ let {p}{an} = {v}; {r} }}")
            }
            Stmt::Expr(e, semi) => {
                let k2 = if rest.is_empty() && (semi.is_none() || matches!(unparen(e), Expr::Return(_)))
                {
                    k.clone()
                } else {
                    K::Then { rest: Rc::new(rest.to_vec()), k: Rc::new(k.clone()) }
                };
                self.eff(e, &k2)
            }
        }
    }

    /// Translate an expression that may have effects, passing its value to `k`.
    pub fn eff(&mut self, e: &Expr, k: &K) -> String {
        let e = unparen(e);
        if !effectful(self.db, e) {
            match e {
                Expr::Macro(m) if matches!(mac_name(&m.mac).as_str(), "debug_assert" | "debug_assert_eq" | "assert" | "assert_eq" | "eprintln" | "println") => {
                    return self.finish(None, k)
                }
                Expr::If(_) | Expr::Match(_) | Expr::Block(_) => {
                    if !matches!(k, K::Then { .. }) {
                        // fallthrough to plain value
                    }
                }
                _ => {}
            }
            if matches!(k, K::Then { .. }) {
                // value unused and no effects: a call made for its own sake
                // has one that is not known here
                if let Expr::MethodCall(m) = e {
                    self.err(format!("effect of .{}()", m.method));
                } else if let Expr::Call(_) = e {
                    self.err("effect of a call");
                }
                return self.finish(None, k);
            }
            if self.ret_unit && matches!(k, K::Ret) {
                // `Ok(())`
                return self.finish(None, k);
            }
            let v = self.e(e);
            return self.finish(Some(v), k);
        }
        match e {
            Expr::Block(b) => {
                let b = b.block.stmts.clone();
                self.stmts(&b, k)
            }
            Expr::Return(r) => match &r.expr {
                None => self.final_value(None),
                Some(x) => {
                    let x = x.clone();
                    self.eff(&x, &K::Ret)
                }
            },
            Expr::Continue(c) => {
                if let Some(l) = &c.label {
                    let l = l.ident.to_string();
                    if self.labels.last().cloned().flatten().as_deref() != Some(&l) {
                        return self.err("labelled continue");
                    }
                }
                self.loop_next()
            }
            Expr::Break(b) => {
                if b.expr.is_some() {
                    return self.err("break with a value");
                }
                if b.label.as_ref().is_some_and(|l| !self.labels.contains(&Some(l.ident.to_string()))) {
                    return self.err("label");
                }
                let v = self.loops.last().map(|l| l.0.clone()).unwrap_or_default();
                self.loops.last_mut().unwrap().1 = true;
                format!("Ctl::Brk({})", tuple(&self.vars(&v)))
            }
            Expr::If(_) | Expr::Match(_) => {
                let pushes = matches!(k, K::Then { .. } | K::Bind { .. });
                if pushes && !has_escape(e) {
                    let vars = mutated(self.db, e);
                    let val = matches!(k, K::Bind { .. });
                    let kk = K::State { vars: vars.clone(), val };
                    let inner = self.branch(e, &kk);
                    let mut ns = vec![];
                    let vname = self.fresh("v");
                    if val {
                        ns.push(vname.clone());
                    }
                    ns.extend(self.vars(&vars));
                    let body = self.finish(Some(vname), k);
                    format!("{{ let {} = {inner}; {body} }}", tuple(&ns))
                } else if pushes && !self.opts.out.is_empty() && k_has_loop(k) && !has_loop_ctl(e) {
                    // the continuation has a loop: do not copy it into the branches
                    let vars = mutated(self.db, e);
                    let val = matches!(k, K::Bind { .. });
                    self.loops.push((vars.clone(), false));
                    self.labels.push(None);
                    let inner = self.branch(e, &K::Join { vars: vars.clone(), val });
                    self.loops.pop();
                    self.labels.pop();
                    let mut ns = vec![];
                    let vname = self.fresh("v");
                    if val {
                        ns.push(vname.clone());
                    }
                    ns.extend(self.vars(&vars));
                    let pb = if ns.is_empty() { "_".to_string() } else { tuple(&ns) };
                    let rv = self.fresh("r");
                    let retv = if self.loops.is_empty() {
                        rv.clone()
                    } else {
                        self.loops.last_mut().unwrap().1 = true;
                        format!("Ctl::Ret({rv})")
                    };
                    let body = self.finish(Some(vname), k);
                    format!("(match {inner} {{ Ctl::Ret({rv}) => {retv}, Ctl::Brk(_) => arbitrary(), Ctl::Next({pb}) => {{ {body} }} }})")
                } else {
                    self.branch(e, k)
                }
            }
            Expr::ForLoop(f) => self.for_loop(f, k),
            Expr::Assign(a) => {
                if effectful(self.db, &a.right) {
                    let t = self.fresh("t");
                    let ti = syn::Ident::new(&t, proc_macro2::Span::call_site());
                    let l = &a.left;
                    let st: Stmt = Stmt::Expr(syn::parse_quote!(#l = #ti), Some(Default::default()));
                    let k2 = K::Bind {
                        pat: syn::parse_quote!(#ti), ty: None,
                        rest: Rc::new(vec![st]),
                        k: Rc::new(k.clone()),
                    };
                    return self.eff(&a.right, &k2);
                }
                let v = self.e(&a.right);
                let s = self.set_place(&a.left, v);
                let r = self.finish(None, k);
                format!("{{ {s} {r} }}")
            }
            Expr::Binary(b) if is_assign_op(&b.op) => {
                if effectful(self.db, &b.right) {
                    let t = self.fresh("t");
                    let ti = syn::Ident::new(&t, proc_macro2::Span::call_site());
                    let l = &b.left;
                    let op = &b.op;
                    let st: Stmt = Stmt::Expr(syn::parse_quote!(#l #op #ti), Some(Default::default()));
                    let k2 = K::Bind {
                        pat: syn::parse_quote!(#ti), ty: None,
                        rest: Rc::new(vec![st]),
                        k: Rc::new(k.clone()),
                    };
                    return self.eff(&b.right, &k2);
                }
                let l = self.e(&b.left);
                let r = self.e(&b.right);
                use syn::BinOp::*;
                let op = match b.op {
                    AddAssign(_) => "+",
                    SubAssign(_) => "-",
                    MulAssign(_) => "*",
                    DivAssign(_) => "/",
                    RemAssign(_) => "%",
                    BitAndAssign(_) => ".x_bitand_assign",
                    BitOrAssign(_) => ".x_bitor_assign",
                    BitXorAssign(_) => ".x_bitxor_assign",
                    _ => return self.err("assign op"),
                };
                let v = if op.starts_with('.') {
                    format!("{l}{op}({r})")
                } else {
                    format!("({l} {op} {r})")
                };
                let s = self.set_place(&b.left, v);
                let r = self.finish(None, k);
                format!("{{ {s} {r} }}")
            }
            Expr::Try(t) => {
                if is_write(&t.expr) {
                    return self.eff(&t.expr, k);
                }
                if effectful(self.db, &t.expr) {
                    let n = self.fresh("t");
                    let ti = syn::Ident::new(&n, proc_macro2::Span::call_site());
                    let st: Stmt = Stmt::Expr(syn::parse_quote!(#ti?), None);
                    let k2 = K::Bind {
                        pat: syn::parse_quote!(#ti), ty: None,
                        rest: Rc::new(vec![st]),
                        k: Rc::new(k.clone()),
                    };
                    return self.eff(&t.expr, &k2);
                }
                let x = self.e(&t.expr);
                let n = self.fresh("q");
                let ok = self.finish(Some(n.clone()), k);
                if self.ret_opt {
                    let d = self.final_value(Some("None".into()));
                    format!("(match {x} {{ Some({n}) => {{ {ok} }}, None => {d} }})")
                } else {
                    let d = self.final_value(Some("Err(err__)".into()));
                    format!("(match {x} {{ Ok({n}) => {{ {ok} }}, Err(err__) => {d} }})")
                }
            }
            Expr::Macro(m) => {
                let n = mac_name(&m.mac);
                if n == "write" || n == "writeln" {
                    let Some(target) = write_target(&m.mac) else {
                        return self.err("write! target");
                    };
                    let txt = self.format_args(&m.mac, 1, n == "writeln");
                    let l = self.e(&target);
                    let s = self.set_place(&target, format!("{l}.x_append({txt})"));
                    let r = self.finish(None, k);
                    return format!("{{ {s} {r} }}");
                }
                self.err(format!("macro {n}!"))
            }
            Expr::MethodCall(m) => self.eff_method(m, k),
            Expr::Call(c) => {
                // hoist effects in args first
                let idx = call_muts(self.db, c);
                if !c.args.iter().enumerate().any(|(i, a)| !idx.contains(&i) && effectful(self.db, a))
                    && !idx.is_empty()
                {
                    let name = match &*c.func {
                        Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        _ => return self.err("call"),
                    };
                    let call = {
                        let f = self.callee(&c.func, c.args.len());
                        let args: Vec<String> = c.args.iter().map(|a| self.e(a)).collect();
                        format!("{f}({})", args.join(", "))
                    };
                    let places: Vec<Expr> = idx.iter().map(|i| c.args[*i].clone()).collect();
                    let info = self.db.fns.iter().find(|f| f.name == name);
                    let unit = info.map(|f| ret_is_unit(&f.sig)).unwrap_or(true);
                    return self.eff_result(call, &places, !unit, k);
                }
                self.hoist(e, k)
            }
            Expr::While(_) | Expr::Loop(_) => self.err("while/loop"),
            _ => self.hoist(e, k),
        }
    }

    fn eff_result(&mut self, call: String, places: &[Expr], val: bool, k: &K) -> String {
        let mut names = vec![];
        let v = self.fresh("v");
        if val {
            names.push(v.clone());
        }
        let mut sets = String::new();
        for p in places {
            let root = unref(p);
            if let Some(id) = ident_of(root) {
                names.push(if id == "self" { self.self_name.clone() } else { clean(&id) });
            } else {
                let t = self.fresh("m");
                names.push(t.clone());
                sets.push_str(&self.set_place(root, t));
            }
        }
        let r = self.finish(if val { Some(v) } else { None }, k);
        format!("{{ let {} = {call}; {sets} {r} }}", tuple(&names))
    }

    fn eff_method(&mut self, m: &syn::ExprMethodCall, k: &K) -> String {
        let whole = Expr::MethodCall(m.clone());
        let name = m.method.to_string();
        let Some((recv, idx)) = mutating(self.db, m) else {
            return self.hoist(&whole, k);
        };
        // effects in the remaining sub-expressions first
        if m.args.iter().enumerate().any(|(i, a)| !idx.contains(&i) && effectful(self.db, a)) {
            return self.hoist(&whole, k);
        }
        let local = self.db.muts.contains_key(&name)
            && self.db.fns.iter().any(|f| f.name == name && f.sig.inputs.len() == m.args.len() + 1
                && !MUT_STD.iter().any(|x| x.0 == name && x.0 != "retain"));
        let r = self.e(&m.receiver);
        let (r, mname, rt) = self.recv_method(&m.receiver, r, &name);
        let ct = self.closure_params(rt.as_deref(), &name, m);
        let args: Vec<String> = m.args.iter().map(|a| self.func_or_e_t(a, &ct)).collect();
        let mut places = vec![];
        let (fname, val) = if local {
            let info = self
                .db
                .fns
                .iter()
                .find(|f| f.name == name && f.sig.inputs.len() == m.args.len() + 1)
                .unwrap();
            (mname, !ret_is_unit(&info.sig))
        } else {
            let val = MUT_STD.iter().find(|x| x.0 == name).map(|x| x.1).unwrap_or(!is_write(&whole));
            (format!("x_{name}"), val)
        };
        let val = val && !(is_write(&whole) && !self.opts.out.is_empty());
        if ident_of(&m.receiver).as_deref() == Some("self") {
            self.calls.insert((self.impl_ty.clone(), name.clone()));
        }
        for i in idx {
            places.push(m.args[i].clone());
        }
        let call = format!("{r}.{fname}({})", args.join(", "));
        if recv {
            // receiver comes first among the returned states
            let mut p2 = vec![(*m.receiver).clone()];
            p2.extend(places);
            places = p2;
        }
        self.eff_result(call, &places, val, k)
    }

    /// Pull the first effectful sub-expression out into a binding.
    fn hoist(&mut self, e: &Expr, k: &K) -> String {
        let mut e2 = e.clone();
        let n = self.fresh("h");
        match take_effect(self.db, &mut e2, &n, true) {
            Some(sub) => {
                let ti = syn::Ident::new(&n, proc_macro2::Span::call_site());
                let ty = self.infer(&sub);
                let k2 = K::Bind {
                    pat: syn::parse_quote!(#ti), ty,
                    rest: Rc::new(vec![Stmt::Expr(e2, None)]),
                    k: Rc::new(k.clone()),
                };
                self.eff(&sub, &k2)
            }
            None => { let t = quote::quote!(#e).to_string(); self.err(format!("effect in an unsupported position: {}", &t[..t.len().min(200)])) }
        }
    }

    fn set_place(&mut self, l: &Expr, v: String) -> String {
        match unparen(l) {
            Expr::Path(_) => {
                let id = ident_of(l).unwrap_or_default();
                let n = if id == "self" { self.self_name.clone() } else { clean(&id) };
                format!("let {n} = {v};")
            }
            Expr::Unary(u) => self.set_place(&u.expr, v),
            Expr::Reference(u) => self.set_place(&u.expr, v),
            Expr::Field(f) => {
                let base = self.e(&f.base);
                if let (syn::Member::Unnamed(_), Some(id)) = (&f.member, ident_of(&f.base)) {
                    if self.newty_params.contains(&id) {
                        return self.set_place(&f.base, v);
                    }
                }
                let fld = match &f.member {
                    syn::Member::Named(i) => clean(&i.to_string()),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                let upd = format!("{base}.upd_{fld}({v})");
                self.set_place(&f.base, upd)
            }
            Expr::Index(i) => {
                let base = self.e(&i.expr);
                let ix = self.e(&i.index);
                let upd = format!("{base}.x_update({ix}, {v})");
                self.set_place(&i.expr, upd)
            }
            _ => {
                self.err("assignment target");
                String::new()
            }
        }
    }

    fn branch(&mut self, e: &Expr, k: &K) -> String {
        match e {
            Expr::If(i) => {
                let conj = conjuncts(&i.cond);
                let then = i.then_branch.stmts.clone();
                let els = i.else_branch.as_ref().map(|x| (*x.1).clone());
                self.cond(&conj, &then, els.as_ref(), k)
            }
            Expr::Match(m) => {
                if effectful(self.db, &m.expr) {
                    let n = self.fresh("s");
                    let ti = syn::Ident::new(&n, proc_macro2::Span::call_site());
                    let mut m2 = m.clone();
                    m2.expr = Box::new(syn::parse_quote!(#ti));
                    let ty = self.infer(&m.expr);
                    let k2 = K::Bind {
                        pat: syn::parse_quote!(#ti), ty,
                        rest: Rc::new(vec![Stmt::Expr(Expr::Match(m2), None)]),
                        k: Rc::new(k.clone()),
                    };
                    let x = m.expr.clone();
                    return self.eff(&x, &k2);
                }
                self.match_(m, k)
            }
            _ => self.eff(e, k),
        }
    }

    /// a name bound by a pattern is changed without being a variable of its
    /// own: the change goes to what was matched, which is not translated
    fn no_alias(&mut self, p: &Pat, changed: Vec<String>) {
        let b = pat_shared(p);
        if let Some(x) = changed.iter().find(|x| b.contains(*x)) {
            self.err(format!("mutable alias `{x}` in a pattern"));
        }
    }

    fn match_(&mut self, m: &syn::ExprMatch, k: &K) -> String {
        // string / byte-string literal patterns: chain of equalities
        let has_str = m.arms.iter().any(|a| pat_has_str(&a.pat));
        let s = self.e(&m.expr);
        if has_str {
            let n = self.fresh("s");
            let mut out = String::new();
            let mut closed = false;
            for a in &m.arms {
                let mut lits = vec![];
                let body = a.body.clone();
                if collect_lits(&a.pat, &mut lits) {
                    let c: Vec<String> =
                        lits.iter().map(|b| format!("{n} == {}", byte_seq(b))).collect();
                    let mut cs = format!("({})", c.join(" || "));
                    if let Some((_, g)) = &a.guard {
                        let g = self.e(g);
                        cs = format!("({cs} && {g})");
                    }
                    let b = self.eff(&body, k);
                    out.push_str(&format!("if {cs} {{ {b} }} else "));
                } else if matches!(a.pat, Pat::Wild(_)) && a.guard.is_none() {
                    let b = self.eff(&body, k);
                    out.push_str(&format!("{{ {b} }}"));
                    closed = true;
                    break;
                } else if let (Pat::Ident(i), None) = (&a.pat, &a.guard) {
                    let b = self.eff(&body, k);
                    out.push_str(&format!("{{ let {} = {n}; {b} }}", clean(&i.ident.to_string())));
                    closed = true;
                    break;
                } else {
                    return self.err("match: mixed string patterns");
                }
            }
            if !closed {
                out.push_str("{ arbitrary() }");
            }
            return format!("{{ let {n} = {s}; {out} }}");
        }
        // a path scrutinee of reference-to-Box type matches through the box
        let mut arms = vec![];
        let sty = self.infer(&m.expr);
        for a in &m.arms {
            let mut extra = vec![];
            if let Some(t) = &sty {
                self.bind_pat(&a.pat, t);
            }
            let p = self.pat_x(&a.pat, &mut extra);
            let mut g = a.guard.as_ref().map(|(_, g)| self.e(g));
            for x in extra {
                g = Some(match g {
                    None => x,
                    Some(y) => format!("({x} && {y})"),
                });
            }
            self.no_alias(&a.pat, mutated(self.db, &a.body));
            let b = self.eff(&a.body, k);
            match g {
                Some(g) => arms.push(format!("{p} if {g} => {{ {b} }}")),
                None => arms.push(format!("{p} => {{ {b} }}")),
            }
        }
        format!("(match {s} {{ {} }})", arms.join(", "))
    }

    fn cond(&mut self, conj: &[Expr], then: &[Stmt], els: Option<&Expr>, k: &K) -> String {
        if conj.is_empty() {
            return self.stmts(then, k);
        }
        // effects inside the condition
        if let Some(c0) = conj.first() {
            let inner = match c0 {
                Expr::Let(l) => (*l.expr).clone(),
                x => x.clone(),
            };
            if effectful(self.db, &inner) {
                let n = self.fresh("c");
                let ti = syn::Ident::new(&n, proc_macro2::Span::call_site());
                let mut conj2 = conj.to_vec();
                match &mut conj2[0] {
                    Expr::Let(l) => l.expr = Box::new(syn::parse_quote!(#ti)),
                    x => *x = syn::parse_quote!(#ti),
                }
                let cond = rejoin(&conj2);
                let blk = syn::Block { brace_token: Default::default(), stmts: then.to_vec() };
                let ife = Expr::If(syn::ExprIf {
                    attrs: vec![],
                    if_token: Default::default(),
                    cond: Box::new(cond),
                    then_branch: blk,
                    else_branch: els.map(|e| (Default::default(), Box::new(e.clone()))),
                });
                let k2 = K::Bind {
                    pat: syn::parse_quote!(#ti), ty: None,
                    rest: Rc::new(vec![Stmt::Expr(ife, None)]),
                    k: Rc::new(k.clone()),
                };
                return self.eff(&inner, &k2);
            }
        }
        let split = conj.iter().any(|c| matches!(c, Expr::Let(_)))
            || conj.iter().skip(1).any(|c| effectful(self.db, c));
        if !split {
            let cs: Vec<String> = conj.iter().map(|c| self.e(c)).collect();
            let t = self.stmts(then, k);
            let f = match els {
                Some(e) => self.eff(e, k),
                None => self.finish(None, k),
            };
            return format!("(if {} {{ {t} }} else {{ {f} }})", cs.join(" && "));
        }
        if conj.is_empty() {
            return self.stmts(then, k);
        }
        if let Expr::Let(l) = &conj[0] {
            if let Some(t) = self.infer(&l.expr) {
                self.bind_pat(&l.pat, &t);
            }
            let blk = syn::Block { brace_token: Default::default(), stmts: then.to_vec() };
            self.no_alias(&l.pat, mutated_block(self.db, &blk));
        }
        let inner = self.cond(&conj[1..], then, els, k);
        let f = match els {
            Some(e) => self.eff(e, k),
            None => self.finish(None, k),
        };
        match &conj[0] {
            Expr::Let(l) => {
                let x = self.e(&l.expr);
                if pat_has_str(&l.pat) {
                    let mut lits = vec![];
                    if collect_lits(&l.pat, &mut lits) {
                        let c: Vec<String> = lits.iter().map(|b| format!("({x}) == {}", byte_seq(b))).collect();
                        return format!("(if {} {{ {inner} }} else {{ {f} }})", c.join(" || "));
                    }
                }
                let mut extra = vec![];
                let p = self.pat_x(&l.pat, &mut extra);
                let g = if extra.is_empty() { String::new() } else { format!(" if {}", extra.join(" && ")) };
                format!("(match {x} {{ {p}{g} => {{ {inner} }}, _ => {{ {f} }} }})")
            }
            c => {
                let c = self.e(c);
                format!("(if {c} {{ {inner} }} else {{ {f} }})")
            }
        }
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop, k: &K) -> String {
        if effectful(self.db, &f.expr) {
            let n = self.fresh("it");
            let ti = syn::Ident::new(&n, proc_macro2::Span::call_site());
            let mut f2 = f.clone();
            f2.expr = Box::new(syn::parse_quote!(#ti));
            let ty = self.infer(&f.expr);
            let k2 = K::Bind {
                pat: syn::parse_quote!(#ti), ty,
                rest: Rc::new(vec![Stmt::Expr(Expr::ForLoop(f2), Some(Default::default()))]),
                k: Rc::new(k.clone()),
            };
            let x = f.expr.clone();
            return self.eff(&x, &k2);
        }
        let mut it = self.e(&f.expr);
        if self.infer(&f.expr).is_some_and(|t| t.starts_with("Map<")) {
            it = format!("{it}.x_items()");
        }
        let body = &f.body;
        let mut bound = HashSet::new();
        pat_idents(&f.pat, &mut bound);
        self.no_alias(&f.pat, mutated_block(self.db, body));
        if matches!(&*f.expr, Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "iter_mut" | "values_mut")) {
            return self.err("loop over mutable references");
        }
        let vars: Vec<_> = mutated_block(self.db, body).into_iter().filter(|v| !bound.contains(v)).collect();
        let ety = self.infer(&f.expr).and_then(|t| crate::infer::elem(&t));
        if let Some(t) = &ety {
            self.bind_pat(&f.pat, t);
        }
        let eann = match &ety {
            Some(t) if !t.contains('?') => format!(": {t}"),
            _ => String::new(),
        };
        let ann = |p: String| if p.contains(':') { p } else { format!("{p}{eann}") };
        for v in &vars {
            if self.tys.get(v).is_none_or(|t| t.contains('?')) {
                let all = self.all_stmts.clone();
                if let Some(t) = self.infer_push(v, &body.stmts).or_else(|| self.infer_push(v, &all)) {
                    self.tys.insert(v.clone(), t);
                }
            }
        }
        let accty: Option<Vec<String>> = vars.iter().map(|v| self.tys.get(v).cloned()).collect();
        let accann = match accty {
            Some(v) if !v.iter().any(|x| x.contains('?')) => format!(": {}", tuple(&v)),
            _ => String::new(),
        };
        // canonical forms
        if vars.is_empty() {
            if let Some((conj, ret)) = single_if_return(&body.stmts) {
                if !conj.iter().any(|c| matches!(c, Expr::Let(_)) || effectful(self.db, c)) {
                    let cs: Vec<String> = conj.iter().map(|c| self.e(c)).collect();
                    let (p, b) = self.closure_head(&f.pat);
        let p = ann(p);
                    let pred = format!("|{p}| {{ {b} {} }}", cs.join(" && "));
                    let mut ids = HashSet::new();
                    pat_idents(&f.pat, &mut ids);
                    let uses = ret.as_ref().is_some_and(|r| mentions(r, &ids));
                    if !uses {
                        let t = match &ret {
                            Some(r) => self.eff(r, &K::Ret),
                            None => self.final_value(None),
                        };
                        let e = self.finish(None, k);
                        return format!("(if {it}.x_any({pred}) {{ {t} }} else {{ {e} }})");
                    }
                    let pp = self.pat(&f.pat);
                    let t = self.eff(ret.as_ref().unwrap(), &K::Ret);
                    let e = self.finish(None, k);
                    return format!(
                        "(match {it}.x_find({pred}) {{ Some({pp}) => {{ {t} }}, None => {{ {e} }} }})"
                    );
                }
            }
        }
        if vars.len() == 1 && !block_escape(body) {
            if let Some((conj, op, arg)) = single_if_acc(&body.stmts, &vars[0]) {
                if !conj.iter().any(|c| matches!(c, Expr::Let(_)) || effectful(self.db, c)) {
                    let mut ids = HashSet::new();
                    ids.insert(vars[0].clone());
                    if !conj.iter().any(|c| mentions(c, &ids)) && !mentions(&arg, &ids) {
                        let (p, b) = self.closure_head(&f.pat);
        let p = ann(p);
                        let cs: Vec<String> = conj.iter().map(|c| self.e(c)).collect();
                        let src = if cs.is_empty() {
                            it.clone()
                        } else {
                            format!("{it}.x_filter(|{p}| {{ {b} {} }})", cs.join(" && "))
                        };
                        let v = self.vars(&vars)[0].clone();
                        let a = self.e(&arg);
                        let set = match op.as_str() {
                            "count" => format!("let {v} = {v} + {src}.x_count();"),
                            _ => format!("let {v} = {v}.x_append({src}.x_map(|{p}| {{ {b} {a} }}));"),
                        };
                        let r = self.finish(None, k);
                        return format!("{{ {set} {r} }}");
                    }
                }
            }
        }
        self.loops.push((vars.clone(), false));
        let label = f.label.as_ref().map(|l| l.name.ident.to_string());
        self.labels.push(label.clone());
        let inner = self.stmts(&body.stmts, &K::Loop);
        self.labels.pop();
        let (_, ctl) = self.loops.pop().unwrap();
        // breaks out of an enclosing loop
        let through = outer_breaks(body, label.as_deref());
        if through.0 && through.1 {
            return self.err("a loop with breaks of its own and of an enclosing loop");
        }
        let vs = self.vars(&vars);
        let st = tuple(&vs);
        let (p, b) = self.closure_head(&f.pat);
        let p = ann(p);
        let acc = self.fresh("acc");
        let bind = if vs.is_empty() { String::new() } else { format!("let {st} = {acc};") };
        let _ = ctl;
        let esc = block_escape(body);
        if esc {
            let next = self.finish(None, k);
            let rv = self.fresh("r");
            let retv = if self.loops.is_empty() {
                rv.clone()
            } else {
                self.loops.last_mut().unwrap().1 = true;
                format!("Ctl::Ret({rv})")
            };
            let pb = if vs.is_empty() { "_".to_string() } else { st.clone() };
            let brk = if through.0 {
                // propagate: the enclosing loop ends, too
                let v = self.loops.last().map(|l| l.0.clone()).unwrap_or_default();
                format!("Ctl::Brk({})", tuple(&self.vars(&v)))
            } else {
                next.clone()
            };
            if !self.opts.out.is_empty() && !through.0 {
                return format!(
                    "(match {it}.x_for({st}, |{acc}{accann}, {p}| {{ {b} {bind} {inner} }}) {{ Ctl::Ret({rv}) => {retv}, Ctl::Next({pb}) | Ctl::Brk({pb}) => {{ {next} }} }})"
                );
            }
            format!(
                "(match {it}.x_for({st}, |{acc}{accann}, {p}| {{ {b} {bind} {inner} }}) {{ Ctl::Ret({rv}) => {retv}, Ctl::Next({pb}) => {{ {next} }}, Ctl::Brk({pb}) => {{ {brk} }} }})"
            )
        } else {
            let inner = inner.replace("Ctl::Next(", "(");
            let next = self.finish(None, k);
            let st_or = if vs.is_empty() { "_".to_string() } else { st.clone() };
            format!(
                "{{ let {st_or} = {it}.x_fold({st}, |{acc}{accann}, {p}| {{ {b} {bind} {inner} }}); {next} }}"
            )
        }
    }

    /// (parameter name, destructuring lets)
    fn closure_head(&mut self, p: &Pat) -> (String, String) {
        match p {
            Pat::Ident(i) if i.subpat.is_none() => (clean(&i.ident.to_string()), String::new()),
            Pat::Reference(r) => self.closure_head(&r.pat),
            Pat::Paren(r) => self.closure_head(&r.pat),
            Pat::Wild(_) => (self.fresh("w"), String::new()),
            Pat::Type(t) => {
                let (n, b) = self.closure_head(&t.pat);
                if has_infer(&t.ty) {
                    return (n, b);
                }
                let ty = self.ty(&t.ty);
                (format!("{n}: {ty}"), b)
            }
            _ => {
                let n = self.fresh("p");
                let s = self.pat(p);
                (n.clone(), format!("let {s} = {n};"))
            }
        }
    }

    // ---------------------------------------------------------- patterns

    pub fn pat(&mut self, p: &Pat) -> String {
        let mut x = vec![];
        let s = self.pat_x(p, &mut x);
        if !x.is_empty() {
            self.err("pattern needs a guard here");
        }
        s
    }

    fn pat_x(&mut self, p: &Pat, guards: &mut Vec<String>) -> String {
        match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if let Some(e) = self.variants.get(&n) {
                    return format!("{e}::{n}");
                }
                if n == "None" {
                    return n;
                }
                if i.subpat.is_some() {
                    self.err("pattern: @");
                }
                if !self.local_consts.contains(&n) && n.chars().next().unwrap().is_uppercase() && n.len() > 1 && n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) {
                    self.err("pattern: constant");
                }
                clean(&n)
            }
            Pat::Wild(_) => "_".into(),
            Pat::Rest(_) => "..".into(),
            Pat::Reference(r) => self.pat_x(&r.pat, guards),
            Pat::Paren(r) => self.pat_x(&r.pat, guards),
            Pat::Type(t) => self.pat_x(&t.pat, guards),
            Pat::Tuple(t) => {
                let v: Vec<String> = t.elems.iter().map(|x| self.pat_x(x, guards)).collect();
                if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
            }
            Pat::Or(o) => {
                let v: Vec<String> = o.cases.iter().map(|x| self.pat_x(x, guards)).collect();
                v.join(" | ")
            }
            Pat::Path(p) => self.path(&p.path),
            Pat::TupleStruct(t) => {
                let last = t.path.segments.last().unwrap().ident.to_string();
                if self.is_newtype(&last) && t.path.segments.len() == 1 && t.elems.len() == 1 {
                    return self.pat_x(&t.elems[0], guards);
                }
                let pth = self.path(&t.path);
                let v: Vec<String> = t.elems.iter().map(|x| self.pat_x(x, guards)).collect();
                format!("{pth}({})", v.join(", "))
            }
            Pat::Struct(s) => {
                let pth = self.path(&s.path);
                let mut v: Vec<String> = vec![];
                for f in &s.fields {
                    let n = match &f.member {
                        syn::Member::Named(i) => clean(&i.to_string()),
                        syn::Member::Unnamed(i) => i.index.to_string(),
                    };
                    let x = self.pat_x(&f.pat, guards);
                    v.push(format!("{n}: {x}"));
                }
                if s.rest.is_some() {
                    v.push("..".into());
                }
                format!("{pth} {{ {} }}", v.join(", "))
            }
            Pat::Lit(l) => {
                let s = match &l.lit {
                    syn::Lit::Byte(b) => format!("{}u8", b.value()),
                    syn::Lit::Int(i) => {
                        let n = self.fresh("lit");
                        guards.push(format!("{n} == {}", i.base10_digits()));
                        return n;
                    }
                    syn::Lit::Bool(b) => b.value.to_string(),
                    syn::Lit::Char(c) => format!("{:?}", c.value()),
                    syn::Lit::Str(_) | syn::Lit::ByteStr(_) => {
                        let b = lit_bytes(&l.lit);
                        let n = self.fresh("lit");
                        guards.push(format!("{n} == {}", byte_seq(&b)));
                        return n;
                    }
                    _ => self.err("pattern literal"),
                };
                s
            }
            Pat::Range(r) => {
                let n = self.fresh("rg");
                let mut c = vec![];
                if let Some(l) = &r.start {
                    let l = self.e(l);
                    c.push(format!("{l} <= {n}"));
                }
                if let Some(h) = &r.end {
                    let op = if matches!(r.limits, syn::RangeLimits::Closed(_)) { "<=" } else { "<" };
                    let h = self.e(h);
                    c.push(format!("{n} {op} {h}"));
                }
                guards.push(format!("({})", c.join(" && ")));
                n
            }
            _ => self.err("pattern"),
        }
    }

    fn path(&mut self, p: &syn::Path) -> String {
        let mut segs: Vec<String> = p
            .segments
            .iter()
            .map(|s| s.ident.to_string())
            .filter(|s| !matches!(s.as_str(), "crate" | "super" | "self_"))
            .collect();
        if segs.len() == 1 {
            let n = &segs[0];
            if n == "self" {
                return self.self_name.clone();
            }
            if let Some(e) = self.variants.get(n) {
                return format!("{e}::{n}");
            }
            if n == "Self" {
                return self.impl_ty.clone().unwrap_or("Self".into());
            }
            if let Some(t) = self.cfg.tymap.get(n) {
                return t.clone();
            }
            return clean(n);
        }
        if segs[0] == "Self" {
            segs[0] = self.impl_ty.clone().unwrap_or("Self".into());
        }
        if let Some(t) = self.cfg.tymap.get(&segs[0]) {
            segs[0] = t.clone();
        }
        segs.retain(|s| s != "self");
        self.pathmap(segs.join("::"))
    }

    // ---------------------------------------------------------- pure expressions

    fn method_name(&self, n: &str) -> String {
        if self.cfg.std_methods.contains(&format!("x_{n}")) {
            format!("x_{n}")
        } else {
            clean(n)
        }
    }

    fn callee(&mut self, f: &Expr, _nargs: usize) -> String {
        match f {
            Expr::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap().clone();
                if segs.len() == 1 {
                    if self.db.fns.iter().any(|f| f.impl_ty.is_none() && f.name == last) {
                        self.calls.insert((None, last.clone()));
                    }
                    return self.path(&p.path);
                }
                let q = segs[segs.len() - 2].clone();
                if q == "Self" {
                    self.calls.insert((self.impl_ty.clone(), last.clone()));
                    if !last.chars().next().unwrap().is_uppercase() {
                        let n = self.method_name(&last);
                        return format!("{}::{n}", self.impl_ty.clone().unwrap_or_default());
                    }
                } else if self.db.fns.iter().any(|f| f.impl_ty.as_deref() == Some(&q) && f.name == last) {
                    self.calls.insert((Some(q.clone()), last.clone()));
                }
                self.path(&p.path)
            }
            _ => {
                let x = self.e(f);
                format!("({x})")
            }
        }
    }

    /// A function-valued argument (closure, path) or a plain expression.
    fn func_or_e(&mut self, a: &Expr) -> String {
        self.func_or_e_t(a, &[])
    }

    fn func_or_e_t(&mut self, a: &Expr, ptys: &[Option<String>]) -> String {
        match unparen(a) {
            Expr::Path(p) if self.is_fn_path(&p.path) && ident_of(a).is_none_or(|n| !self.tys.contains_key(&n)) => {
                self.func_t(a, ptys)
            }
            Expr::Closure(c) => self.closure(c, ptys),
            _ => self.e(a),
        }
    }

    /// (receiver text after Deref steps, emitted method name)
    fn recv_method(&mut self, recv: &Expr, r: String, n: &str) -> (String, String, Option<String>) {
        let t = self.infer(recv);
        if let Some(t0) = t.clone() {
            let mut t1 = t0.clone();
            let mut r1 = r.clone();
            for _ in 0..4 {
                if !self.is_user(&t1) {
                    break;
                }
                if self.has_method(&t1, n) {
                    if ident_of(unref(recv)).as_deref() != Some("self") || t1 != t0 {
                        self.calls.insert((Some(t1.clone()), n.to_string()));
                    }
                    return (r1, clean(n), Some(t1));
                }
                match self.deref_field(&t1) {
                    Some((f, t)) => {
                        r1 = format!("{r1}.{}", clean(&f));
                        t1 = t;
                    }
                    None => break,
                }
            }
            if t1 != t0 && !self.is_user(&t1) {
                return (r1, self.method_name(n), Some(t1));
            }
        }
        (r, self.method_name(n), t)
    }

    fn is_fn_path(&self, p: &syn::Path) -> bool {
        let n = p.segments.last().unwrap().ident.to_string();
        if p.segments.len() >= 2 {
            // an enum constructor with fields, or an associated function
            let q = p.segments[p.segments.len() - 2].ident.to_string();
            let q = if q == "Self" { self.impl_ty.clone().unwrap_or_default() } else { q };
            if let Some(en) = self.db.enums.iter().find(|e| e.1.ident == q && e.1.variants.iter().any(|v| v.ident == n)) {
                return en.1.variants.iter().any(|v| v.ident == n && !matches!(v.fields, syn::Fields::Unit));
            }
            return n.chars().next().unwrap().is_lowercase();
        }
        if n == "Some" || n == "Ok" || n == "Err" {
            return true;
        }
        if self.variants.contains_key(&n) {
            let q = &self.variants[&n];
            return self.db.enums.iter().any(|e| e.1.ident == *q && e.1.variants.iter().any(|v| v.ident == n && !matches!(v.fields, syn::Fields::Unit)));
        }
        if self.db.structs.iter().any(|s| s.1.ident == n) {
            return true;
        }
        !self.tys.contains_key(&n) && self.db.fns.iter().any(|f| f.impl_ty.is_none() && f.name == n)
            && n != "subfields" && n != "fields"
    }

    /// A closure or a path used as a function.
    fn func(&mut self, a: &Expr) -> String {
        self.func_t(a, &[])
    }

    /// annotate a path-made closure with its parameter type
    fn func_t(&mut self, a: &Expr, ptys: &[Option<String>]) -> String {
        match unparen(a) {
            Expr::Closure(c) => self.closure(c, ptys),
            Expr::Path(_) => {
                let f = self.func_p(a);
                match ptys.first() {
                    Some(Some(t)) if t == "int" && f == "(|z_| z_)" && self.closure_ret(unparen(a), &[t.clone()]).as_deref() == Some("u8") => {
                        "(|z_: int| z_ as u8)".into()
                    }
                    Some(Some(t)) if f.contains("_::x_default()") && t.starts_with("Option<") => {
                        let el = crate::infer::elem(t).unwrap_or_default();
                        f.replacen("(|z_| ", &format!("(|z_: {t}| "), 1).replace("_::x_default()", &format!("{el}::x_default()"))
                    }
                    Some(Some(t)) if f.starts_with("(|z_| ") && !t.contains('?') => {
                        f.replacen("(|z_| ", &format!("(|z_: {t}| "), 1)
                    }
                    _ => f,
                }
            }
            _ => self.e(a),
        }
    }

    fn func_p(&mut self, a: &Expr) -> String {
        match unparen(a) {
            Expr::Path(p) if self.is_fn_path(&p.path) || self.is_newtype(&p.path.segments.last().unwrap().ident.to_string()) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap().clone();
                if segs.len() == 1 && self.is_newtype(&last) {
                    return "(|z_| z_)".into();
                }
                if segs.len() >= 2 {
                    let q = segs[segs.len() - 2].clone();
                    let q = if q == "Self" { self.impl_ty.clone().unwrap_or_default() } else { q };
                    if self.is_newtype(&q) && matches!(last.as_str(), "from" | "from_unchecked") {
                        return "(|z_| z_)".into();
                    }
                    if matches!(q.as_str(), "String" | "Vec" | "BString") && matches!(last.as_str(), "is_empty" | "len") {
                        return format!("(|z_: Seq<u8>| z_.x_{last}())");
                    }
                    if matches!(q.as_str(), "String" | "Vec" | "BString" | "Into" | "ToString" | "ToOwned" | "Clone" | "AsRef") {
                        return "(|z_| z_)".into();
                    }
                    if last == "from" {
                        let q = self.cfg.tymap.get(&q).cloned().unwrap_or(q);
                        return format!("(|z_| {q}::x_from(z_))");
                    }
                    if q == "Option" && last == "unwrap_or_default" {
                        return "(|z_| match z_ { Some(d__) => d__, None => _::x_default() })".into();
                    }
                    if last.chars().next().unwrap().is_lowercase() {
                        if self.db.fns.iter().any(|f| f.impl_ty.as_deref() == Some(&q) && f.name == last && f.sig.receiver().is_some()) {
                            return format!("(|z_: {q}| z_.{}())", self.method_name(&last));
                        }
                        if let Some(n) = self.cfg.std_methods.get(&format!("x_{last}")) {
                            return format!("(|z_| z_.{n}())");
                        }
                    }
                }
                let c = self.callee(a, 1);
                format!("(|z_| {c}(z_))")
            }
            Expr::Closure(c) => {
                // `|acc, x|`-style closures keep their arity
                self.closure(c, &[])
            }
            _ => self.e(a),
        }
    }

    fn closure(&mut self, c: &syn::ExprClosure, ptys: &[Option<String>]) -> String {
        let save_tys = self.tys.clone();
        let mut ps = vec![];
        let mut pre = String::new();
        // a closure has its own return scope
        let saved = (
            std::mem::take(&mut self.loops),
            std::mem::take(&mut self.mut_params),
            self.ret_unit,
            self.ret_opt,
        );
        let saved_labels = std::mem::take(&mut self.labels);
        let saved_out = std::mem::take(&mut self.opts.out);
        self.ret_unit = false;
        for (i, p) in c.inputs.iter().enumerate() {
            let t = ptys.get(i).cloned().flatten();
            if let Some(t) = &t {
                self.bind_pat(p, t);
            }
            if let Pat::Type(pt) = p {
                if !has_infer(&pt.ty) {
                    let k = self.errors.len();
                    let t = self.ty(&pt.ty);
                    self.errors.truncate(k);
                    self.bind_pat(&pt.pat, &t);
                }
            }
            let (n, b) = self.closure_head(p);
            match t {
                Some(t) if !n.contains(':') && !t.contains('?') => ps.push(format!("{n}: {t}")),
                _ => ps.push(n),
            }
            pre.push_str(&b);
        }
        let mv = mutated(self.db, &c.body);
        let mut local = HashSet::new();
        for p in &c.inputs {
            pat_idents(p, &mut local);
        }
        let captured: Vec<&String> = mv.iter().filter(|v| !local.contains(*v)).collect();
        let body = if !captured.is_empty() {
            self.err(format!("closure mutates captured {captured:?}"))
        } else {
            let b = c.body.clone();
            self.eff(&b, &K::Ret)
        };
        self.loops = saved.0;
        self.mut_params = saved.1;
        self.ret_unit = saved.2;
        self.ret_opt = saved.3;
        self.labels = saved_labels;
        self.opts.out = saved_out;
        self.tys = save_tys;
        format!("(|{}| {{ {pre} {body} }})", ps.join(", "))
    }

    pub fn e(&mut self, e: &Expr) -> String {
        match e {
            Expr::Paren(p) => self.e(&p.expr),
            Expr::Group(p) => self.e(&p.expr),
            Expr::Reference(r) => self.e(&r.expr),
            Expr::Unary(u) => {
                let x = self.e(&u.expr);
                match u.op {
                    syn::UnOp::Deref(_) => {
                        // a Box needs an explicit dereference; references vanish
                        match unparen(&u.expr) {
                            Expr::Field(f) if self.boxed_field(f) => format!("(*{x})"),
                            _ => x,
                        }
                    }
                    syn::UnOp::Not(_) => {
                        if self.opts.uses.iter().any(|x| x == "opnot") {
                            format!("{x}.x_not()")
                        } else {
                            format!("(!{x})")
                        }
                    }
                    syn::UnOp::Neg(_) => format!("(-{x})"),
                    _ => self.err("unary"),
                }
            }
            Expr::Lit(l) => match &l.lit {
                syn::Lit::Byte(b) => format!("{}u8", b.value()),
                syn::Lit::Int(i) => {
                    if i.suffix() == "f64" {
                        format!("x_f64_lit({})", byte_seq(format!("{}.0", i.base10_digits()).as_bytes()))
                    } else if i.suffix() == "u8" { format!("{}u8", i.base10_digits()) } else { i.base10_digits().to_string() }
                }
                syn::Lit::Bool(b) => b.value.to_string(),
                syn::Lit::Char(c) if (c.value() as u32) < 128 && self.cfg.tymap.get("char").is_some_and(|t| t == "u8") => format!("{}u8", c.value() as u32),
                syn::Lit::Char(c) => format!("{:?}", c.value()),
                syn::Lit::Str(_) | syn::Lit::ByteStr(_) => byte_seq(&lit_bytes(&l.lit)),
                syn::Lit::Float(f) => format!("x_f64_lit({})", byte_seq(f.base10_digits().as_bytes())),
                _ => self.err("literal"),
            },
            Expr::Path(p) => {
                if p.path.segments.len() == 2 {
                    let s = quote::quote!(#p).to_string().replace(' ', "");
                    match s.as_str() {
                        "usize::MAX" | "u64::MAX" => return "0xFFFF_FFFF_FFFF_FFFF".into(),
                        "u32::MAX" => return "0xFFFF_FFFF".into(),
                        _ => {}
                    }
                }
                let n = p.path.segments.last().unwrap().ident.to_string();
                if !self.tys.contains_key(&n) {
                    if let Some(x) = self.cfg.statics.iter().find(|x| x.0 == self.file && x.1 == n) {
                        return x.2.clone();
                    }
                }
                if n.len() > 1 && n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) {
                    // a constant: inline its initialiser
                    let c = self
                        .db
                        .consts
                        .iter()
                        .find(|c| c.1 == n && c.0 == self.file)
                        .or_else(|| self.db.consts.iter().find(|c| c.1 == n))
                        .cloned();
                    if let Some(c) = c {
                        return self.e(&c.2);
                    }
                }
                if p.path.segments.len() == 1 && !self.tys.contains_key(&n) && !self.opts.out.is_empty() {
                    if let Some(fi) = self.db.fns.iter().find(|f| f.impl_ty.is_none() && f.name == n && f.file == self.file).cloned() {
                        if let Some(syn::FnArg::Typed(t)) = fi.sig.inputs.first() {
                            if fi.sig.inputs.len() == 1 {
                                let t = self.ty(&t.ty);
                                self.calls.insert((None, n.clone()));
                                return format!("(|z_: {t}| {}(z_))", clean(&n));
                            }
                        }
                    }
                }
                self.path(&p.path)
            }
            Expr::Field(f) => {
                if let (syn::Member::Unnamed(i), Some(id)) = (&f.member, ident_of(unref(&f.base))) {
                    if i.index == 0 && self.newty_params.contains(&id) {
                        return self.e(&f.base);
                    }
                }
                let b = self.e(&f.base);
                match &f.member {
                    syn::Member::Named(i) => format!("{b}.{}", clean(&i.to_string())),
                    syn::Member::Unnamed(i) => format!("{b}.{}", i.index),
                }
            }
            Expr::Binary(b) => {
                use syn::BinOp::*;
                // operators of the crate's own types
                if matches!(b.op, Add(_) | Mul(_) | Sub(_)) && self.infer(&b.left).is_some_and(|t| self.is_user(&t)) {
                    let n = match b.op { Add(_) => "add", Mul(_) => "mul", _ => "sub" };
                    let l = self.e(&b.left);
                    let (l, n, _) = self.recv_method(&b.left, l, n);
                    let r = self.e(&b.right);
                    return format!("{l}.{n}({r})");
                }
                let mut l = self.e(&b.left);
                let mut r = self.e(&b.right);
                if matches!(b.op, Eq(_) | Ne(_)) && !self.opts.eqt {
                    // a type that wraps bytes compared with bytes
                    let (lt, rt) = (self.infer(&b.left), self.infer(&b.right));
                    if rt.as_deref() == Some("Seq<u8>") && lt.is_some_and(|t| self.wraps_bytes(&t)) {
                        l = format!("{l}.0");
                    } else if self.infer(&b.left).as_deref() == Some("Seq<u8>") && rt.is_some_and(|t| self.wraps_bytes(&t)) {
                        r = format!("{r}.0");
                    }
                }
                match b.op {
                    Add(_) => format!("({l} + {r})"),
                    Sub(_) => format!("({l} - {r})"),
                    Mul(_) => format!("({l} * {r})"),
                    Div(_) if l.starts_with("x_to_f64(") => format!("f64_div({l}, {r})"),
                    Div(_) => format!("({l} / {r})"),
                    Rem(_) => format!("({l} % {r})"),
                    And(_) => format!("({l} && {r})"),
                    Or(_) => format!("({l} || {r})"),
                    Eq(_) => {
                        if self.opts.eqt { format!("{l}.x_eq({r})") } else { format!("({l} == {r})") }
                    }
                    Ne(_) => {
                        if self.opts.eqt { format!("!{l}.x_eq({r})") } else { format!("({l} != {r})") }
                    }
                    Lt(_) => format!("{l}.x_lt({r})"),
                    Le(_) => format!("{l}.x_le({r})"),
                    Gt(_) => format!("{l}.x_gt({r})"),
                    Ge(_) => format!("{l}.x_ge({r})"),
                    BitAnd(_) => format!("{l}.x_bitand({r})"),
                    BitOr(_) => format!("{l}.x_bitor({r})"),
                    BitXor(_) => format!("{l}.x_bitxor({r})"),
                    _ => self.err("binary operator"),
                }
            }
            Expr::If(_) | Expr::Block(_) | Expr::Match(_) => {
                if effectful(self.db, e) && has_escape(e) {
                    return self.err("escape in a pure position");
                }
                if let Expr::Block(b) = e {
                    let s = b.block.stmts.clone();
                    return self.stmts(&s, &K::Val);
                }
                self.branch(e, &K::Val)
            }
            Expr::Tuple(t) => {
                let v: Vec<String> = t.elems.iter().map(|x| self.e(x)).collect();
                if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
            }
            Expr::Array(t) => {
                let v: Vec<String> = t.elems.iter().map(|x| self.e(x)).collect();
                if v.is_empty() { "Seq::empty()".into() } else { format!("seq![{}]", v.join(", ")) }
            }
            Expr::Struct(s) => {
                let p = self.path(&s.path);
                let mut v: Vec<String> = vec![];
                for f in &s.fields {
                    let n = match &f.member {
                        syn::Member::Named(i) => clean(&i.to_string()),
                        syn::Member::Unnamed(i) => i.index.to_string(),
                    };
                    let x = self.e(&f.expr);
                    v.push(format!("{n}: {x}"));
                }
                if let Some(r) = &s.rest {
                    let r = self.e(r);
                    v.push(format!("..{r}"));
                }
                format!("{p} {{ {} }}", v.join(", "))
            }
            Expr::Cast(c) => {
                let x = self.e(&c.expr);
                match ty_name(&c.ty).as_str() {
                    "u8" => format!("x_to_u8({x}.x_int())"),
                    "u32" => format!("x_wrap({x}.x_int(), 0x1_0000_0000)"),
                    "u16" => format!("x_wrap({x}.x_int(), 0x1_0000)"),
                    "usize" | "u64" | "i64" | "isize" => format!("{x}.x_int()"),
                    "char" => format!("x_to_char({x})"),
                    "f64" | "f32" => format!("x_to_f64({x}.x_int())"),
                    _ => self.err("cast"),
                }
            }
            Expr::Index(i) => {
                let b = self.e(&i.expr);
                match unparen(&i.index) {
                    Expr::Range(r) => {
                        let lo = r.start.as_ref().map(|x| self.e(x)).unwrap_or("0".into());
                        let hi = match (&r.end, &r.limits) {
                            (None, _) => format!("{b}.x_len()"),
                            (Some(x), syn::RangeLimits::Closed(_)) => format!("({} + 1)", self.e(x)),
                            (Some(x), _) => self.e(x),
                        };
                        format!("{b}.x_slice({lo}, {hi})")
                    }
                    x => {
                        let x = self.e(x);
                        format!("{b}.x_index({x})")
                    }
                }
            }
            Expr::Range(r) => {
                let lo = r.start.as_ref().map(|x| self.e(x)).unwrap_or("0".into());
                match (&r.end, &r.limits) {
                    (Some(x), syn::RangeLimits::Closed(_)) => {
                        let h = self.e(x);
                        format!("{lo}.x_range_incl({h})")
                    }
                    (Some(x), _) => {
                        let h = self.e(x);
                        if self.opts.uses.iter().any(|x| x == "range") {
                            return format!("XRange {{ start: {lo}, end: {h} }}");
                        }
                        format!("x_range({lo}, {h})")
                    }
                    _ => self.err("open range"),
                }
            }
            Expr::Closure(c) => self.closure(c, &[]),
            Expr::Macro(m) => self.macro_(&m.mac),
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(m) => self.method(m),
            Expr::Let(_) => self.err("let in a pure position"),
            Expr::Try(_) => self.err("? in a pure position"),
            _ => {
                let s = quote::quote!(#e).to_string();
                self.err(format!("expression `{}`", &s[..s.len().min(60)]))
            }
        }
    }

    fn macro_(&mut self, m: &syn::Macro) -> String {
        let n = mac_name(m);
        match n.as_str() {
            "matches" => {
                struct M {
                    e: Expr,
                    p: Pat,
                    g: Option<Expr>,
                }
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<syn::Token![,]>>();
                        Ok(M { e, p, g })
                    }
                }
                match m.parse_body::<M>() {
                    Ok(x) => {
                        let mut extra = vec![];
                        let s = self.e(&x.e);
                        let mut lits = vec![];
                        if pat_has_str(&x.p) && collect_lits(&x.p, &mut lits) {
                            let c: Vec<String> = lits.iter().map(|b| format!("{s} == {}", byte_seq(b))).collect();
                            return format!("({})", c.join(" || "));
                        }
                        let p = self.pat_x(&x.p, &mut extra);
                        if let Some(g) = &x.g {
                            extra.push(self.e(g));
                        }
                        let g = if extra.is_empty() { String::new() } else { format!(" if {}", extra.join(" && ")) };
                        format!("(match {s} {{ {p}{g} => true, _ => false }})")
                    }
                    Err(_) => self.err("matches!"),
                }
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => "arbitrary()".into(),
            "vec" => {
                let v = m.parse_body_with(
                    syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
                );
                match v {
                    Ok(v) => {
                        let v: Vec<String> = v.iter().map(|x| self.e(x)).collect();
                        if v.is_empty() { "Seq::empty()".into() } else { format!("seq![{}]", v.join(", ")) }
                    }
                    Err(_) => self.err("vec! repeat form"),
                }
            }
            "format" => self.format_args(m, 0, false),
            _ => self.err(format!("macro {n}!")),
        }
    }

    fn format_args(&mut self, m: &syn::Macro, skip: usize, newline: bool) -> String {
        let Ok(args) = m.parse_body_with(
            syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
        ) else {
            return self.err("format args");
        };
        let args: Vec<Expr> = args.into_iter().skip(skip).collect();
        let mut parts: Vec<String> = vec![];
        if let Some(f) = args.first() {
            let Expr::Lit(l) = f else { return self.err("format string") };
            let syn::Lit::Str(s) = &l.lit else { return self.err("format string") };
            let s = s.value();
            let mut pos = 1;
            let mut lit: Vec<u8> = vec![];
            let cs: Vec<char> = s.chars().collect();
            let mut i = 0;
            while i < cs.len() {
                let c = cs[i];
                if c == '{' && cs.get(i + 1) == Some(&'{') || c == '}' && cs.get(i + 1) == Some(&'}') {
                    lit.push(c as u8);
                    i += 2;
                    continue;
                }
                if c == '{' {
                    let mut j = i + 1;
                    let mut name = String::new();
                    while j < cs.len() && cs[j] != '}' {
                        name.push(cs[j]);
                        j += 1;
                    }
                    if !lit.is_empty() {
                        parts.push(byte_seq(&lit));
                        lit.clear();
                    }
                    let mut spec = String::new();
                    if let Some(i) = name.find(':') {
                        spec = name[i + 1..].to_string();
                        name.truncate(i);
                        if spec != "02x" {
                            return self.err("format spec");
                        }
                    }
                    let arg = if name.is_empty() {
                        let a = args.get(pos).cloned();
                        pos += 1;
                        match a {
                            Some(a) => self.e(&a),
                            None => return self.err("format arg"),
                        }
                    } else if let Some(Expr::Assign(a)) = args.iter().find(|a| matches!(a, Expr::Assign(x) if ident_of(&x.left).as_deref() == Some(&name))) {
                        let r = a.right.clone();
                        self.e(&r)
                    } else {
                        clean(&name)
                    };
                    parts.push(if spec.is_empty() { format!("{arg}.x_display()") } else { format!("x_hex2({arg})") });
                    i = j + 1;
                    continue;
                }
                let mut b = [0; 4];
                lit.extend(c.encode_utf8(&mut b).as_bytes());
                i += 1;
            }
            if newline {
                lit.push(b'\n');
            }
            if !lit.is_empty() {
                parts.push(byte_seq(&lit));
            }
        } else if newline {
            parts.push(byte_seq(b"\n"));
        }
        if parts.is_empty() {
            return "Seq::<u8>::empty()".into();
        }
        let mut acc = parts[0].clone();
        for p in &parts[1..] {
            acc = format!("{acc}.x_append({p})");
        }
        acc
    }

    fn call(&mut self, c: &syn::ExprCall) -> String {
        if let Expr::Path(p) = unparen(&c.func) {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let last = segs.last().unwrap().clone();
            let full = segs.join("::");
            match full.as_str() {
                "Some" if c.args.len() == 1 && matches!(unparen(&c.args[0]), Expr::Binary(_)) && self.infer(&c.args[0]).as_deref() == Some("u8") => {
                    let x = self.e(&c.args[0]);
                    return format!("Some({x} as u8)");
                }
                "Err" => {
                    if !self.cfg.errs.is_empty() && c.args.len() == 1 && self.kept_err(&c.args[0]) {
                        let x = self.e(&c.args[0]);
                        return format!("Err({x})");
                    }
                    return "Err(x_err())".into();
                }
                "Vec::new" | "String::new" | "SmallVec::new" | "Vec::with_capacity" | "String::with_capacity" | "BString::default" => {
                    return "Seq::empty()".into()
                }
                "HashSet::new" | "BTreeSet::new" => return "Set::empty()".into(),
                "HashMap::new" | "BTreeMap::new" => return "Map::empty()".into(),
                "iter::once" | "std::iter::once" => {
                    let x = self.e(&c.args[0]);
                    return format!("seq![{x}]");
                }
                "drop" => return "()".into(),
                "LazyLock::new" | "OnceLock::new" if c.args.len() == 1 => {
                    if let Expr::Closure(cl) = unparen(&c.args[0]) {
                        if cl.inputs.is_empty() {
                            return self.e(&cl.body);
                        }
                    }
                }
                "Ok" if c.args.len() == 1 && !self.opts.out.is_empty()
                    && quote::quote!(#c).to_string().replace(' ', "") == "Ok(ExitCode::SUCCESS)" =>
                {
                    let v: Vec<String> = self.opts.out.iter().map(|x| clean(x)).collect();
                    return format!("Ok({})", tuple(&v));
                }
                "Ok" if c.args.len() == 1 && self.ret_unit => {
                    return "()".into();
                }
                "BString::new" | "Vec::from_iter" if c.args.len() == 1 => return self.e(&c.args[0]),
                "iter::repeat_n" | "std::iter::repeat_n" | "repeat_n" if c.args.len() == 2 => {
                    let x = self.e(&c.args[0]);
                    let n = self.e(&c.args[1]);
                    return format!("x_repeat({x}, {n})");
                }
                "Cursor::new" | "PathBuf::from" | "OsString::from" | "BString::from" | "String::from" | "BStr::new" | "Cow::Borrowed" | "Cow::Owned" | "Vec::from" | "B" | "char::from" => {
                    return self.e(&c.args[0]);
                }
                _ => {}
            }
            if segs.len() == 1 && self.is_newtype(&last) && c.args.len() == 1 {
                return self.e(&c.args[0]);
            }
            if segs.len() >= 2 {
                let q = segs[segs.len() - 2].clone();
                let q = if q == "Self" { self.impl_ty.clone().unwrap_or_default() } else { q };
                if self.is_newtype(&q) && matches!(last.as_str(), "from" | "from_unchecked") {
                    return self.e(&c.args[0]);
                }
                if last == "from" {
                    let x = self.e(&c.args[0]);
                    let q = self.cfg.tymap.get(&q).cloned().unwrap_or(q);
                    return format!("{}({x})", self.pathmap(format!("{q}::x_from")));
                }
                if last == "default" {
                    return format!("{}()", self.pathmap(format!("{q}::x_default")));
                }
            }
        }
        let f = self.callee(&c.func, c.args.len());
        let args: Vec<String> = c.args.iter().map(|a| self.func_or_e(a)).collect();
        format!("{f}({})", args.join(", "))
    }

    /// `&x.into()` as an argument: the conversion to the parameter's type
    fn into_arg(&mut self, a: &Expr, want: Option<String>) -> Option<String> {
        let want = want?;
        let Expr::MethodCall(m) = unref(a) else { return None };
        if m.method != "into" || !self.is_user(&want) {
            return None;
        }
        let have = self.infer(&m.receiver)?;
        if have == want || !self.is_user(&have) {
            return None;
        }
        let x = self.e(&m.receiver);
        Some(format!("{want}::x_from_{have}({x})"))
    }

    /// does the expression have one of the error types that are kept?
    fn kept_err(&mut self, a: &Expr) -> bool {
        if let Some(t) = self.infer(a) {
            if self.cfg.errs.contains(&t) {
                return true;
            }
        }
        let p = match unparen(a) {
            Expr::Call(c) => match &*c.func { Expr::Path(p) => Some(&p.path), _ => None },
            Expr::Struct(s) => Some(&s.path),
            Expr::Path(p) => Some(&p.path),
            _ => None,
        };
        let Some(p) = p else { return false };
        p.segments.iter().any(|s| {
            let n = s.ident.to_string();
            let n = if n == "Self" { self.impl_ty.clone().unwrap_or_default() } else { n };
            self.cfg.errs.contains(&n)
        })
    }

    fn method(&mut self, m: &syn::ExprMethodCall) -> String {
        let n = m.method.to_string();
        if matches!(n.as_str(), "iter" | "into_iter") && m.args.is_empty() && self.infer(&m.receiver).is_some_and(|t| t.starts_with("Map<")) {
            let r = self.e(&m.receiver);
            return format!("{r}.x_items()");
        }
        if ERASED.contains(&n.as_str()) && (m.args.is_empty() || n == "map_err") {
            let declared = self.infer(&m.receiver).is_some_and(|t| self.is_user(&t) && self.cfg.known.contains(&(Some(t), n.clone())));
            if !declared {
                return self.e(&m.receiver);
            }
        }
        if n == "next" && m.args.is_empty() && place_root(&m.receiver).is_none() {
            // the first element of a temporary iterator
            let r = self.e(&m.receiver);
            return format!("{r}.x_first()");
        }
        if n == "to_string" && m.args.is_empty() {
            let str_lit = matches!(unref(&m.receiver), Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
            if str_lit || self.infer(&m.receiver).as_deref() == Some("Seq<u8>") {
                return self.e(&m.receiver);
            }
            if self.infer(&m.receiver).as_deref() == Some("int") {
                let r = self.e(&m.receiver);
                return format!("{r}.x_display()");
            }
        }
        if n == "collect" {
            if let Some(t) = &m.turbofish {
                let s = quote::quote!(#t).to_string();
                if s.contains("HashSet") || s.contains("BTreeSet") {
                    let r = self.e(&m.receiver);
                    return format!("{r}.x_collect_set()");
                }
                if s.contains("Result") {
                    let r = self.e(&m.receiver);
                    return format!("{r}.x_collect_result()");
                }
            }
            return self.e(&m.receiver);
        }
        if n == "parse" && m.args.len() == 1 {
            let p = self.parser(&m.receiver);
            let x = self.e(&m.args[0]);
            return format!("p_parse({p}, {x})");
        }
        let r = self.e(&m.receiver);
        let (r, name, rt) = self.recv_method(&m.receiver, r, &n);
        if n == "unwrap_or_default" && m.args.is_empty() {
            if let Some(el) = rt.as_deref().and_then(crate::infer::elem) {
                let d = if self.is_user(&el) {
                    format!("{el}::x_default()")
                } else if el == "int" || el == "u8" {
                    "0".into()
                } else if el == "bool" {
                    "false".into()
                } else if el.starts_with("Seq") {
                    format!("{}::empty()", el.replacen("Seq<", "Seq::<", 1))
                } else {
                    return self.err("unwrap_or_default");
                };
                return format!("(match {r} {{ Some(d__) => d__, None => {d} }})");
            }
        }
        let ct = self.closure_params(rt.as_deref(), &n, m);
        let pt = rt.as_deref().map(|t| self.param_types(t, &n)).unwrap_or_default();
        let args: Vec<String> = m
            .args
            .iter()
            .enumerate()
            .map(|(i, a)| self.into_arg(a, pt.get(i).cloned().flatten()).unwrap_or_else(|| self.func_or_e_t(a, &ct)))
            .collect();
        if let Some(id) = ident_of(unref(&m.receiver)) {
            if id == "self" {
                self.calls.insert((self.impl_ty.clone(), n.clone()));
            }
        }
        format!("{r}.{name}({})", args.join(", "))
    }
}

/// `P.parse_next(i)?` or `P(i)?`
fn step(e: &Expr) -> Option<Expr> {
    let Expr::Try(t) = unparen(e) else { return None };
    match unparen(&t.expr) {
        Expr::MethodCall(m) if m.method == "parse_next" => Some((*m.receiver).clone()),
        Expr::Call(c) if c.args.len() == 1 => Some((*c.func).clone()),
        _ => None,
    }
}

fn unref(e: &Expr) -> &Expr {
    match e {
        Expr::Reference(r) => unref(&r.expr),
        Expr::Paren(r) => unref(&r.expr),
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => unref(&u.expr),
        _ => e,
    }
}

pub fn ret_is_unit(s: &syn::Signature) -> bool {
    match &s.output {
        syn::ReturnType::Default => true,
        syn::ReturnType::Type(_, t) => {
            let s = quote::quote!(#t).to_string().replace(' ', "");
            s == "io::Result<()>" || s == "std::io::Result<()>" || s == "fmt::Result" || s == "()"
                || s.starts_with("Result<(),WritePicaError")
        }
    }
}

fn conjuncts(e: &Expr) -> Vec<Expr> {
    match e {
        Expr::Paren(p) if !contains_let(&p.expr) => vec![e.clone()],
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
            let mut v = conjuncts(&b.left);
            v.extend(conjuncts(&b.right));
            v
        }
        _ => vec![e.clone()],
    }
}
fn rejoin(v: &[Expr]) -> Expr {
    let mut it = v.iter();
    let mut acc = it.next().unwrap().clone();
    for x in it {
        acc = Expr::Binary(syn::ExprBinary {
            attrs: vec![],
            left: Box::new(acc),
            op: syn::BinOp::And(Default::default()),
            right: Box::new(x.clone()),
        });
    }
    acc
}
fn contains_let(e: &Expr) -> bool {
    struct L(bool);
    impl<'ast> Visit<'ast> for L {
        fn visit_expr_let(&mut self, _: &'ast syn::ExprLet) {
            self.0 = true;
        }
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}

fn lit_bytes(l: &syn::Lit) -> Vec<u8> {
    match l {
        syn::Lit::Str(s) => s.value().into_bytes(),
        syn::Lit::ByteStr(s) => s.value(),
        _ => vec![],
    }
}

fn pat_has_str(p: &Pat) -> bool {
    let mut v = vec![];
    match p {
        Pat::Lit(l) => matches!(l.lit, syn::Lit::Str(_) | syn::Lit::ByteStr(_)),
        Pat::Or(_) => collect_lits(p, &mut v),
        Pat::Paren(q) => pat_has_str(&q.pat),
        Pat::Reference(q) => pat_has_str(&q.pat),
        _ => false,
    }
}
fn collect_lits(p: &Pat, out: &mut Vec<Vec<u8>>) -> bool {
    match p {
        Pat::Lit(l) => {
            if matches!(l.lit, syn::Lit::Str(_) | syn::Lit::ByteStr(_)) {
                out.push(lit_bytes(&l.lit));
                true
            } else {
                false
            }
        }
        Pat::Or(o) => o.cases.iter().all(|c| collect_lits(c, out)),
        Pat::Paren(q) => collect_lits(&q.pat, out),
        Pat::Reference(q) => collect_lits(&q.pat, out),
        _ => false,
    }
}

fn mentions(e: &Expr, ids: &HashSet<String>) -> bool {
    struct I<'a>(&'a HashSet<String>, bool);
    impl<'ast> Visit<'ast> for I<'_> {
        fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
            if self.0.contains(&i.to_string()) {
                self.1 = true;
            }
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            for i in self.0 {
                if m.tokens.to_string().contains(i.as_str()) {
                    self.1 = true;
                }
            }
        }
    }
    let mut v = I(ids, false);
    v.visit_expr(e);
    v.1
}

/// `[if C { return E; }]` or `[if !C { continue; } return E;]`-like bodies
fn single_if_return(ss: &[Stmt]) -> Option<(Vec<Expr>, Option<Expr>)> {
    let [Stmt::Expr(Expr::If(i), _)] = ss else { return None };
    if i.else_branch.is_some() {
        return None;
    }
    let mut conj = conjuncts(&i.cond);
    let mut stmts = &i.then_branch.stmts[..];
    loop {
        match stmts {
            [Stmt::Expr(Expr::Return(r), _)] => {
                return Some((conj, r.expr.as_ref().map(|x| (**x).clone())));
            }
            [Stmt::Expr(Expr::If(j), _)] if j.else_branch.is_none() => {
                conj.extend(conjuncts(&j.cond));
                stmts = &j.then_branch.stmts[..];
            }
            _ => return None,
        }
    }
}

/// `[if C { v += 1; }]`, `[if C { v.push(E); }]`, `[v.push(E);]`
fn single_if_acc(ss: &[Stmt], v: &str) -> Option<(Vec<Expr>, String, Expr)> {
    let mut conj = vec![];
    let mut stmts = ss;
    loop {
        match stmts {
            [Stmt::Expr(Expr::If(j), _)] if j.else_branch.is_none() => {
                conj.extend(conjuncts(&j.cond));
                stmts = &j.then_branch.stmts[..];
            }
            [Stmt::Expr(Expr::Binary(b), _)] => {
                if matches!(b.op, syn::BinOp::AddAssign(_)) && ident_of(&b.left).as_deref() == Some(v) {
                    if let Expr::Lit(l) = &*b.right {
                        if let syn::Lit::Int(i) = &l.lit {
                            if i.base10_digits() == "1" {
                                return Some((conj, "count".into(), (*b.right).clone()));
                            }
                        }
                    }
                }
                return None;
            }
            [Stmt::Expr(Expr::MethodCall(m), _)] => {
                if m.method == "push" && ident_of(&m.receiver).as_deref() == Some(v) {
                    return Some((conj, "push".into(), m.args[0].clone()));
                }
                return None;
            }
            _ => return None,
        }
    }
}

/// Replace the first effectful strict sub-expression by `name`.
fn take_effect(db: &Db, e: &mut Expr, name: &str, top: bool) -> Option<Expr> {
    let ti = syn::Ident::new(name, proc_macro2::Span::call_site());
    let var: Expr = syn::parse_quote!(#ti);
    if !effectful(db, e) {
        return None;
    }
    // children first
    let r = match e {
        Expr::Paren(p) => take_effect(db, &mut p.expr, name, false),
        Expr::Reference(p) => take_effect(db, &mut p.expr, name, false),
        Expr::Unary(p) => take_effect(db, &mut p.expr, name, false),
        Expr::Field(p) => take_effect(db, &mut p.base, name, false),
        Expr::Cast(p) => take_effect(db, &mut p.expr, name, false),
        Expr::Index(p) => take_effect(db, &mut p.expr, name, false)
            .or_else(|| take_effect(db, &mut p.index, name, false)),
        Expr::Binary(b) if !is_assign_op(&b.op) => {
            if let Some(x) = take_effect(db, &mut b.left, name, false) {
                Some(x)
            } else if matches!(b.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) {
                None
            } else {
                take_effect(db, &mut b.right, name, false)
            }
        }
        Expr::MethodCall(m) => {
            let mu = mutating(db, m);
            let mut r = None;
            if !matches!(mu, Some((true, _))) {
                r = take_effect(db, &mut m.receiver, name, false);
            }
            if r.is_none() {
                for a in m.args.iter_mut() {
                    r = take_effect(db, a, name, false);
                    if r.is_some() {
                        break;
                    }
                }
            }
            r
        }
        Expr::Call(c) => {
            let mut r = None;
            for a in c.args.iter_mut() {
                r = take_effect(db, a, name, false);
                if r.is_some() {
                    break;
                }
            }
            r
        }
        Expr::Tuple(c) => {
            let mut r = None;
            for a in c.elems.iter_mut() {
                r = take_effect(db, a, name, false);
                if r.is_some() {
                    break;
                }
            }
            r
        }
        Expr::Struct(c) => {
            let mut r = None;
            for a in c.fields.iter_mut() {
                r = take_effect(db, &mut a.expr, name, false);
                if r.is_some() {
                    break;
                }
            }
            r
        }
        Expr::Try(_) => None,
        _ => None,
    };
    if r.is_some() {
        return r;
    }
    if top {
        return None;
    }
    Some(std::mem::replace(e, var))
}

/// does the continuation contain a loop?
fn k_has_loop(k: &K) -> bool {
    struct L(bool);
    impl<'ast> Visit<'ast> for L {
        fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {
            self.0 = true;
        }
    }
    match k {
        K::Bind { rest, k, .. } | K::Then { rest, k } => {
            let mut l = L(false);
            for s in rest.iter() {
                l.visit_stmt(s);
            }
            l.0 || k_has_loop(k)
        }
        _ => false,
    }
}

/// a break or continue that leaves the expression
fn has_loop_ctl(e: &Expr) -> bool {
    struct C(bool, usize);
    impl<'ast> Visit<'ast> for C {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::Break(b) => self.0 |= self.1 == 0 || b.label.is_some(),
                Expr::Continue(b) => self.0 |= self.1 == 0 || b.label.is_some(),
                Expr::Closure(_) => return,
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                    self.1 += 1;
                    visit::visit_expr(self, e);
                    self.1 -= 1;
                    return;
                }
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut c = C(false, 0);
    c.visit_expr(e);
    c.0
}

/// (breaks of an enclosing loop, breaks of this loop) in a loop body
fn outer_breaks(b: &syn::Block, own: Option<&str>) -> (bool, bool) {
    struct B<'a> {
        own: Option<&'a str>,
        inner: Vec<String>,
        depth: usize,
        out: (bool, bool),
    }
    impl<'ast> Visit<'ast> for B<'_> {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::Break(b) => match &b.label {
                    None => self.out.1 |= self.depth == 0,
                    Some(l) => {
                        let l = l.ident.to_string();
                        if self.own == Some(&l) {
                            self.out.1 = true
                        } else if !self.inner.contains(&l) {
                            self.out.0 = true
                        }
                    }
                },
                Expr::Closure(_) => return,
                Expr::ForLoop(f) => {
                    let l = f.label.as_ref().map(|l| l.name.ident.to_string());
                    self.depth += 1;
                    let n = self.inner.len();
                    self.inner.extend(l);
                    visit::visit_expr(self, e);
                    self.inner.truncate(n);
                    self.depth -= 1;
                    return;
                }
                Expr::While(_) | Expr::Loop(_) => {
                    self.depth += 1;
                    visit::visit_expr(self, e);
                    self.depth -= 1;
                    return;
                }
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut v = B { own, inner: vec![], depth: 0, out: (false, false) };
    v.visit_block(b);
    v.out
}
