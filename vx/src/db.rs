//! Index of every non-test item of the repository's sources.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use syn::visit::{self, Visit};

#[derive(Clone)]
pub struct FnInfo {
    pub file: String,
    /// last path segment of the self type, if any
    pub impl_ty: Option<String>,
    /// trait path as text without whitespace (e.g. `PartialEq<Field>`)
    pub trait_: Option<String>,
    pub name: String,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub self_ty: Option<syn::Type>,
    pub impl_generics: Option<syn::Generics>,
    pub line: usize,
    pub end_line: usize,
}

#[derive(Default)]
pub struct Db {
    pub fns: Vec<FnInfo>,
    pub structs: Vec<(String, syn::ItemStruct)>,
    pub enums: Vec<(String, syn::ItemEnum)>,
    pub consts: Vec<(String, String, syn::Expr, syn::Type)>,
    pub files: BTreeSet<String>,
    /// method/fn name -> (has &mut self, indices of &mut params)
    pub muts: BTreeMap<String, (bool, Vec<usize>)>,
    /// (file, macro name) -> definition by example
    pub macros: BTreeMap<(String, String), proc_macro2::TokenStream>,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s.contains("cfg(test)") || s.contains("#[test]")
    })
}

pub fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p
            .path
            .segments
            .last()
            .map(|s| s.ident.to_string())
            .unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        syn::Type::Paren(r) => ty_name(&r.elem),
        _ => String::new(),
    }
}

struct V<'a> {
    db: &'a mut Db,
    file: String,
}

impl V<'_> {
    fn add_fn(
        &mut self,
        sig: &syn::Signature,
        block: &syn::Block,
        imp: Option<&syn::ItemImpl>,
    ) {
        let trait_ = imp.and_then(|i| i.trait_.as_ref()).map(|t| {
            let p = &t.1;
            quote::quote!(#p).to_string().replace(' ', "")
        });
        self.db.fns.push(FnInfo {
            file: self.file.clone(),
            impl_ty: imp.map(|i| ty_name(&i.self_ty)),
            trait_,
            name: sig.ident.to_string(),
            sig: sig.clone(),
            block: block.clone(),
            self_ty: imp.map(|i| (*i.self_ty).clone()),
            impl_generics: imp.map(|i| i.generics.clone()),
            line: sig.ident.span().start().line,
            end_line: block.brace_token.span.close().end().line,
        });
        let mut mself = false;
        let mut idx = vec![];
        let mut k = 0;
        for a in &sig.inputs {
            match a {
                syn::FnArg::Receiver(r) => {
                    mself = r.mutability.is_some() && r.reference.is_some();
                }
                syn::FnArg::Typed(t) => {
                    if is_mut_ref(&t.ty) {
                        idx.push(k);
                    }
                    k += 1;
                }
            }
        }
        if (mself || !idx.is_empty()) && sig.ident != "fmt" {
            self.db.muts.insert(sig.ident.to_string(), (mself, idx));
        }
    }
}

pub fn is_mut_ref(t: &syn::Type) -> bool {
    matches!(t, syn::Type::Reference(r) if r.mutability.is_some())
}

impl<'ast> Visit<'ast> for V<'_> {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if !is_test(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if !is_test(&f.attrs) {
            self.add_fn(&f.sig, &f.block, None);
        }
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        for it in &i.items {
            if let syn::ImplItem::Fn(f) = it {
                self.add_fn(&f.sig, &f.block, Some(i));
            }
            if let syn::ImplItem::Const(c) = it {
                self.db.consts.push((
                    self.file.clone(),
                    c.ident.to_string(),
                    c.expr.clone(),
                    c.ty.clone(),
                ));
            }
        }
    }
    fn visit_item_trait(&mut self, t: &'ast syn::ItemTrait) {
        // default methods, as `Trait::method`
        for it in &t.items {
            if let syn::TraitItem::Fn(f) = it {
                if let Some(b) = &f.default {
                    self.add_fn(&f.sig, b, None);
                    if let Some(x) = self.db.fns.last_mut() {
                        x.impl_ty = Some(t.ident.to_string());
                    }
                }
            }
        }
    }
    fn visit_item_macro(&mut self, m: &'ast syn::ItemMacro) {
        if let (true, Some(i)) = (m.mac.path.is_ident("macro_rules"), &m.ident) {
            self.db.macros.insert((self.file.clone(), i.to_string()), m.mac.tokens.clone());
        }
    }
    fn visit_item_struct(&mut self, s: &'ast syn::ItemStruct) {
        self.db.structs.push((self.file.clone(), s.clone()));
    }
    fn visit_item_enum(&mut self, s: &'ast syn::ItemEnum) {
        self.db.enums.push((self.file.clone(), s.clone()));
    }
    fn visit_item_const(&mut self, c: &'ast syn::ItemConst) {
        self.db.consts.push((
            self.file.clone(),
            c.ident.to_string(),
            (*c.expr).clone(),
            (*c.ty).clone(),
        ));
    }
    fn visit_item_static(&mut self, c: &'ast syn::ItemStatic) {
        self.db.consts.push((
            self.file.clone(),
            c.ident.to_string(),
            (*c.expr).clone(),
            (*c.ty).clone(),
        ));
    }
}

pub fn load(repo: &Path) -> Result<Db, String> {
    let mut db = Db::default();
    let mut stack = vec![repo.join("src"), repo.join("crates")];
    let mut paths = vec![];
    while let Some(d) = stack.pop() {
        let rd = match std::fs::read_dir(&d) {
            Ok(r) => r,
            Err(_) => continue,
        };
        for e in rd.flatten() {
            let p = e.path();
            let name = e.file_name().to_string_lossy().to_string();
            if p.is_dir() {
                if name != "tests" && name != "target" && name != "benches" {
                    stack.push(p);
                }
            } else if name.ends_with(".rs") && name != "build.rs" {
                paths.push(p);
            }
        }
    }
    paths.sort();
    for p in paths {
        let text = std::fs::read_to_string(&p)
            .map_err(|e| format!("{}: {e}", p.display()))?;
        let f = syn::parse_file(&text)
            .map_err(|e| format!("{}: {e}", p.display()))?;
        let rel = p
            .strip_prefix(repo)
            .unwrap()
            .to_string_lossy()
            .to_string();
        db.files.insert(rel.clone());
        let mut v = V {
            db: &mut db,
            file: rel,
        };
        v.visit_file(&f);
    }
    Ok(db)
}

impl Db {
    /// `item`: `free`, `Type::method` or `Trait for Type::method`
    pub fn find_fn(&self, file: &str, item: &str) -> Option<&FnInfo> {
        let (tr, rest) = match item.split_once(" for ") {
            Some((t, r)) => (Some(t.replace(' ', "")), r),
            None => (None, item),
        };
        let (ty, name) = match rest.rsplit_once("::") {
            Some((t, n)) => (Some(t.to_string()), n.to_string()),
            None => (None, rest.to_string()),
        };
        let ok = |f: &&FnInfo, any_file: bool| {
            (any_file || f.file == file)
                && f.name == name
                && f.impl_ty == ty
                && (tr.is_none() && f.trait_.is_none() || {
                    match (&tr, &f.trait_) {
                        (Some(a), Some(b)) => {
                            a == b || strip_lt(b) == *a
                        }
                        _ => false,
                    }
                })
        };
        self.fns
            .iter()
            .find(|f| ok(f, false))
            .or_else(|| {
                // the item may have been moved to another file
                let dir = file.rsplit_once('/').map(|x| x.0).unwrap_or("");
                let stem = file.trim_end_matches(".rs").trim_end_matches("/mod");
                self.fns.iter().find(|f| {
                    (f.file.starts_with(stem) || f.file.starts_with(dir) && ty.is_some())
                        && ok(f, true)
                })
            })
    }
}

pub fn strip_lt(s: &str) -> String {
    s.replace("<'_>", "").replace("<'a>", "").replace("&'a", "&").replace("'_,", "")
}
