//! A small local type inference, used only to annotate closure parameters
//! (the verifier does not infer them).  A wrong or missing type makes the
//! generated unit ill-typed, i.e. the function undecided; it can never make
//! an obligation pass.
use crate::db::*;
use crate::tr::*;
use syn::{Expr, Pat, Stmt};

pub fn split_args(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut d = 0;
    let mut cur = String::new();
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' if i > 0 && cs[i - 1] == '-' => {}
            '>' | ')' | ']' => d -= 1,
            ',' if d == 0 => {
                out.push(cur.trim().to_string());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(*c);
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}

pub fn generic<'b>(s: &'b str, head: &str) -> Option<&'b str> {
    s.strip_prefix(head)?.strip_prefix('<')?.strip_suffix('>')
}

pub fn elem(s: &str) -> Option<String> {
    for h in ["Seq", "Option", "Set"] {
        if let Some(x) = generic(s, h) {
            return Some(x.to_string());
        }
    }
    if let Some(x) = generic(s, "Map") {
        return Some(format!("({x})"));
    }
    generic(s, "Result").and_then(|x| split_args(x).into_iter().next())
}

fn tuple_of(s: &str) -> Option<Vec<String>> {
    let x = s.strip_prefix('(')?.strip_suffix(')')?;
    Some(split_args(x))
}

impl Tr<'_> {
    /// the name in the sources of a type that is renamed in the unit
    pub fn src_name(&self, t: &str) -> String {
        let t = t.split('<').next().unwrap();
        let has = |t: &str| self.db.structs.iter().any(|s| s.1.ident == t) || self.db.enums.iter().any(|s| s.1.ident == t);
        if !has(t) {
            if let Some((k, _)) = self.cfg.tymap.iter().find(|(k, v)| *v == t && has(k)) {
                return k.clone();
            }
        }
        t.to_string()
    }

    pub fn is_user(&self, t: &str) -> bool {
        let t = self.src_name(t);
        self.db.structs.iter().any(|s| s.1.ident == t) || self.db.enums.iter().any(|s| s.1.ident == t)
    }

    pub fn bind_pat(&mut self, p: &Pat, t: &str) {
        match p {
            Pat::Ident(i) => {
                self.tys.insert(i.ident.to_string(), t.to_string());
            }
            Pat::Reference(r) => self.bind_pat(&r.pat, t),
            Pat::Paren(r) => self.bind_pat(&r.pat, t),
            Pat::Type(r) => self.bind_pat(&r.pat, t),
            Pat::Tuple(tp) => {
                if let Some(v) = tuple_of(t) {
                    if v.len() == tp.elems.len() {
                        for (p, t) in tp.elems.iter().zip(v) {
                            self.bind_pat(p, &t);
                        }
                    }
                }
            }
            Pat::Or(o) => {
                for c in &o.cases {
                    self.bind_pat(c, t);
                }
            }
            Pat::TupleStruct(ts) => {
                let n = ts.path.segments.last().unwrap().ident.to_string();
                if matches!(n.as_str(), "Some" | "Ok") && ts.elems.len() == 1 {
                    if let Some(x) = elem(t) {
                        self.bind_pat(&ts.elems[0], &x);
                    }
                    return;
                }
                if n == "Err" && ts.elems.len() == 1 {
                    if let Some(a) = generic(t, "Result") {
                        if let Some(x) = split_args(a).get(1) {
                            self.bind_pat(&ts.elems[0], x.trim());
                        }
                    }
                    return;
                }
                if self.cfg.newtypes.contains_key(&n) && ts.elems.len() == 1 {
                    self.bind_pat(&ts.elems[0], t);
                    return;
                }
                let en = ts.path.segments.iter().rev().nth(1).map(|s| s.ident.to_string());
                let en = match en {
                    Some(x) if x == "Self" => self.impl_ty.clone(),
                    Some(x) => Some(x),
                    None => self.variants.get(&n).cloned(),
                };
                let fields = self.variant_fields(en.as_deref(), &n);
                for (p, f) in ts.elems.iter().zip(fields) {
                    self.bind_pat(p, &f.1);
                }
            }
            Pat::Struct(st) => {
                let n = st.path.segments.last().unwrap().ident.to_string();
                let n2 = if n == "Self" { self.impl_ty.clone().unwrap_or(n.clone()) } else { n.clone() };
                let en = st.path.segments.iter().rev().nth(1).map(|s| s.ident.to_string());
                let en = match en {
                    Some(x) if x == "Self" => self.impl_ty.clone(),
                    Some(x) => Some(x),
                    None => self.variants.get(&n).cloned(),
                };
                let mut fields = self.variant_fields(en.as_deref(), &n);
                if fields.is_empty() {
                    fields = self.struct_fields(&n2);
                }
                for f in &st.fields {
                    let m = match &f.member {
                        syn::Member::Named(i) => i.to_string(),
                        syn::Member::Unnamed(i) => i.index.to_string(),
                    };
                    if let Some(x) = fields.iter().find(|x| x.0 == m) {
                        self.bind_pat(&f.pat, &x.1.clone());
                    }
                }
            }
            _ => {}
        }
    }

    fn quiet_ty(&mut self, t: &syn::Type, owner: &str) -> String {
        let n = self.errors.len();
        let save = self.impl_ty.clone();
        self.impl_ty = Some(owner.to_string());
        let s = self.ty(t);
        self.impl_ty = save;
        self.errors.truncate(n);
        // method calls and field accesses see through a Box
        match s.strip_prefix("Box<") {
            Some(r) => r.strip_suffix('>').unwrap_or(r).to_string(),
            None => s,
        }
    }

    fn variant_fields(&mut self, en: Option<&str>, v: &str) -> Vec<(String, String)> {
        let Some(en) = en else { return vec![] };
        let en = &self.src_name(en);
        let e = self
            .db
            .enums
            .iter()
            .filter(|e| e.1.ident == en)
            .max_by_key(|e| e.0 == self.file)
            .map(|e| e.1.clone());
        let Some(e) = e else { return vec![] };
        let Some(va) = e.variants.iter().find(|x| x.ident == v) else { return vec![] };
        let owner = e.ident.to_string();
        let fs: Vec<(Option<String>, syn::Type)> =
            va.fields.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()), f.ty.clone())).collect();
        fs.into_iter()
            .enumerate()
            .map(|(i, (n, t))| (n.unwrap_or(i.to_string()), self.quiet_ty(&t, &owner)))
            .collect()
    }

    pub fn struct_fields(&mut self, t: &str) -> Vec<(String, String)> {
        let base = &self.src_name(t);
        let s = self
            .db
            .structs
            .iter()
            .filter(|s| s.1.ident == base)
            .max_by_key(|s| s.0 == self.file)
            .map(|s| s.1.clone());
        let Some(s) = s else { return vec![] };
        let fs: Vec<(Option<String>, syn::Type)> =
            s.fields.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()), f.ty.clone())).collect();
        let base = base.to_string();
        fs.into_iter()
            .enumerate()
            .map(|(i, (n, t))| (n.unwrap_or(i.to_string()), self.quiet_ty(&t, &base)))
            .collect()
    }

    /// is the field declared as a `Box` (kept in recursive types)?
    pub fn boxed_field(&mut self, f: &syn::ExprField) -> bool {
        let Some(t) = self.infer(&f.base) else { return false };
        let base = self.src_name(&t);
        let s = self
            .db
            .structs
            .iter()
            .filter(|s| s.1.ident == base)
            .max_by_key(|s| s.0 == self.file)
            .map(|s| s.1.clone());
        let Some(s) = s else { return false };
        let m = match &f.member {
            syn::Member::Named(i) => i.to_string(),
            syn::Member::Unnamed(i) => i.index.to_string(),
        };
        s.fields.iter().enumerate().any(|(i, x)| {
            x.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string()) == m
                && matches!(&x.ty, syn::Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Box"))
        })
    }

    /// the field a `Deref` implementation of `t` exposes
    pub fn deref_field(&mut self, t: &str) -> Option<(String, String)> {
        let base = &self.src_name(t);
        let f = self
            .db
            .fns
            .iter()
            .find(|f| f.name == "deref" && f.impl_ty.as_ref() == Some(base) && f.trait_.is_some())?
            .clone();
        let [Stmt::Expr(r, None)] = &f.block.stmts[..] else { return None };
        let r = match r { Expr::Reference(r) => &*r.expr, r => r };
        let Expr::Field(fe) = r else { return None };
        let m = match &fe.member {
            syn::Member::Named(i) => i.to_string(),
            syn::Member::Unnamed(i) => i.index.to_string(),
        };
        let fs = self.struct_fields(base);
        let t = fs.into_iter().find(|x| x.0 == m)?.1;
        Some((m, t))
    }

    fn method_info(&self, t: &str, n: &str) -> Option<FnInfo> {
        let base = &self.src_name(t);
        self.db
            .fns
            .iter()
            .filter(|f| f.name == n && f.impl_ty.as_ref() == Some(base) && f.sig.receiver().is_some())
            .max_by_key(|f| (f.file == self.file) as u8 * 2 + f.trait_.is_none() as u8)
            .cloned()
    }

    pub fn has_method(&self, t: &str, n: &str) -> bool {
        self.is_user(t) && (self.method_info(t, n).is_some() || self.cfg.known.contains(&(Some(t.to_string()), n.to_string())))
    }

    pub fn ret_of(&mut self, f: &FnInfo) -> Option<String> {
        let owner = f.impl_ty.clone().unwrap_or_default();
        match &f.sig.output {
            syn::ReturnType::Default => Some("()".into()),
            syn::ReturnType::Type(_, t) => Some(self.quiet_ty(t, &owner)),
        }
    }

    pub fn closure_ret(&mut self, e: &Expr, ps: &[String]) -> Option<String> {
        match e {
            Expr::Closure(c) => {
                let save = self.tys.clone();
                for (p, t) in c.inputs.iter().zip(ps) {
                    self.bind_pat(p, t);
                }
                let r = self.infer(&c.body);
                self.tys = save;
                r
            }
            Expr::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap().clone();
                if let Some(x) = self.cfg.rets.get(&segs.join("::")) {
                    if !self.tys.contains_key(&last) {
                        return Some(x.clone());
                    }
                }
                if last == "Some" {
                    return Some(format!("Option<{}>", ps.first()?));
                }
                if segs.len() == 1 && self.cfg.newtypes.contains_key(&last) {
                    return ps.first().cloned();
                }
                if segs.len() >= 2 {
                    let q = segs[segs.len() - 2].clone();
                    let q = if q == "Self" { self.impl_ty.clone()? } else { q };
                    if q == "ToString" && last == "to_string" {
                        return Some("Seq<u8>".into());
                    }
                    if last == "from" || last == "new" || last == "default" {
                        return Some(self.cfg.newtypes.get(&q).cloned().unwrap_or(q));
                    }
                    if self.db.enums.iter().any(|e| e.1.ident == q && e.1.variants.iter().any(|v| v.ident == last)) {
                        return Some(q);
                    }
                    if let Some(f) = self.method_info(&q, &last) {
                        return self.ret_of(&f);
                    }
                    if let Some(t) = self.cfg.newtypes.get(&q) {
                        return Some(t.clone());
                    }
                }
                let local = self.db.fns.iter().find(|f| f.impl_ty.is_none() && f.name == last && f.file == self.file);
                if let Some(f) = local.or_else(|| self.db.fns.iter().find(|f| f.impl_ty.is_none() && f.name == last)).cloned() {
                    return self.ret_of(&f);
                }
                if self.db.structs.iter().any(|s| s.1.ident == last) {
                    return Some(last);
                }
                None
            }
            _ => None,
        }
    }

    /// the declared parameter types of a method
    pub fn param_types(&mut self, t: &str, n: &str) -> Vec<Option<String>> {
        if !self.is_user(t) {
            return vec![];
        }
        let Some(f) = self.method_info(t, n) else { return vec![] };
        let owner = f.impl_ty.clone().unwrap_or_default();
        f.sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                syn::FnArg::Typed(a) => Some(Some(self.quiet_ty(&a.ty, &owner))),
                _ => None,
            })
            .collect()
    }

    /// parameter types of a closure argument number `ai` of method `n` on `t`
    pub fn closure_params(&mut self, t: Option<&str>, n: &str, m: &syn::ExprMethodCall) -> Vec<Option<String>> {
        if let Some(t0) = t {
            if self.is_user(t0) {
                if let Some(f) = self.method_info(t0, n) {
                    // the parameter types of a closure, from the method's Fn bound
                    let save = self.generics.clone();
                    let k = self.errors.len();
                    self.bind_generics(&f.sig.generics.clone());
                    let mut out = vec![];
                    if let Some(syn::FnArg::Typed(a)) = f.sig.inputs.iter().nth(1) {
                        let s = self.ty(&a.ty);
                        if let Some(r) = s.strip_prefix("spec_fn(") {
                            let ins = r.rsplit_once(") -> ").map(|x| x.0).unwrap_or("");
                            out = split_args(ins).into_iter().map(|x| Some(x.trim().to_string())).collect();
                        }
                    }
                    self.errors.truncate(k);
                    self.generics = save;
                    if !out.is_empty() {
                        return out;
                    }
                }
            }
        }
        let el = t.and_then(elem);
        match n {
            "fold" => {
                let a = m.args.first().and_then(|x| self.infer(x));
                vec![a, el]
            }
            "reduce" | "sort_by" => vec![el.clone(), el],
            "retain" if t.is_some_and(|t| t.starts_with("Map<")) => match &el {
                // an entry, as key and value
                Some(p) if p.starts_with('(') && p.ends_with(')') => split_args(&p[1..p.len() - 1]).into_iter().map(|x| Some(x.trim().to_string())).collect(),
                _ => vec![],
            },
            "map_or_else" | "unwrap_or_else" | "ok_or_else" => vec![el],
            _ => vec![el],
        }
    }

    pub fn infer_block(&mut self, ss: &[Stmt]) -> Option<String> {
        let save = self.tys.clone();
        let mut r = Some("()".to_string());
        for s in ss {
            match s {
                Stmt::Local(l) => self.note_local(l),
                Stmt::Expr(e, None) => {
                    r = self.infer(e);
                }
                Stmt::Item(syn::Item::Use(u)) => self.use_tree(&u.tree.clone(), ""),
                _ => {}
            }
        }
        self.tys = save;
        r
    }

    pub fn note_local(&mut self, l: &syn::Local) {
        let pat = if let Pat::Type(pt) = &l.pat { &*pt.pat } else { &l.pat };
        match self.local_ty(l) {
            Some(t) => self.bind_pat(pat, &t),
            None => self.unbind_pat(pat),
        }
    }

    /// forgets what a shadowed name was
    pub fn unbind_pat(&mut self, p: &Pat) {
        match p {
            Pat::Ident(i) => {
                self.tys.remove(&i.ident.to_string());
            }
            Pat::Reference(r) => self.unbind_pat(&r.pat),
            Pat::Paren(r) => self.unbind_pat(&r.pat),
            Pat::Type(r) => self.unbind_pat(&r.pat),
            Pat::Tuple(tp) => {
                for p in &tp.elems {
                    self.unbind_pat(p);
                }
            }
            _ => {}
        }
    }

    /// the type of the value a `let` binds
    pub fn local_ty(&mut self, l: &syn::Local) -> Option<String> {
        let mut pat = &l.pat;
        let mut t = None;
        if let Pat::Type(pt) = pat {
            let n = self.errors.len();
            let s = self.ty(&pt.ty);
            if self.errors.len() == n && !s.contains("<_>") && !s.contains("_,") {
                t = Some(s);
            }
            self.errors.truncate(n);
            pat = &pt.pat;
        }
        if t.is_none() {
            if let Some(i) = &l.init {
                t = self.infer(&i.expr);
                if i.diverge.is_some() {
                    // refutable pattern: bind_pat handles Some/Ok
                }
            }
        }
        let _ = &mut pat;
        t.filter(|t| !t.contains("Seq<?>"))
    }

    pub fn infer(&mut self, e: &Expr) -> Option<String> {
        match e {
            Expr::Paren(p) => self.infer(&p.expr),
            Expr::Group(p) => self.infer(&p.expr),
            Expr::Reference(p) => self.infer(&p.expr),
            Expr::Unary(u) => match u.op {
                syn::UnOp::Not(_) => Some("bool".into()),
                _ => self.infer(&u.expr),
            },
            Expr::Try(t) => {
                let x = self.infer(&t.expr)?;
                elem(&x)
            }
            Expr::Lit(l) => Some(
                match &l.lit {
                    syn::Lit::Int(i) if i.suffix() == "u8" => "u8",
                    syn::Lit::Int(_) => "int",
                    syn::Lit::Byte(_) => "u8",
                    syn::Lit::Char(_) => "char",
                    syn::Lit::Bool(_) => "bool",
                    _ => "Seq<u8>",
                }
                .to_string(),
            ),
            Expr::Cast(c) => {
                let n = self.errors.len();
                let t = self.ty(&c.ty);
                self.errors.truncate(n);
                Some(t)
            }
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    let n = p.path.segments[0].ident.to_string();
                    if let Some(t) = self.tys.get(&n) {
                        return Some(t.clone());
                    }
                    if let Some(en) = self.variants.get(&n) {
                        return Some(en.clone());
                    }
                    if let Some(c) = self.db.consts.iter().find(|c| c.1 == n).cloned() {
                        return Some(self.quiet_ty(&c.3, ""));
                    }
                    // a function of the file, used as a value
                    if let Some(f) = self.db.fns.iter().find(|f| f.impl_ty.is_none() && f.name == n && f.file == self.file).cloned() {
                        return self.ret_of(&f).map(|r| format!("fn->{r}"));
                    }
                    return None;
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let q = segs[segs.len() - 2].clone();
                let q = if q == "Self" { self.impl_ty.clone()? } else { q };
                if self.db.enums.iter().any(|e| e.1.ident == q) {
                    return Some(q);
                }
                None
            }
            Expr::Field(f) => {
                let b = self.infer(&f.base)?;
                let m = match &f.member {
                    syn::Member::Named(i) => i.to_string(),
                    syn::Member::Unnamed(i) => i.index.to_string(),
                };
                if let Some(v) = tuple_of(&b) {
                    return v.get(m.parse::<usize>().ok()?).cloned();
                }
                if !self.is_user(&b) {
                    return if m == "0" { Some(b) } else { None };
                }
                if let Some(x) = self.struct_fields(&b).into_iter().find(|x| x.0 == m) {
                    return Some(x.1);
                }
                let (_, t) = self.deref_field(&b)?;
                self.struct_fields(&t).into_iter().find(|x| x.0 == m).map(|x| x.1)
            }
            Expr::Index(i) => {
                let b = self.infer(&i.expr)?;
                if matches!(&*i.index, Expr::Range(_)) { Some(b) } else { elem(&b) }
            }
            Expr::Binary(b) => {
                use syn::BinOp::*;
                match b.op {
                    Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | And(_) | Or(_) => Some("bool".into()),
                    _ => self.infer(&b.left),
                }
            }
            Expr::Tuple(t) => {
                let mut v = vec![];
                for x in &t.elems {
                    v.push(self.infer(x)?);
                }
                Some(format!("({})", v.join(", ")))
            }
            Expr::Array(t) => {
                let x = self.infer(t.elems.first()?)?;
                Some(format!("Seq<{x}>"))
            }
            Expr::Range(_) if self.opts.uses.iter().any(|x| x == "range") => Some("XRange".into()),
            Expr::Range(r) => match (&r.start, &r.limits) {
                (Some(lo), syn::RangeLimits::Closed(_)) if matches!(&**lo, Expr::Path(_)) && self.infer(lo).as_deref() == Some("u8") => Some("Seq<u8>".into()),
                _ => Some("Seq<int>".into()),
            },
            Expr::Struct(s) => {
                let segs: Vec<String> = s.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap().clone();
                if segs.len() >= 2 {
                    let q = segs[segs.len() - 2].clone();
                    let q = if q == "Self" { self.impl_ty.clone()? } else { q };
                    if self.db.enums.iter().any(|e| e.1.ident == q) {
                        return Some(q);
                    }
                }
                if last == "Self" { self.impl_ty.clone() } else { Some(last) }
            }
            Expr::If(i) => {
                let save = self.tys.clone();
                if let Expr::Let(l) = &*i.cond {
                    if let Some(t) = self.infer(&l.expr) {
                        self.bind_pat(&l.pat, &t);
                    }
                }
                let a = self.infer_block(&i.then_branch.stmts);
                self.tys = save;
                if a.is_some() {
                    return a;
                }
                i.else_branch.as_ref().and_then(|x| self.infer(&x.1))
            }
            Expr::Block(b) => self.infer_block(&b.block.stmts),
            Expr::Match(m) => {
                let t = self.infer(&m.expr);
                for a in &m.arms {
                    let save = self.tys.clone();
                    if let Some(t) = &t {
                        self.bind_pat(&a.pat, t);
                    }
                    let r = self.infer(&a.body);
                    self.tys = save;
                    if r.is_some() {
                        return r;
                    }
                }
                None
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "format" => Some("Seq<u8>".into()),
                    "matches" => Some("bool".into()),
                    "vec" => {
                        let v = m
                            .mac
                            .parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                            .ok()?;
                        let x = self.infer(v.first()?)?;
                        Some(format!("Seq<{x}>"))
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap().clone();
                if segs.len() >= 2 {
                    if let Some(x) = self.cfg.rets.get(&segs.join("::")) {
                        return Some(x.clone());
                    }
                }
                if last == "Some" {
                    let x = self.infer(c.args.first()?)?;
                    return Some(format!("Option<{x}>"));
                }
                if last == "Ok" {
                    let x = self.infer(c.args.first()?)?;
                    return Some(format!("Result<{x}, XErr>"));
                }
                if segs.join("::").ends_with("iter::once") {
                    let x = self.infer(c.args.first()?)?;
                    return Some(format!("Seq<{x}>"));
                }
                if last == "B" || last == "Box" {
                    return self.infer(c.args.first()?);
                }
                if segs.len() >= 2 {
                    let q = segs[segs.len() - 2].clone();
                    if matches!(q.as_str(), "Vec" | "HashSet" | "BTreeSet" | "HashMap" | "BTreeMap") && matches!(last.as_str(), "new" | "with_capacity") {
                        // `Vec::<T>::new()`
                        if q == "Vec" {
                            if let syn::PathArguments::AngleBracketed(g) = &p.path.segments[segs.len() - 2].arguments {
                                if let Some(syn::GenericArgument::Type(t)) = g.args.first() {
                                    let t = self.quiet_ty(t, "");
                                    if !t.contains('_') && !t.contains('?') {
                                        return Some(format!("Seq<{t}>"));
                                    }
                                }
                            }
                        }
                        return None;
                    }
                    if matches!(q.as_str(), "String" | "BString" | "Cursor" | "BStr") {
                        return Some("Seq<u8>".into());
                    }
                    if q == "Box" && last == "new" {
                        return self.infer(c.args.first()?);
                    }
                }
                if let Some(f) = self.tys.get(&last).cloned() {
                    // a local closure
                    if let Some(r) = f.strip_prefix("fn->") {
                        return Some(r.to_string());
                    }
                }
                if segs.len() == 1 && last == "map_at" {
                    let t = self.infer(c.args.first()?)?;
                    return split_args(generic(&t, "Map")?).into_iter().nth(1).map(|x| x.trim().to_string());
                }
                let a: Vec<String> = c.args.iter().map(|x| self.infer(x).unwrap_or("?".into())).collect();
                if segs.len() >= 2 {
                    let q = segs[segs.len() - 2].clone();
                    let q = if q == "Self" { self.impl_ty.clone()? } else { q };
                    if let Some(f) = self
                        .db
                        .fns
                        .iter()
                        .find(|f| f.impl_ty.as_deref() == Some(&q) && f.name == last && last != "from")
                        .cloned()
                    {
                        return self.ret_of(&f);
                    }
                }
                self.closure_ret(&c.func, &a)
            }
            Expr::Closure(c) => {
                let ps: Vec<String> = vec![];
                let r = self.closure_ret(&Expr::Closure(c.clone()), &ps)?;
                Some(format!("fn->{r}"))
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = self.infer(&m.receiver)?;
                if let Some(x) = self.cfg.rets.get(&format!("{r}::{n}")) {
                    return Some(x.clone());
                }
                if self.is_user(&r) {
                    if let Some(f) = self.method_info(&r, &n) {
                        return self.ret_of(&f);
                    }
                    if let Some((_, t)) = self.deref_field(&r) {
                        if let Some(f) = self.method_info(&t, &n) {
                            return self.ret_of(&f);
                        }
                    }
                    if ERASED.contains(&n.as_str()) {
                        return Some(r);
                    }
                    return None;
                }
                if let Some(x) = self.cfg.rets.get(&n) {
                    return Some(x.clone());
                }
                if matches!(n.as_str(), "iter" | "into_iter") && r.starts_with("Map<") {
                    return elem(&r).map(|t| format!("Seq<{t}>"));
                }
                if ERASED.contains(&n.as_str()) {
                    return Some(r);
                }
                let el = elem(&r);
                match n.as_str() {
                    "collect" => {
                        if let Some(t) = &m.turbofish {
                            let s = quote::quote!(#t).to_string();
                            if s.contains("HashSet") || s.contains("BTreeSet") {
                                return Some(format!("Set<{}>", el?));
                            }
                        }
                        Some(r)
                    }
                    "filter" | "skip" | "take" | "rev" | "chain" | "skip_while" | "take_while" | "peekable"
                    | "to_lowercase" | "to_uppercase" | "trim" | "to_ascii_lowercase" | "or" | "or_else" => Some(r),
                    "to_str_lossy" | "to_string" | "replace" | "replacen" | "join" => Some("Seq<u8>".into()),
                    "to_str" | "extension" | "file_name" => Some("Option<Seq<u8>>".into()),
                    "map" => {
                        let b = self.closure_ret(m.args.first()?, &[el?])?;
                        let h = if r.starts_with("Option") { "Option" } else { "Seq" };
                        Some(format!("{h}<{b}>"))
                    }
                    "and_then" => self.closure_ret(m.args.first()?, &[el?]),
                    "filter_map" | "flat_map" => {
                        let b = self.closure_ret(m.args.first()?, &[el?])?;
                        Some(format!("Seq<{}>", elem(&b)?))
                    }
                    "keys" | "values" if r.starts_with("Map<") => {
                        let p = el?;
                        let v = split_args(p.strip_prefix('(')?.strip_suffix(')')?);
                        Some(format!("Seq<{}>", v.get(if n == "keys" { 0 } else { 1 })?.trim()))
                    }
                    "flatten" => el,
                    "enumerate" => Some(format!("Seq<(int, {})>", el?)),
                    "zip" => {
                        let b = self.infer(m.args.first()?)?;
                        Some(format!("Seq<({}, {})>", el?, elem(&b)?))
                    }
                    "first" | "last" | "get" | "next" | "find" | "pop" | "nth" | "iter().next" => {
                        if r.starts_with("Set") { None } else { Some(format!("Option<{}>", el?)) }
                    }
                    "position" => Some("Option<int>".into()),
                    "parse" if m.args.is_empty() => {
                        let t = m.turbofish.as_ref()?.args.first()?;
                        let syn::GenericArgument::Type(t) = t else { return None };
                        Some(format!("Result<{}, XErr>", self.quiet_ty(&t.clone(), "")))
                    }
                    "count" | "len" | "sum" => Some("int".into()),
                    "unwrap" | "expect" | "unwrap_or" | "unwrap_or_default" | "unwrap_or_else" => el,
                    "any" | "all" | "contains" | "is_empty" | "is_some" | "is_none" | "starts_with" | "ends_with"
                    | "contains_str" | "is_some_and" | "is_none_or" | "is_ok" | "is_err" => Some("bool".into()),
                    "ok" => Some(format!("Option<{}>", el?)),
                    "ok_or" | "ok_or_else" => Some(format!("Result<{}, XErr>", el?)),
                    "fold" => m.args.first().and_then(|x| self.infer(x)),
                    "reduce" => Some(format!("Option<{}>", el?)),
                    "chars" => Some("Seq<char>".into()),
                    "bytes" => Some(r),
                    "saturating_sub" | "saturating_add" | "min" | "max" | "abs" => Some(r),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// element type of a vector that is declared empty: look for pushes
    pub fn infer_push(&mut self, v: &str, ss: &[Stmt]) -> Option<String> {
        let save = self.tys.clone();
        let r = self.push_block(v, ss);
        self.tys = save;
        r
    }

    fn push_block(&mut self, v: &str, ss: &[Stmt]) -> Option<String> {
        let save = self.tys.clone();
        let mut r = None;
        for s in ss {
            r = match s {
                Stmt::Local(l) => {
                    let r = l.init.as_ref().and_then(|i| self.push_expr(v, &i.expr));
                    self.note_local(l);
                    r
                }
                Stmt::Expr(e, _) => self.push_expr(v, e),
                _ => None,
            };
            if r.is_some() {
                break;
            }
        }
        self.tys = save;
        r
    }

    fn push_expr(&mut self, v: &str, e: &Expr) -> Option<String> {
        match e {
            Expr::MethodCall(m) => {
                if let Expr::Path(p) = &*m.receiver {
                    if p.path.is_ident(v) && !m.args.is_empty() {
                        if m.method == "push" {
                            if let Some(t) = self.infer(&m.args[0]) {
                                return Some(format!("Seq<{t}>"));
                            }
                        }
                        if m.method == "insert" && m.args.len() == 1 {
                            if let Some(t) = self.infer(&m.args[0]) {
                                return Some(format!("Set<{t}>"));
                            }
                        }
                        if m.method == "insert" && m.args.len() == 2 {
                            if let (Some(k), Some(t)) = (self.infer(&m.args[0]), self.infer(&m.args[1])) {
                                return Some(format!("Map<{k}, {t}>"));
                            }
                        }
                        if m.method == "extend" || m.method == "extend_from_slice" || m.method == "push_str" {
                            if let Some(t) = self.infer(&m.args[0]) {
                                return Some(t);
                            }
                        }
                    }
                }
                let r = self.push_expr(v, &m.receiver);
                if r.is_some() {
                    return r;
                }
                m.args.iter().find_map(|a| self.push_expr(v, a))
            }
            Expr::ForLoop(f) => {
                let save = self.tys.clone();
                if let Some(t) = self.infer(&f.expr).and_then(|t| elem(&t)) {
                    self.bind_pat(&f.pat, &t);
                }
                let r = self.push_block(v, &f.body.stmts);
                self.tys = save;
                r
            }
            Expr::While(w) => self.push_block(v, &w.body.stmts),
            Expr::Loop(w) => self.push_block(v, &w.body.stmts),
            Expr::Block(b) => self.push_block(v, &b.block.stmts),
            Expr::If(i) => {
                let save = self.tys.clone();
                if let Expr::Let(l) = &*i.cond {
                    if let Some(t) = self.infer(&l.expr) {
                        self.bind_pat(&l.pat, &t);
                    }
                }
                let r = self.push_expr(v, &i.cond).or_else(|| self.push_block(v, &i.then_branch.stmts));
                self.tys = save;
                r.or_else(|| i.else_branch.as_ref().and_then(|x| self.push_expr(v, &x.1)))
            }
            Expr::Match(m) => {
                let t = self.infer(&m.expr);
                for a in &m.arms {
                    let save = self.tys.clone();
                    if let Some(t) = &t {
                        self.bind_pat(&a.pat, t);
                    }
                    let r = self.push_expr(v, &a.body);
                    self.tys = save;
                    if r.is_some() {
                        return r;
                    }
                }
                None
            }
            Expr::Paren(p) => self.push_expr(v, &p.expr),
            Expr::Unary(p) => self.push_expr(v, &p.expr),
            Expr::Binary(b) => self.push_expr(v, &b.left).or_else(|| self.push_expr(v, &b.right)),
            Expr::Try(p) => self.push_expr(v, &p.expr),
            // `v = map_put(v, K, V)`
            Expr::Assign(a) if matches!(&*a.left, Expr::Path(p) if p.path.is_ident(v))
                && matches!(&*a.right, Expr::Call(c) if c.args.len() == 3 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("map_put"))) =>
            {
                let Expr::Call(c) = &*a.right else { return None };
                let (k, t) = (self.infer(&c.args[1])?, self.infer(&c.args[2])?);
                Some(format!("Map<{k}, {t}>")).filter(|t| !t.contains('?'))
            }
            // `v = Some(..)` after `let mut v = None`
            Expr::Assign(a) if matches!(&*a.left, Expr::Path(p) if p.path.is_ident(v)) => {
                self.infer(&a.right).filter(|t| t.starts_with("Option<") && !t.contains('?'))
            }
            _ => None,
        }
    }
}
