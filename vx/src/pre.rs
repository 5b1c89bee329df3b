//! Source-level normalisation before the translation.  Every step keeps the
//! meaning of the code; what it drops is stated at the directive.
use std::collections::{BTreeSet, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::{Block, Expr, Ident, Pat, Stmt};

#[derive(Default, Clone)]
pub struct PreCfg {
    /// types whose values only report progress to the terminal: their
    /// bindings and the calls on them are dropped
    pub drop: BTreeSet<String>,
    /// `while let Some(p) = r.METHOD()` reads a source to its end
    pub iters: BTreeSet<String>,
    /// ghost log of the values a variable held before it is reassigned
    pub log: Option<String>,
    /// ghost log of the values of a `for` loop's `mut` variable at the end
    /// of each round
    pub collect: Option<String>,
    /// the macros by example of the function's file
    pub macros: std::collections::BTreeMap<String, proc_macro2::TokenStream>,
    /// `NAME_mut`, `NAME_each`: what a method NAME that also exists on other
    /// types with another receiver is called on a mutable alias
    /// (`match x { P(ref mut a) => a.NAME() }`, `for (_, a) in x.iter_mut()`)
    pub variants: BTreeSet<String>,
}

pub fn ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => ident(&p.expr),
        Expr::Group(p) => ident(&p.expr),
        _ => None,
    }
}

struct Count<'a>(&'a str, usize);
impl<'ast> Visit<'ast> for Count<'_> {
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.path.is_ident(self.0) {
            self.1 += 1;
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        // any mention inside a macro counts
        if m.tokens.to_string().contains(self.0) {
            self.1 += 100;
        }
    }
}
fn uses(b: &Block, n: &str) -> usize {
    let mut c = Count(n, 0);
    c.visit_block(b);
    c.1
}

struct Variant<'a>(&'a str, &'a str, &'a BTreeSet<String>);
impl VisitMut for Variant<'_> {
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        let n = format!("{}_{}", m.method, self.1);
        if ident(&m.receiver).as_deref() == Some(self.0) && self.2.contains(&n) {
            m.method = Ident::new(&n, m.method.span());
        }
    }
}
struct Rename<'a>(&'a str, &'a str);
impl VisitMut for Rename<'_> {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.path.is_ident(self.0) {
            p.path = Ident::new(self.1, proc_macro2::Span::call_site()).into();
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = rename_tokens(m.tokens.clone(), self.0, self.1);
    }
}
fn rename_tokens(t: proc_macro2::TokenStream, a: &str, b: &str) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree::*;
    t.into_iter()
        .map(|x| match x {
            Ident(i) if i == a => Ident(proc_macro2::Ident::new(b, i.span())),
            Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), a, b));
                n.set_span(g.span());
                Group(n)
            }
            x => x,
        })
        .collect()
}

pub struct Pre<'a> {
    pub cfg: &'a PreCfg,
    pub whole: Block,
    pub dropped: HashSet<String>,
    pub errors: Vec<String>,
    pub n: usize,
}

fn mentions_type(e: &Expr, drop: &BTreeSet<String>) -> bool {
    match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => p.path.segments.len() == 2 && drop.contains(&p.path.segments[0].ident.to_string()),
            _ => false,
        },
        _ => false,
    }
}

impl Pre<'_> {
    fn is_dropped(&self, s: &Stmt) -> bool {
        if let Stmt::Expr(Expr::MethodCall(m), _) = s {
            if let Some(id) = ident(&m.receiver) {
                return self.dropped.contains(&id)
                    && m.args.iter().all(|a| matches!(a, Expr::Lit(_) | Expr::Path(_)));
            }
        }
        false
    }
    /// `if let Some(ref mut x) = PLACE { B }`: x is an alias of the content
    /// of PLACE inside B
    fn ref_mut(&mut self, i: &mut syn::ExprIf) {
        let Expr::Let(l) = &mut *i.cond else { return };
        let Pat::TupleStruct(ts) = &mut *l.pat else { return };
        if ts.elems.len() != 1 {
            return;
        }
        let path = ts.path.clone();
        let by_ref = matches!(&ts.elems[0], Pat::Ident(id) if id.by_ref.is_some() && id.mutability.is_some());
        let (place, is_mut_expr) = match &*l.expr {
            Expr::Reference(r) if r.mutability.is_some() => ((*r.expr).clone(), true),
            Expr::MethodCall(m) if m.method == "as_mut" && m.args.is_empty() => ((*m.receiver).clone(), true),
            x => (x.clone(), false),
        };
        let Pat::Ident(id) = &mut ts.elems[0] else { return };
        if !(by_ref || is_mut_expr) {
            return;
        }
        let mut plain = i.then_branch.clone();
        Written.visit_block_mut(&mut plain);
        if crate::tr::block_escape(&plain) {
            self.errors.push("early exit while a mutable alias is live".into());
            return;
        }
        if !is_place(&place) || !(by_ref || path.is_ident("Some")) {
            self.errors.push("mutable alias of a place that is not a variable".into());
            return;
        }
        self.n += 1;
        let old = id.ident.to_string();
        let new = format!("{old}__m{}", self.n);
        let src = Ident::new(&format!("{old}__s{}", self.n), proc_macro2::Span::call_site());
        let newi = Ident::new(&new, proc_macro2::Span::call_site());
        Rename(&old, &new).visit_block_mut(&mut i.then_branch);
        id.by_ref = None;
        id.mutability = None;
        id.ident = src.clone();
        *l.expr = place.clone();
        let mut v: Vec<Stmt> = vec![syn::parse_quote!(let #newi = #src;)];
        for s in i.then_branch.stmts.drain(..) {
            // every statement yields `()`, so that the write-back comes last
            v.push(match s {
                Stmt::Expr(e, None) => Stmt::Expr(e, Some(Default::default())),
                s => s,
            });
        }
        v.push(syn::parse_quote!(#place = #path(#newi);));
        i.then_branch.stmts = v;
    }
    /// `match PLACE { P(ref mut x) => B, .. }`: the same in an arm
    fn ref_mut_arms(&mut self, m: &mut syn::ExprMatch) {
        let place = (*m.expr).clone();
        if !matches!(place, Expr::Field(_)) || !is_place(&place) {
            return;
        }
        for a in m.arms.iter_mut() {
            let Pat::TupleStruct(ts) = &mut a.pat else { continue };
            let path = ts.path.clone();
            if ts.elems.len() != 1 || a.guard.is_some() {
                continue;
            }
            let Pat::Ident(id) = &mut ts.elems[0] else { continue };
            if id.by_ref.is_none() || id.mutability.is_none() {
                continue;
            }
            let body: Block = match &*a.body {
                Expr::Block(b) => b.block.clone(),
                x => syn::parse_quote!({ #x }),
            };
            if crate::tr::block_escape(&body) {
                self.errors.push("early exit while a mutable alias is live".into());
                continue;
            }
            self.n += 1;
            let old = id.ident.to_string();
            let new = format!("{old}__m{}", self.n);
            let src = Ident::new(&format!("{old}__s{}", self.n), proc_macro2::Span::call_site());
            let res = Ident::new(&format!("{old}__r{}", self.n), proc_macro2::Span::call_site());
            let newi = Ident::new(&new, proc_macro2::Span::call_site());
            let mut body = body;
            Rename(&old, &new).visit_block_mut(&mut body);
            Variant(&new, "mut", &self.cfg.variants).visit_block_mut(&mut body);
            id.by_ref = None;
            id.mutability = None;
            id.ident = src.clone();
            let value: Expr = match (body.stmts.len(), body.stmts.first()) {
                (1, Some(Stmt::Expr(e, None))) => e.clone(),
                _ => syn::parse_quote!(#body),
            };
            *a.body = syn::parse_quote!({
                let #newi = #src;
                let #res = #value;
                #place = #path(#newi);
                #res
            });
        }
    }
}

/// `break`/`continue` of this loop: the entry is written back first
struct WriteBack<'a>(&'a Stmt);
impl VisitMut for WriteBack<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Break(_) | Expr::Continue(_) => {
                let (w, x) = (self.0, e.clone());
                *e = syn::parse_quote!({ #w #x });
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

impl Pre<'_> {
    /// `for (k, v) in self.map.iter_mut() { .. }` (or `.for_each(..)`): each
    /// entry is copied out and written back at the end of its round. What the
    /// map holds after an early return with an error is not modelled.
    fn map_iter_mut(&mut self, s: &mut Stmt) {
        let Stmt::Expr(e, _) = &*s else { return };
        let (src, pat, body): (Expr, Pat, Block) = match e {
            Expr::ForLoop(f) if f.label.is_none() => ((*f.expr).clone(), (*f.pat).clone(), f.body.clone()),
            Expr::MethodCall(m) if m.method == "for_each" && m.args.len() == 1 => {
                let Expr::Closure(c) = &m.args[0] else { return };
                if c.inputs.len() != 1 {
                    return;
                }
                let x = &c.body;
                ((*m.receiver).clone(), c.inputs[0].clone(), syn::parse_quote!({ #x; }))
            }
            _ => return,
        };
        let Expr::MethodCall(it) = &src else { return };
        if it.method != "iter_mut" || !it.args.is_empty() || !matches!(&*it.receiver, Expr::Field(_)) || !is_place(&it.receiver) {
            return;
        }
        let Pat::Tuple(t) = &pat else { return };
        if t.elems.len() != 2 {
            return;
        }
        let Pat::Ident(v) = &t.elems[1] else { return };
        if v.by_ref.is_some() || v.mutability.is_some() || v.subpat.is_some() {
            return;
        }
        self.n += 1;
        let n = self.n;
        let mk = |x: &str| Ident::new(&format!("{x}__{n}"), proc_macro2::Span::call_site());
        let (key, val, v) = (mk("entk"), mk("entv"), v.ident.clone());
        let place = (*it.receiver).clone();
        let mut body = body;
        let wb: Stmt = syn::parse_quote!(#place.insert(#key, #v););
        WriteBack(&wb).visit_block_mut(&mut body);
        Variant(&v.to_string(), "each", &self.cfg.variants).visit_block_mut(&mut body);
        let open: Option<Stmt> = match &t.elems[0] {
            Pat::Wild(_) => None,
            Pat::Ident(k) => {
                let k = &k.ident;
                Some(syn::parse_quote!(let #k = #key;))
            }
            _ => return,
        };
        close(&mut body);
        let mut stmts: Vec<Stmt> = vec![];
        stmts.extend(open);
        stmts.push(syn::parse_quote!(let mut #v = #val;));
        stmts.extend(body.stmts);
        stmts.push(wb);
        let body = Block { brace_token: Default::default(), stmts };
        *s = syn::parse_quote!(for (#key, #val) in #place #body);
    }
}

impl VisitMut for Pre<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if mentions_type(&init.expr, &self.cfg.drop) {
                        self.dropped.insert(i.ident.to_string());
                        continue;
                    }
                }
            }
            if self.is_dropped(&s) {
                continue;
            }
            out.push(s);
        }
        for s in out.iter_mut() {
            if let Some(x) = entry_modify(s) {
                *s = x;
            }
            self.map_iter_mut(s);
        }
        b.stmts = out;
        entry_alias(b, &self.whole);
        visit_mut::visit_block_mut(self, b);
        if let Some(v) = self.cfg.collect.clone() {
            let log = Ident::new(&format!("{v}__log"), proc_macro2::Span::call_site());
            let vi = Ident::new(&v, proc_macro2::Span::call_site());
            let mut out: Vec<Stmt> = vec![];
            for mut s in b.stmts.drain(..) {
                if let Stmt::Expr(Expr::ForLoop(f), _) = &mut s {
                    if binds_mut(&f.pat, &v) {
                        out.push(syn::parse_quote!(let mut #log = Vec::new();));
                        close(&mut f.body);
                        f.body.stmts.push(syn::parse_quote!(#log.push(#vi);));
                    }
                }
                out.push(s);
            }
            b.stmts = out;
        }
        if let Some(v) = self.cfg.log.clone() {
            let log = Ident::new(&format!("{v}__log"), proc_macro2::Span::call_site());
            let vi = Ident::new(&v, proc_macro2::Span::call_site());
            let mut out: Vec<Stmt> = vec![];
            for s in b.stmts.drain(..) {
                match &s {
                    Stmt::Local(l) if matches!(&l.pat, Pat::Ident(i) if i.ident == v) => {
                        out.push(syn::parse_quote!(let mut #log = Vec::new();));
                        out.push(s);
                    }
                    Stmt::Expr(Expr::Assign(a), _) if ident(&a.left).as_deref() == Some(&v) => {
                        out.push(syn::parse_quote!(#log.push(#vi);));
                        out.push(s);
                    }
                    _ => out.push(s),
                }
            }
            b.stmts = out;
        }
    }
    fn visit_expr_if_mut(&mut self, i: &mut syn::ExprIf) {
        self.ref_mut(i);
        visit_mut::visit_expr_if_mut(self, i);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Match(m) = e {
            self.ref_mut_arms(m);
        }
        visit_mut::visit_expr_mut(self, e);
        // a loop ends where its body leaves it
        if let Expr::Loop(l) = e {
            let mut v = BreakValue(false);
            v.visit_block(&l.body);
            if !v.0 {
                let (label, body) = (&l.label, &l.body);
                *e = syn::parse_quote!(#label for _ in x_forever() #body);
            }
            return;
        }
        // `*M.entry(K).or_insert(V) OP= E`
        if let Expr::Binary(b) = e {
            if let Some(x) = entry_or_insert(b) {
                *e = x;
            }
            return;
        }
        // reading a source to its end is a loop over its items
        let Expr::While(w) = e else { return };
        if !matches!(&*w.cond, Expr::Let(_)) && !matches!(&*w.cond, Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_))) {
            let (label, cond, body) = (&w.label, &w.cond, &w.body.stmts);
            *e = syn::parse_quote!(#label for _ in x_forever() { if !(#cond) { break; } #(#body)* });
            return;
        }
        let Expr::Let(l) = &*w.cond else { return };
        let Pat::TupleStruct(ts) = &*l.pat else { return };
        if !ts.path.is_ident("Some") || ts.elems.len() != 1 {
            return;
        }
        let Expr::MethodCall(m) = &*l.expr else { return };
        if !m.args.is_empty() || !self.cfg.iters.contains(&m.method.to_string()) {
            return;
        }
        let Some(r) = ident(&m.receiver) else { return };
        if uses(&self.whole, &r) != 1 {
            self.errors.push(format!("`{r}` is used besides reading it to its end"));
            return;
        }
        let items = Ident::new(&format!("{}_items", m.method), proc_macro2::Span::call_site());
        let ri = Ident::new(&r, proc_macro2::Span::call_site());
        let (pat, body, label) = (&ts.elems[0], &w.body, &w.label);
        *e = syn::parse_quote!(#label for #pat in #ri.#items() #body);
    }
}

struct BreakValue(bool);
impl<'ast> Visit<'ast> for BreakValue {
    fn visit_expr_break(&mut self, b: &'ast syn::ExprBreak) {
        self.0 |= b.expr.is_some();
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}
struct Lets(HashSet<String>);
impl<'ast> Visit<'ast> for Lets {
    fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
        self.0.insert(i.ident.to_string());
    }
}
struct Mentions<'a>(&'a HashSet<String>, bool);
impl<'ast> Visit<'ast> for Mentions<'_> {
    fn visit_ident(&mut self, i: &'ast Ident) {
        self.1 |= self.0.contains(&i.to_string());
    }
}

/// Expand one call of a macro by example whose parameters are all
/// expressions.  `None`: not of that form, or not hygienic.
pub fn expand(def: &proc_macro2::TokenStream, call: &proc_macro2::TokenStream) -> Option<Vec<Stmt>> {
    use proc_macro2::{Delimiter, TokenTree};
    use syn::parse::Parser;
    let args: Vec<Expr> = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(call.clone()).ok()?.into_iter().collect();
    let toks: Vec<TokenTree> = def.clone().into_iter().collect();
    let mut k = 0;
    while k < toks.len() {
        let TokenTree::Group(pat) = toks.get(k)? else { return None };
        let TokenTree::Group(body) = toks.get(k + 3)? else { return None };
        k += 4;
        if let Some(TokenTree::Punct(p)) = toks.get(k) {
            if p.as_char() == ';' {
                k += 1;
            }
        }
        // `$name:expr, ...`
        let mut names = vec![];
        let pt: Vec<TokenTree> = pat.stream().into_iter().collect();
        let mut j = 0;
        while j < pt.len() {
            match (pt.get(j), pt.get(j + 1), pt.get(j + 2), pt.get(j + 3)) {
                (Some(TokenTree::Punct(d)), Some(TokenTree::Ident(n)), Some(TokenTree::Punct(c)), Some(TokenTree::Ident(kind))) if d.as_char() == '$' && c.as_char() == ':' && kind == "expr" => names.push(n.to_string()),
                _ => return None,
            }
            j += 4;
            if let Some(TokenTree::Punct(c)) = pt.get(j) {
                if c.as_char() != ',' {
                    return None;
                }
                j += 1;
            }
        }
        if names.len() != args.len() {
            continue;
        }
        fn subst(t: proc_macro2::TokenStream, names: &[String], args: &[Expr]) -> Option<proc_macro2::TokenStream> {
            let v: Vec<TokenTree> = t.into_iter().collect();
            let mut out = proc_macro2::TokenStream::new();
            let mut i = 0;
            while i < v.len() {
                match &v[i] {
                    TokenTree::Punct(p) if p.as_char() == '$' => {
                        let TokenTree::Ident(n) = v.get(i + 1)? else { return None };
                        let a = &args[names.iter().position(|x| n == x)?];
                        out.extend(if matches!(a, Expr::Path(_)) { quote::quote!(#a) } else { quote::quote!((#a)) });
                        i += 2;
                        continue;
                    }
                    TokenTree::Group(g) => {
                        let n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), names, args)?);
                        out.extend([TokenTree::Group(n)]);
                    }
                    x => out.extend([x.clone()]),
                }
                i += 1;
            }
            Some(out)
        }
        let mut lets = Lets(HashSet::new());
        let body_t = subst(body.stream(), &names, &args)?;
        let g = proc_macro2::Group::new(Delimiter::Brace, body_t);
        let b: Block = syn::parse2(quote::quote!(#g)).ok()?;
        lets.visit_block(&b);
        let mut m = Mentions(&lets.0, false);
        for a in &args {
            m.visit_expr(a);
        }
        if m.1 {
            return None;
        }
        return Some(b.stmts);
    }
    None
}
struct Macros<'a>(&'a PreCfg);
impl VisitMut for Macros<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Macro(m) = &s {
                if let Some(d) = m.mac.path.get_ident().and_then(|i| self.0.macros.get(&i.to_string())) {
                    if let Some(ss) = expand(d, &m.mac.tokens) {
                        match &ss[..] {
                            [Stmt::Expr(e, _)] => out.push(Stmt::Expr(e.clone(), m.semi_token)),
                            _ => out.push(Stmt::Expr(syn::parse_quote!({ #(#ss)* }), m.semi_token)),
                        }
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

struct Peeks<'a>(&'a str, usize, usize);
impl VisitMut for Peeks<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "peek" && m.args.is_empty() && ident(&m.receiver).as_deref() == Some(self.0) {
                self.1 += 1;
                let (r, i) = (Ident::new(self.0, proc_macro2::Span::call_site()), Ident::new(&format!("{}__i", self.0), proc_macro2::Span::call_site()));
                *e = syn::parse_quote!(#r.get(#i + 1));
            }
        }
    }
}
/// every statement of the block yields `()`
fn close(b: &mut Block) {
    for s in &mut b.stmts {
        if let Stmt::Expr(_, semi @ None) = s {
            *semi = Some(Default::default());
        }
    }
}
fn binds_mut(p: &Pat, v: &str) -> bool {
    struct P<'a>(&'a str, bool);
    impl<'ast> Visit<'ast> for P<'_> {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            self.1 |= i.ident == self.0 && i.mutability.is_some() && i.by_ref.is_none();
        }
    }
    let mut x = P(v, false);
    x.visit_pat(p);
    x.1
}
fn declares_mut(b: &Block, v: &str) -> bool {
    struct L<'a>(&'a str, usize);
    impl<'ast> Visit<'ast> for L<'_> {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            if i.ident == self.0 {
                self.1 += if i.mutability.is_some() && i.by_ref.is_none() { 1 } else { 100 };
            }
        }
    }
    let mut x = L(v, 0);
    x.visit_block(b);
    x.1 == 1
}
/// `break` or `continue`, which would leave a block without its last statement
struct Leaves(bool);
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr_break(&mut self, _: &'ast syn::ExprBreak) { self.0 = true; }
    fn visit_expr_continue(&mut self, _: &'ast syn::ExprContinue) { self.0 = true; }
}
fn sole(e: &Expr) -> &Expr {
    match e {
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(x, None) => sole(x),
            _ => e,
        },
        Expr::Paren(p) => sole(&p.expr),
        _ => e,
    }
}
/// `let E = M.entry(K); let W = match E { Vacant(v) => { S; v.insert(X) },
/// Occupied(ref mut o) => o.get_mut() }; REST` for a local map M: W is an
/// alias of the value under K to the end of the block
fn entry_alias(b: &mut Block, whole: &Block) {
    let n = b.stmts.len();
    for k in 0..n {
        let Stmt::Local(l) = &b.stmts[k] else { continue };
        let (Pat::Ident(w), Some(init)) = (&l.pat, &l.init) else { continue };
        let Expr::Match(m) = &*init.expr else { continue };
        if init.diverge.is_some() || m.arms.len() != 2 {
            continue;
        }
        let (entry, from) = match ident(&m.expr) {
            Some(e) => {
                let Some(j) = (0..k).rev().find(|j| matches!(&b.stmts[*j], Stmt::Local(x) if matches!(&x.pat, Pat::Ident(i) if i.ident == e))) else { continue };
                let Stmt::Local(x) = &b.stmts[j] else { continue };
                let Some(i) = &x.init else { continue };
                if j + 1 != k || uses(whole, &e) != 1 {
                    continue;
                }
                ((*i.expr).clone(), j)
            }
            None => ((*m.expr).clone(), k),
        };
        let Expr::MethodCall(c) = &entry else { continue };
        if c.method != "entry" || c.args.len() != 1 {
            continue;
        }
        let (map, key) = (c.receiver.clone(), c.args[0].clone());
        let Some(mid) = ident(&map) else { continue };
        if !declares_mut(whole, &mid) {
            continue;
        }
        let (mut vacant, mut occupied) = (None, false);
        for a in &m.arms {
            let Pat::TupleStruct(t) = &a.pat else { continue };
            if a.guard.is_some() || t.elems.len() != 1 {
                continue;
            }
            let Pat::Ident(v) = &t.elems[0] else { continue };
            let body: Block = match &*a.body {
                Expr::Block(x) if x.label.is_none() => x.block.clone(),
                x => syn::parse_quote!({ #x }),
            };
            match t.path.segments.last().unwrap().ident.to_string().as_str() {
                "Vacant" => {
                    let Some(Stmt::Expr(Expr::MethodCall(i), None)) = body.stmts.last() else { continue };
                    if i.method == "insert" && i.args.len() == 1 && ident(&i.receiver).as_deref() == Some(&v.ident.to_string()) && uses(&body, &v.ident.to_string()) == 1 {
                        let mut s = body.stmts.clone();
                        s.pop();
                        vacant = Some((s, i.args[0].clone()));
                    }
                }
                "Occupied" => {
                    if let Expr::MethodCall(i) = sole(&a.body) {
                        occupied = matches!(i.method.to_string().as_str(), "get_mut" | "into_mut") && i.args.is_empty() && ident(&i.receiver).as_deref() == Some(&v.ident.to_string());
                    }
                }
                _ => {}
            }
        }
        let (Some((pre, val)), true) = (vacant, occupied) else { continue };
        let mut rest = Block { brace_token: Default::default(), stmts: b.stmts[k + 1..].to_vec() };
        let mut lv = Leaves(false);
        lv.visit_block(&rest);
        for s in &pre {
            lv.visit_stmt(s);
        }
        if lv.0 || uses(&rest, &mid) > 0 {
            continue;
        }
        close(&mut rest);
        let w = w.ident.clone();
        let rest = rest.stmts;
        let mut out: Vec<Stmt> = b.stmts[..from].to_vec();
        let new: Block = syn::parse_quote!({
            let k__ = #key;
            if !#map.contains_key(k__) { #(#pre)* #map = map_put(#map, k__, #val); }
            let mut #w = map_at(#map, k__);
            #(#rest)*
            #map = map_put(#map, k__, #w);
        });
        out.extend(new.stmts);
        b.stmts = out;
        return;
    }
}
/// `M.entry(K).and_modify(|e| F).or_insert(V);` runs F on what is under K, or
/// puts V there
fn entry_modify(s: &Stmt) -> Option<Stmt> {
    let Stmt::Expr(Expr::MethodCall(o), Some(_)) = s else { return None };
    let v: Expr = match (o.method.to_string().as_str(), o.args.len()) {
        ("or_insert", 1) => o.args[0].clone(),
        ("or_insert_with", 1) => match &o.args[0] {
            Expr::Closure(c) if c.inputs.is_empty() => (*c.body).clone(),
            _ => return None,
        },
        _ => return None,
    };
    let Expr::MethodCall(a) = &*o.receiver else { return None };
    if a.method != "and_modify" || a.args.len() != 1 {
        return None;
    }
    let Expr::Closure(c) = &a.args[0] else { return None };
    let (1, Some(Pat::Ident(w))) = (c.inputs.len(), c.inputs.first()) else { return None };
    let Expr::MethodCall(n) = &*a.receiver else { return None };
    if n.method != "entry" || n.args.len() != 1 {
        return None;
    }
    let (m, k, w, f) = (&n.receiver, &n.args[0], &w.ident, sole(&c.body));
    if has_return(f) {
        return None;
    }
    Some(Stmt::Expr(syn::parse_quote!({
        let k__ = #k;
        if #m.contains_key(k__) { let mut #w = map_at(#m, k__); #f; #m = map_put(#m, k__, #w); } else { #m = map_put(#m, k__, #v); }
    }), Some(Default::default())))
}
fn has_return(e: &Expr) -> bool {
    struct R(bool);
    impl<'ast> Visit<'ast> for R {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true; }
    }
    let mut r = R(false);
    r.visit_expr(e);
    r.0
}
/// `*M.entry(K).or_insert(V) OP= E` puts under K what was there, or V, and E
fn entry_or_insert(b: &syn::ExprBinary) -> Option<Expr> {
    let op: syn::BinOp = match b.op {
        syn::BinOp::AddAssign(_) => syn::parse_quote!(+),
        syn::BinOp::SubAssign(_) => syn::parse_quote!(-),
        syn::BinOp::MulAssign(_) => syn::parse_quote!(*),
        _ => return None,
    };
    let Expr::Unary(u) = &*b.left else { return None };
    if !matches!(u.op, syn::UnOp::Deref(_)) {
        return None;
    }
    let Expr::MethodCall(o) = &*u.expr else { return None };
    let Expr::MethodCall(n) = &*o.receiver else { return None };
    if n.method != "entry" || n.args.len() != 1 {
        return None;
    }
    let zero: Expr = syn::parse_quote!(0);
    let v = match (o.method.to_string().as_str(), o.args.len()) {
        ("or_insert", 1) => &o.args[0],
        ("or_default", 0) => &zero,
        _ => return None,
    };
    ident(&n.receiver)?;
    let (m, k, x) = (&n.receiver, &n.args[0], &b.right);
    Some(syn::parse_quote!({ let k__ = #k; #m = map_put(#m, k__, map_or(#m, k__, #v) #op #x); }))
}

/// `let mut it = E.peekable(); while let Some(x) = it.next() { .. it.peek() .. }`
/// visits the items of E one by one, and the peeked one is the next of them
fn peekable(b: &mut Block) {
    let Some(k) = b.stmts.iter().position(|s| matches!(s, Stmt::Local(l) if matches!((&l.pat, &l.init), (Pat::Ident(_), Some(i)) if matches!(&*i.expr, Expr::MethodCall(m) if m.method == "peekable" && m.args.is_empty())))) else { return };
    let Stmt::Local(l) = &b.stmts[k] else { return };
    let Pat::Ident(id) = &l.pat else { return };
    let n = id.ident.to_string();
    let whole = uses(b, &n);
    for j in k + 1..b.stmts.len() {
        let Stmt::Expr(Expr::While(w), semi) = &b.stmts[j] else { continue };
        let Expr::Let(c) = &*w.cond else { continue };
        let Pat::TupleStruct(ts) = &*c.pat else { continue };
        let Expr::MethodCall(m) = &*c.expr else { continue };
        if !ts.path.is_ident("Some") || ts.elems.len() != 1 || m.method != "next" || ident(&m.receiver).as_deref() != Some(&n) {
            continue;
        }
        let mut body = w.body.clone();
        let mut p = Peeks(&n, 0, 0);
        p.visit_block_mut(&mut body);
        if p.1 + 1 != whole {
            return;
        }
        let (label, pat) = (w.label.clone(), ts.elems[0].clone());
        let (r, i) = (Ident::new(&n, proc_macro2::Span::call_site()), Ident::new(&format!("{n}__i"), proc_macro2::Span::call_site()));
        let e: Expr = syn::parse_quote!(#label for (#i, #pat) in #r.enumerate() #body);
        let semi = *semi;
        b.stmts[j] = Stmt::Expr(e, semi);
        if let Stmt::Local(l) = &mut b.stmts[k] {
            if let Some(init) = &mut l.init {
                if let Expr::MethodCall(m) = &*init.expr {
                    let x = (*m.receiver).clone();
                    *init.expr = x;
                }
            }
            if let Pat::Ident(id) = &mut l.pat {
                id.mutability = None;
            }
        }
        return;
    }
}

pub fn run(cfg: &PreCfg, b: &Block) -> (Block, Vec<String>) {
    let mut b2 = b.clone();
    Macros(cfg).visit_block_mut(&mut b2);
    peekable(&mut b2);
    let b = &b2.clone();
    let mut p = Pre { cfg, whole: b.clone(), dropped: HashSet::new(), errors: vec![], n: 0 };
    p.visit_block_mut(&mut b2);
    let errs = std::mem::take(&mut p.errors);
    let d: Vec<String> = p.dropped.iter().cloned().collect();
    let mut errors = errs;
    for x in d {
        if uses(&b2, &x) > 0 {
            errors.push(format!("`{x}` is used for more than progress"));
        }
    }
    let mut a = Alias(vec![]);
    a.visit_block(&b2);
    errors.extend(a.0);
    (b2, errors)
}

/// a variable, or a field of `self`
fn is_place(e: &Expr) -> bool {
    ident(e).is_some() || matches!(e, Expr::Field(f) if ident(&f.base).as_deref() == Some("self"))
}
/// write errors are not modelled: `w.write_record(..)?` does not leave
struct Written;
impl VisitMut for Written {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            if matches!(&*t.expr, Expr::MethodCall(m) if m.method == "write_record") {
                *e = (*t.expr).clone();
            }
        }
    }
}

/// `ref mut x` patterns that are left over: changes through x would be lost
struct Alias(Vec<String>);
fn has_ref_mut(p: &Pat) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
            self.0 |= i.by_ref.is_some() && i.mutability.is_some();
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}
impl<'ast> Visit<'ast> for Alias {
    fn visit_expr_let(&mut self, l: &'ast syn::ExprLet) {
        if has_ref_mut(&l.pat) {
            self.0.push("mutable alias in a pattern".into());
        }
        visit::visit_expr_let(self, l);
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        // a local result that is taken apart is not used afterwards
        if ident(&m.expr).is_none() || ident(&m.expr).as_deref() == Some("self") {
            for a in &m.arms {
                if has_ref_mut(&a.pat) {
                    self.0.push("mutable alias in a pattern".into());
                }
            }
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if has_ref_mut(&l.pat) {
            self.0.push("mutable alias in a pattern".into());
        }
        visit::visit_local(self, l);
    }
}
