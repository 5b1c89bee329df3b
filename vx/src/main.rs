//! vx: mechanical extraction of /repo functions into a Verus unit.
//!
//! usage: vx REPO TEMPLATE OUT.rs OUT.json
mod db;
mod infer;
mod pre;
mod tr;
use db::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use tr::*;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn expand(p: &Path, out: &mut Vec<String>) -> Result<(), String> {
    let t = std::fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display()))?;
    for l in t.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            expand(&p.parent().unwrap().join(f.trim()), out)?;
        } else {
            out.push(l.to_string());
        }
    }
    Ok(())
}

fn parse_opts(s: &str) -> Opts {
    let mut o = Opts::default();
    for w in s.split_whitespace() {
        match w {
            "free" => o.free = true,
            "eqt" => o.eqt = true,
            "intrait" => o.intrait = true,
            "parser" => o.parser = true,
            _ => {
                if let Some(r) = w.strip_prefix("ret=") {
                    o.ret = Some(r.replace("~", " "));
                } else if let Some(r) = w.strip_prefix("use=") {
                    o.uses = r.split(',').map(|x| x.to_string()).collect();
                } else if let Some(r) = w.strip_prefix("out=") {
                    o.out = r.split(',').map(|x| x.to_string()).collect();
                } else if let Some(r) = w.strip_prefix("collect=") {
                    o.collect = Some(r.to_string());
                } else if let Some(r) = w.strip_prefix("log=") {
                    o.log = Some(r.to_string());
                }
            }
        }
    }
    o
}

struct Anchor {
    name: String,
    item: String,
    file: String,
    line: usize,
    end: usize,
    errors: Vec<String>,
    helper: bool,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&a[1]);
    let mut lost: Vec<String> = vec![];
    let mut anchors: Vec<Anchor> = vec![];
    let mut out = String::new();
    match load(&repo) {
        Err(e) => lost.push(format!("parse: {e}")),
        Ok(mut db) => {
            let mut lines = vec![];
            if let Err(e) = expand(Path::new(&a[2]), &mut lines) {
                eprintln!("{e}");
                std::process::exit(2);
            }
            let mut cfg = Cfg::default();
            let mut ctx: Option<String> = None;
            for l in &lines {
                let t = l.trim();
                if let Some(r) = t.strip_prefix("//@newtype ") {
                    let (n, ty) = r.split_once('=').unwrap();
                    cfg.newtypes.insert(n.trim().into(), ty.trim().into());
                } else if let Some(r) = t.strip_prefix("//@tymap ") {
                    let (n, ty) = r.split_once('=').unwrap();
                    cfg.tymap.insert(n.trim().into(), ty.trim().into());
                } else if let Some(r) = t.strip_prefix("//@ret ") {
                    let (n, ty) = r.split_once('=').unwrap();
                    cfg.rets.insert(n.trim().into(), ty.trim().into());
                } else if let Some(r) = t.strip_prefix("//@path ") {
                    let (n, ty) = r.split_once('=').unwrap();
                    cfg.pathmap.push((n.trim().into(), ty.trim().into()));
                } else if let Some(r) = t.strip_prefix("//@static ") {
                    // FILE NAME = EXPRESSION: a constant that is kept by name
                    let (n, x) = r.split_once('=').unwrap();
                    let mut w = n.split_whitespace();
                    cfg.statics.push((w.next().unwrap().into(), w.next().unwrap().into(), x.trim().into()));
                } else if let Some(r) = t.strip_prefix("//@err ") {
                    cfg.errs.insert(r.trim().into());
                } else if let Some(r) = t.strip_prefix("//@mut ") {
                    // NAME [self] [indices of the mutated arguments]
                    let mut w = r.split_whitespace();
                    let n = w.next().unwrap().to_string();
                    let (mut s, mut ix) = (false, vec![]);
                    for x in w {
                        if x == "self" { s = true } else { ix.push(x.parse().unwrap()) }
                    }
                    if n.ends_with("_mut") || n.ends_with("_each") {
                        cfg.pre.variants.insert(n.clone());
                    }
                    db.muts.insert(n, (s, ix));
                } else if let Some(r) = t.strip_prefix("//@drop ") {
                    cfg.pre.drop.extend(r.split_whitespace().map(|x| x.to_string()));
                } else if let Some(r) = t.strip_prefix("//@noop ") {
                    cfg.noop.extend(r.split_whitespace().map(|x| x.to_string()));
                } else if let Some(r) = t.strip_prefix("//@fuel ") {
                    let mut w = r.split_whitespace();
                    let f = w.next().unwrap().to_string();
                    cfg.fuel.extend(w.map(|x| (f.clone(), x.to_string())));
                } else if let Some(r) = t.strip_prefix("//@iter ") {
                    cfg.pre.iters.extend(r.split_whitespace().map(|x| x.to_string()));
                } else if let Some(r) = t.strip_prefix("//@nomut ") {
                    // names of `&mut self` methods that this unit only meets as std methods
                    for w in r.split_whitespace() {
                        db.muts.remove(w);
                    }
                } else if let Some(r) = t.strip_prefix("//@known ") {
                    for w in r.split_whitespace() {
                        cfg.known.insert((None, w.into()));
                    }
                }
                // every `fn NAME` in the template is a declared name
                if l.starts_with("impl") {
                    let h = l.split('{').next().unwrap();
                    let h = h.rsplit(" for ").next().unwrap();
                    let h = h.trim_start_matches("impl").trim();
                    let h = if h.starts_with('<') { h.split_once('>').map(|x| x.1.trim()).unwrap_or(h) } else { h };
                    ctx = Some(h.split('<').next().unwrap().trim().to_string());
                } else if l.starts_with('}') {
                    ctx = None;
                }
                let closed = l.starts_with("impl") && l.matches('{').count() == l.matches('}').count();
                let mut rest = l.as_str();
                while let Some(i) = rest.find("fn ") {
                    let s: String = rest[i + 3..]
                        .chars()
                        .take_while(|c| c.is_alphanumeric() || *c == '_')
                        .collect();
                    if !s.is_empty() && !t.starts_with("//@") {
                        if s.starts_with("x_") {
                            cfg.std_methods.insert(s.clone());
                        }
                        cfg.known.insert((ctx.clone(), s));
                    }
                    rest = &rest[i + 3..];
                }
                if closed {
                    ctx = None;
                }
                if t.starts_with("//@fn ") || t.starts_with("//@parser ") {
                    let nm = t.split("=>").nth(1).map(|x| x.split_whitespace().next().unwrap_or("").to_string());
                    if let Some(n) = nm {
                        cfg.known.insert((ctx.clone(), n));
                    }
                }
            }
            let mut pending: Vec<(Option<String>, String, String)> = vec![];
            let mut done: BTreeSet<(Option<String>, String)> = BTreeSet::new();
            for l in &lines {
                let t = l.trim();
                if let Some(r) = t.strip_prefix("//@fn ") {
                    let (src, rest) = r.split_once("=>").unwrap();
                    let src = src.trim();
                    let (file, item) = src.split_once(' ').unwrap();
                    let item = item.trim();
                    let rest = rest.trim();
                    let (name, o) = rest.split_once(' ').unwrap_or((rest, ""));
                    match db.find_fn(file, item) {
                        None => {
                            lost.push(format!("{file} {item}"));
                        }
                        Some(f) => {
                            let mut tr = Tr::new(&db, &cfg, parse_opts(o), f);
                            let s = if tr.opts.parser { tr.parser_function(f, name) } else { tr.function(f, name) };
                            out.push_str(&format!("// extracted: {} {} (line {})\n", f.file, item, f.line));
                            out.push_str(&s);
                            anchors.push(Anchor {
                                name: name.into(),
                                item: item.into(),
                                file: f.file.clone(),
                                line: f.line,
                                end: f.end_line,
                                errors: tr.errors.clone(),
                                helper: false,
                            });
                            for c in tr.calls.clone() {
                                if !cfg.known.contains(&c) && done.insert(c.clone()) {
                                    pending.push((c.0, c.1, f.file.clone()));
                                }
                            }
                        }
                    }
                } else if let Some(r) = t.strip_prefix("//@type ") {
                    let mut w = r.split_whitespace();
                    let file = w.next().unwrap();
                    let n = w.next().unwrap();
                    let newname = w.next().unwrap_or(n).to_string();
                    let fake = db.fns[0].clone();
                    let mut tr = Tr::new(&db, &cfg, Opts::default(), &fake);
                    tr.impl_ty = Some(newname.clone());
                    if let Some((_, s)) = db.structs.iter().find(|s| s.0 == file && s.1.ident == n) {
                        let mut fs = vec![];
                        let mut upds = String::new();
                        let named = matches!(s.fields, syn::Fields::Named(_));
                        for (i, f) in s.fields.iter().enumerate() {
                            let ty = tr.ty(&f.ty);
                            match &f.ident {
                                Some(id) => {
                                    let id = clean(&id.to_string());
                                    fs.push(format!("pub {id}: {ty}"));
                                    upds.push_str(&format!("  pub open spec fn upd_{id}(self, v: {ty}) -> {newname} {{ {newname} {{ {id}: v, ..self }} }}\n"));
                                }
                                None => {
                                    fs.push(format!("pub {ty}"));
                                    if s.fields.len() == 1 {
                                        upds.push_str(&format!("  pub open spec fn upd_{i}(self, v: {ty}) -> {newname} {{ {newname}(v) }}\n"));
                                    }
                                }
                            }
                        }
                        if named {
                            out.push_str(&format!("pub struct {newname} {{ {} }}\n", fs.join(", ")));
                        } else {
                            out.push_str(&format!("pub struct {newname}({});\n", fs.join(", ")));
                        }
                        // `derive(Default)` of flags
                        let dflt = s.attrs.iter().any(|a| a.path().is_ident("derive") && quote::quote!(#a).to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == "Default"));
                        if dflt && named && fs.iter().all(|f| f.ends_with(": bool")) {
                            let z: Vec<String> = fs.iter().map(|f| format!("{}: false", f.trim_start_matches("pub ").split(':').next().unwrap())).collect();
                            upds.push_str(&format!("  pub open spec fn x_default() -> {newname} {{ {newname} {{ {} }} }}\n", z.join(", ")));
                        }
                        out.push_str(&format!("impl {newname} {{\n{upds}}}\n"));
                    } else if let Some((_, s)) = db.enums.iter().find(|s| s.0 == file && s.1.ident == n) {
                        let mut vs = vec![];
                        for v in &s.variants {
                            let mut fs = vec![];
                            for f in &v.fields {
                                let ty = tr.ty(&f.ty);
                                match &f.ident {
                                    Some(id) => fs.push(format!("{}: {ty}", clean(&id.to_string()))),
                                    None => fs.push(ty),
                                }
                            }
                            vs.push(match v.fields {
                                syn::Fields::Named(_) => format!("{} {{ {} }}", v.ident, fs.join(", ")),
                                syn::Fields::Unnamed(_) => format!("{}({})", v.ident, fs.join(", ")),
                                syn::Fields::Unit => v.ident.to_string(),
                            });
                        }
                        out.push_str(&format!("pub enum {newname} {{ {} }}\n", vs.join(", ")));
                        if let Some(v) = s.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))) {
                            out.push_str(&format!("impl {newname} {{ pub open spec fn x_default() -> {newname} {{ {newname}::{} }} }}\n", v.ident));
                        }
                    } else {
                        lost.push(format!("type {file} {n}"));
                    }
                    for e in tr.errors {
                        lost.push(format!("type {n}: {e}"));
                    }
                } else if t == "//@helpers" {
                    while let Some((ty, name, file)) = pending.pop() {
                        let f = db
                            .fns
                            .iter()
                            .find(|f| f.name == name && f.impl_ty == ty && f.file == file && f.trait_.is_none())
                            .or_else(|| db.fns.iter().find(|f| f.name == name && f.impl_ty == ty && f.trait_.is_none()));
                        let Some(f) = f else { continue };
                        if let Some(t) = ty.as_ref().and_then(|t| cfg.tymap.get(t)) {
                            if cfg.known.contains(&(Some(t.clone()), name.clone())) {
                                continue;
                            }
                        }
                        let mut o = Opts::default();
                        let sg = &f.sig;
                        let is_parser = ty.is_none() && quote::quote!(#sg).to_string().contains("ModalResult");
                        let nt = ty.as_ref().is_some_and(|t| cfg.newtypes.contains_key(t));
                        o.parser = is_parser;
                        let mut tr = Tr::new(&db, &cfg, o, f);
                        if nt {
                            continue;
                        }
                        let s = if is_parser { tr.parser_function(f, &clean(&name)) } else { tr.function(f, &clean(&name)) };
                        out.push_str(&format!("// extracted helper: {} {} (line {})\n", f.file, name, f.line));
                        match &ty {
                            Some(t) => out.push_str(&format!("impl {t} {{\n{s}}}\n")),
                            None => out.push_str(&s),
                        }
                        anchors.push(Anchor {
                            name: name.clone(),
                            item: match &ty {
                                Some(t) => format!("{t}::{name}"),
                                None => name.clone(),
                            },
                            file: f.file.clone(),
                            line: f.line,
                            end: f.end_line,
                            errors: tr.errors.clone(),
                            helper: true,
                        });
                        for c in tr.calls.clone() {
                            if !cfg.known.contains(&c) && done.insert(c.clone()) {
                                pending.push((c.0, c.1, f.file.clone()));
                            }
                        }
                    }
                } else {
                    out.push_str(l);
                    out.push('\n');
                }
            }
        }
    }
    std::fs::write(&a[3], out).unwrap();
    let mut j = String::from("{\n \"lost\": [");
    j.push_str(&lost.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    j.push_str("],\n \"anchors\": [\n");
    let rows: Vec<String> = anchors
        .iter()
        .map(|a| {
            format!(
                "  {{\"name\": {}, \"item\": {}, \"file\": {}, \"line\": {}, \"end\": {}, \"helper\": {}, \"errors\": [{}]}}",
                jstr(&a.name),
                jstr(&a.item),
                jstr(&a.file),
                a.line,
                a.end,
                a.helper,
                a.errors.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
            )
        })
        .collect();
    j.push_str(&rows.join(",\n"));
    j.push_str("\n ]\n}\n");
    std::fs::write(&a[4], j).unwrap();
    let _ = BTreeMap::<u8, u8>::new();
}
