//! R18: names that a change gave to private things (variables, functions, fields) are changed back to
//! the ones the overlays use, one for one, where that captures nothing.
//!
//! `contracts/names.txt` lists the names of the tree that the overlays were written for.
use crate::inline::{strings, walk};
use crate::{all_items, apply, br, is_test, type_name, Edit};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::visit::{self, Visit};

pub struct Fun<'a> { pub id: String, pub sig: &'a syn::Signature, pub block: &'a syn::Block, pub whole: Range<usize>, pub in_trait: bool }

pub fn funs<'a>(file: &'a syn::File) -> Vec<Fun<'a>> {
    let mut items = Vec::new();
    all_items(&file.items, &mut items);
    let mut out = Vec::new();
    for i in items {
        match i {
            syn::Item::Fn(f) if !is_test(&f.attrs) => out.push(Fun { id: f.sig.ident.to_string(), sig: &f.sig, block: &f.block, whole: br(f), in_trait: false }),
            syn::Item::Impl(im) if !is_test(&im.attrs) => for ii in &im.items {
                if let syn::ImplItem::Fn(f) = ii {
                    if is_test(&f.attrs) { continue; }
                    let t = im.trait_.as_ref().map(|t| format!("@{}", t.1.to_token_stream().to_string().replace(' ', ""))).unwrap_or_default();
                    out.push(Fun { id: format!("{}::{}{}", type_name(&im.self_ty), f.sig.ident, t), sig: &f.sig, block: &f.block, whole: br(f), in_trait: im.trait_.is_some() });
                }
            },
            _ => {}
        }
    }
    out
}

#[derive(Default)]
struct Bound(Vec<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        if !p.ident.to_string().starts_with(char::is_uppercase) { self.0.push(p.ident.to_string()); }
        visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            let args: &'a _ = Box::leak(Box::new(a));
            for e in args.iter() { self.visit_expr(e); }
        }
    }
}
fn variables(f: &Fun) -> Vec<String> {
    let mut b = Bound::default();
    b.visit_signature(f.sig);
    b.visit_block(f.block);
    b.0
}
fn signature(f: &Fun) -> String {
    let mut s = String::new();
    for a in &f.sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => s.push_str(&r.to_token_stream().to_string()),
            syn::FnArg::Typed(t) => s.push_str(&t.ty.to_token_stream().to_string()),
        }
        s.push(',');
    }
    s.push_str(&f.sig.output.to_token_stream().to_string());
    s.push_str(&f.sig.generics.to_token_stream().to_string());
    s.split_whitespace().collect()
}
fn structs<'a>(file: &'a syn::File) -> Vec<(String, Vec<(String, String)>, Vec<Range<usize>>)> {
    let mut items = Vec::new();
    all_items(&file.items, &mut items);
    let mut out = Vec::new();
    for i in items {
        if let syn::Item::Struct(s) = i {
            if is_test(&s.attrs) { continue; }
            if let syn::Fields::Named(n) = &s.fields {
                out.push((s.ident.to_string(),
                    n.named.iter().map(|f| (f.ident.as_ref().unwrap().to_string(), f.ty.to_token_stream().to_string().split_whitespace().collect())).collect(),
                    n.named.iter().map(|f| br(f.ident.as_ref().unwrap())).collect()));
            }
        }
    }
    out
}

/// The lines of `names.txt` for one file.
pub fn names(name: &str, text: &str) -> String {
    let file = syn::parse_file(text).unwrap();
    let mut out = String::new();
    for f in funs(&file) {
        out.push_str(&format!("V|{}|{}|{}\n", name, f.id, variables(&f).join(" ")));
        if !f.in_trait { out.push_str(&format!("S|{}|{}|{}\n", name, f.id, signature(&f))); }
    }
    for (s, fields, _) in structs(&file) {
        out.push_str(&format!("F|{}|{}|{}\n", name, s, fields.iter().map(|(n, t)| format!("{}:{}", n, t)).collect::<Vec<_>>().join(";")));
    }
    out
}

pub struct Base { lines: Vec<(String, String, String, String)> }
impl Base {
    pub fn read(path: &std::path::Path) -> Base {
        let t = std::fs::read_to_string(path).unwrap_or_default();
        Base { lines: t.lines().filter_map(|l| { let v: Vec<&str> = l.splitn(4, '|').collect(); if v.len() == 4 { Some((v[0].into(), v[1].into(), v[2].into(), v[3].into())) } else { None } }).collect() }
    }
    fn get(&self, k: &str, file: &str, id: &str) -> Option<&str> {
        self.lines.iter().find(|l| l.0 == k && l.1 == file && l.2 == id).map(|l| &l.3[..])
    }
    /// The sum of the numbers kept for it.
    pub fn count(&self, k: &str, file: &str, id: &str) -> usize {
        self.lines.iter().filter(|l| l.0 == k && l.1 == file && l.2 == id).map(|l| l.3.parse::<usize>().unwrap_or(0)).sum()
    }
    pub fn ids<'a>(&'a self, k: &'a str, file: &'a str) -> impl Iterator<Item = (&'a str, &'a str)> + 'a {
        self.lines.iter().filter(move |l| l.0 == k && l.1 == file).map(|l| (&l.2[..], &l.3[..]))
    }
}

/// Functions that were renamed: new name -> old name.
pub fn functions(file: &str, text: &str, base: &Base) -> Vec<(String, String)> {
    let f = match syn::parse_file(text) { Ok(f) => f, Err(_) => return vec![] };
    let now = funs(&f);
    let mut out = Vec::new();
    let last = |id: &str| id.rsplit("::").next().unwrap().to_string();
    let owner = |id: &str| id.rsplit_once("::").map(|x| x.0.to_string());
    for (id, sig) in base.ids("S", file) {
        if now.iter().any(|g| g.id == id) { continue; }
        let new: Vec<&Fun> = now.iter().filter(|g| !g.in_trait && base.get("S", file, &g.id).is_none() && owner(&g.id) == owner(id)).collect();
        let mut c: Vec<&&Fun> = new.iter().filter(|g| signature(g) == sig).collect();
        if c.len() > 1 { c.retain(|g| Some(variables(g).join(" ").as_str()) == base.get("V", file, id)); }
        // and it is the only one gone with this signature
        let gone = base.ids("S", file).filter(|(i, s)| *s == sig && owner(i) == owner(id) && !now.iter().any(|g| g.id == *i)).count();
        if c.len() == 1 && gone == 1 { out.push((last(&c[0].id), last(id))); }
    }
    out
}

/// Fields that were renamed: new name -> old name.
pub fn fields(file: &str, text: &str, base: &Base) -> Vec<(String, String)> {
    let f = match syn::parse_file(text) { Ok(f) => f, Err(_) => return vec![] };
    let mut out = Vec::new();
    for (s, fs, _) in structs(&f) {
        let old: Vec<(&str, &str)> = match base.get("F", file, &s) { Some(o) => o.split(';').filter_map(|x| x.split_once(':')).collect(), None => continue };
        if old.len() != fs.len() || old.iter().zip(&fs).any(|(o, n)| o.1 != n.1) { continue; }
        let names: BTreeSet<&str> = old.iter().map(|o| o.0).collect();
        for (o, n) in old.iter().zip(&fs) { if o.0 != n.0 && !names.contains(&n.0[..]) && !fs.iter().any(|x| x.0 == o.0) { out.push((n.0.clone(), o.0.to_string())); } }
    }
    out
}

fn all_idents(text: &str) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    if let Ok(f) = syn::parse_file(text) { walk(f.to_token_stream(), &mut |_, t, _| if let proc_macro2::TokenTree::Ident(i) = t { out.insert(i.to_string()); }); }
    out
}

/// Every use of the name of a function, in all files; `None` if the old name is in use.
pub fn rename_function(texts: &BTreeMap<String, String>, new: &str, old: &str) -> Option<BTreeMap<String, String>> {
    let mut out = BTreeMap::new();
    for (n, t) in texts {
        if all_idents(t).contains(old) { return None; }
        let f = syn::parse_file(t).ok()?;
        let mut edits = Vec::new();
        // not a variable or a field of the same name
        let mut b = Bound::default();
        b.visit_file(&f);
        if b.0.iter().any(|x| x == new) || structs(&f).iter().any(|s| s.1.iter().any(|x| x.0 == new)) { return None; }
        walk(f.to_token_stream(), &mut |_, t, _| if let proc_macro2::TokenTree::Ident(i) = t { if *i == new { edits.push(Edit { range: i.span().byte_range(), text: old.into(), seq: edits.len() }); } });
        out.insert(n.clone(), apply(t, 0..t.len(), &edits));
    }
    Some(out)
}

#[derive(Default)]
struct Members { named: Vec<(String, Range<usize>)>, short: Vec<(String, Range<usize>)> }
impl<'a> Visit<'a> for Members {
    fn visit_field_value(&mut self, f: &'a syn::FieldValue) {
        if let syn::Member::Named(i) = &f.member { if f.colon_token.is_some() { self.named.push((i.to_string(), br(i))); } else { self.short.push((i.to_string(), br(i))); } }
        visit::visit_field_value(self, f);
    }
    fn visit_field_pat(&mut self, f: &'a syn::FieldPat) {
        if let syn::Member::Named(i) = &f.member { if f.colon_token.is_some() { self.named.push((i.to_string(), br(i))); } else { self.short.push((i.to_string(), br(&f.pat))); } }
        visit::visit_field_pat(self, f);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            let args: &'a _ = Box::leak(Box::new(a));
            for e in args.iter() { self.visit_expr(e); }
        }
    }
}
fn macros_with(ts: proc_macro2::TokenStream, name: &str) -> bool {
    // a name inside braces inside a macro may be a field
    struct M<'n>(bool, &'n str);
    impl<'a, 'n> Visit<'a> for M<'n> {
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            fn braces(ts: proc_macro2::TokenStream, n: &str, inside: bool) -> bool {
                ts.into_iter().any(|t| match t {
                    proc_macro2::TokenTree::Group(g) => { let b = inside || g.delimiter() == proc_macro2::Delimiter::Brace; braces(g.stream(), n, b) }
                    proc_macro2::TokenTree::Ident(i) => inside && i == n,
                    _ => false,
                })
            }
            if braces(m.tokens.clone(), self.1, false) { self.0 = true; }
        }
    }
    match syn::parse2::<syn::File>(ts) { Ok(f) => { let mut m = M(false, name); m.visit_file(&f); m.0 } Err(_) => true }
}

/// Every use of a field that `count` structs have; `None` if another struct or a method has the name.
pub fn rename_field(texts: &BTreeMap<String, String>, new: &str, old: &str, count: usize) -> Option<BTreeMap<String, String>> {
    let mut owners = 0;
    for t in texts.values() {
        let f = syn::parse_file(t).ok()?;
        owners += structs(&f).iter().filter(|s| s.1.iter().any(|x| x.0 == new)).count();
        if funs(&f).iter().any(|g| g.sig.ident == new) { return None; }
        if macros_with(f.to_token_stream(), new) { return None; }
        let mut items = Vec::new();
        all_items(&f.items, &mut items);
        for i in items {
            if let syn::Item::Enum(e) = i { for v in &e.variants { for x in &v.fields { if x.ident.as_ref().map_or(false, |i| i == new) { return None; } } } }
        }
    }
    if owners != count { return None; }
    let mut out = BTreeMap::new();
    for (n, t) in texts {
        let f = syn::parse_file(t).ok()?;
        let mut edits: Vec<Edit> = Vec::new();
        let mut add = |r: Range<usize>, s: String| { let seq = edits.len(); edits.push(Edit { range: r, text: s, seq }); };
        walk(f.to_token_stream(), &mut |prev, t, next| if let proc_macro2::TokenTree::Ident(i) = t {
            if prev == Some('.') && next != Some('/') && *i == new { add(i.span().byte_range(), old.into()); }
        });
        for (_, fs, rs) in structs(&f) { for (x, r) in fs.iter().zip(rs) { if x.0 == new { add(r, old.into()); } } }
        let mut m = Members::default();
        m.visit_file(&f);
        for (x, r) in m.named { if x == new { add(r, old.into()); } }
        for (x, r) in m.short { if x == new { let v = t[r.clone()].to_string(); add(r, format!("{}: {}", old, v)); } }
        edits.sort_by_key(|e| e.range.start);
        edits.dedup_by_key(|e| e.range.start);
        out.insert(n.clone(), apply(t, 0..t.len(), &edits));
    }
    Some(out)
}

/// Longest common subsequence; gives the stretches that differ and are as long in both.
fn differing(a: &[String], b: &[String]) -> Vec<(String, String)> {
    let (n, m) = (a.len(), b.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() { l[i][j] = if a[i] == b[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) }; } }
    let (mut i, mut j) = (0, 0);
    let mut out = Vec::new();
    let (mut x, mut y) = (vec![], vec![]);
    loop {
        if i < n && j < m && a[i] == b[j] || i == n && j == m {
            if x.len() == y.len() { out.extend(x.drain(..).zip(y.drain(..))); }
            x.clear();
            y.clear();
            if i == n { break; }
            i += 1;
            j += 1;
        } else if j == m || i < n && l[i + 1][j] >= l[i][j + 1] { x.push(a[i].clone()); i += 1; } else { y.push(b[j].clone()); j += 1; }
    }
    out
}

/// Variables of the functions of a file.
pub fn rename_variables(file: &str, text: String, base: &Base, log: &mut Vec<String>) -> String {
    let f = match syn::parse_file(&text) { Ok(f) => f, Err(_) => return text };
    let mut edits: Vec<Edit> = Vec::new();
    for g in funs(&f) {
        let old: Vec<String> = match base.get("V", file, &g.id) { Some(o) => o.split_whitespace().map(|s| s.into()).collect(), None => continue };
        let now = variables(&g);
        if now == old { continue; }
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        let mut bad = BTreeSet::new();
        for (o, n) in differing(&old, &now) {
            if old.contains(&n) || now.contains(&o) { continue; }
            if map.get(&n).map_or(false, |x| *x != o) || map.iter().any(|(k, v)| *v == o && *k != n) { bad.insert(n.clone()); }
            map.insert(n, o);
        }
        let strs = strings(g.block.to_token_stream());
        let mut used = BTreeSet::new();
        let mut tokens = |prev: Option<char>, t: &proc_macro2::TokenTree, _: Option<char>| if let proc_macro2::TokenTree::Ident(i) = t { if prev != Some('.') { used.insert(i.to_string()); } };
        walk(g.sig.to_token_stream(), &mut tokens);
        walk(g.block.to_token_stream(), &mut tokens);
        let mut members = Members::default();
        members.visit_block(g.block);
        for (n, o) in map {
            // the old name must be free: as a field of a literal it is not in the way
            let member_only = { let mut k = 0; let mut c = |prev: Option<char>, t: &proc_macro2::TokenTree, _: Option<char>| if let proc_macro2::TokenTree::Ident(i) = t { if prev != Some('.') && *i == o { k += 1; } }; walk(g.sig.to_token_stream(), &mut c); walk(g.block.to_token_stream(), &mut c); k } == members.named.iter().filter(|m| m.0 == o).count();
            if bad.contains(&n) || used.contains(&o) && !member_only || strs.contains(&format!("{{{}", n)) { continue; }
            let mut es: Vec<(Range<usize>, String)> = Vec::new();
            let mut c = |prev: Option<char>, t: &proc_macro2::TokenTree, next: Option<char>| if let proc_macro2::TokenTree::Ident(i) = t {
                if prev != Some('.') && prev != Some('\'') && next != Some('/') && next != Some('!') && *i == n { es.push((i.span().byte_range(), o.clone())); }
            };
            walk(g.sig.to_token_stream(), &mut c);
            walk(g.block.to_token_stream(), &mut c);
            for (x, r) in &members.named { if *x == n { es.retain(|e| e.0 != *r); } }
            for (x, r) in &members.short { if *x == n { for e in es.iter_mut() { if e.0.start >= r.start && e.0.end <= r.end { e.1 = format!("{}: {}", n, o); } } } }
            for (r, t) in es { let seq = edits.len(); edits.push(Edit { range: r, text: t, seq }); }
            log.push(format!("{}: {} for {}", g.id, o, n));
        }
    }
    if edits.is_empty() { return text; }
    let t = apply(&text, 0..text.len(), &edits);
    if syn::parse_file(&t).is_ok() { t } else { text }
}
