//! R19: code that a change adds and that runs, or changes what other code means, without being called
//! by its name in a function under contract: a method of a trait that a type already had (it replaces
//! the one the trait provides), a destructor, a method that hides one of a trait, an import or a
//! definition that gives another meaning to a name.  What is listed counts as not verified.
use crate::rename::{funs, Base};
use crate::{all_items, is_test, type_name};
use quote::ToTokens;
use std::collections::BTreeMap;

const PRELUDE: [&str; 47] = ["Option", "Some", "None", "Result", "Ok", "Err", "Vec", "String", "Box", "ToOwned", "ToString", "Iterator", "IntoIterator",
    "ExactSizeIterator", "DoubleEndedIterator", "Extend", "From", "Into", "AsRef", "AsMut", "Default", "Clone", "Copy", "Drop", "Eq", "PartialEq", "Ord",
    "PartialOrd", "Fn", "FnMut", "FnOnce", "drop", "std", "core", "alloc", "str", "usize", "u8", "u16", "u32", "u64", "i32", "i64", "bool", "char", "u128", "isize"];
const MACROS: [&str; 16] = ["write", "writeln", "format", "vec", "matches", "panic", "assert", "assert_eq", "debug_assert", "unreachable", "print", "println",
    "format_args", "try", "todo", "unimplemented"];
const PROVIDED: [&str; 22] = ["next", "nth", "count", "last", "size_hint", "len", "fold", "for_each", "collect", "skip", "take", "step_by", "map", "filter", "find",
    "any", "all", "position", "max_by", "min_by", "by_ref", "zip"];

fn uses(file: &syn::File) -> BTreeMap<String, String> {
    fn go(t: &syn::UseTree, path: &str, out: &mut BTreeMap<String, String>) {
        let join = |x: String| if path.is_empty() { x } else { format!("{}::{}", path, x) };
        match t {
            syn::UseTree::Path(p) => {
                let x = p.ident.to_string();
                let x = if path.is_empty() && (x == "core" || x == "alloc") { "std".to_string() } else { x };
                if path.is_empty() && (x == "crate" || x == "self") { go(&p.tree, "", out) } else { go(&p.tree, &join(x), out) }
            }
            syn::UseTree::Name(n) if n.ident == "self" => { out.insert(path.rsplit("::").next().unwrap().to_string(), path.to_string()); }
            syn::UseTree::Name(n) => { out.insert(n.ident.to_string(), join(n.ident.to_string())); }
            syn::UseTree::Rename(n) if n.ident == "self" => { out.insert(n.rename.to_string(), path.to_string()); }
            syn::UseTree::Rename(n) => { out.insert(n.rename.to_string(), join(n.ident.to_string())); }
            syn::UseTree::Glob(_) => { out.insert(join("*".into()), join("*".into())); }
            syn::UseTree::Group(g) => for t in &g.items { go(t, path, out); },
        }
    }
    let mut out = BTreeMap::new();
    for i in &file.items { if let syn::Item::Use(u) = i { if !is_test(&u.attrs) { go(&u.tree, "", &mut out); } } }
    out
}

/// The lines of `names.txt` for one file.
pub fn names(name: &str, text: &str) -> String {
    uses(&syn::parse_file(text).unwrap()).into_iter().map(|(n, p)| format!("U|{}|{}|{}\n", name, n, p)).collect()
}

/// What is strange in a file for an overlay that has contracts for the types given.
pub fn strangers(name: &str, file: &syn::File, base: &Base, types: &dyn Fn(&str) -> bool) -> Vec<String> {
    let mut out = Vec::new();
    let method = |id: &str| id.split('@').next().unwrap().rsplit("::").next().unwrap().to_string();
    let known: Vec<&str> = base.ids("V", name).map(|x| x.0).collect();
    if known.is_empty() { return out; }
    for f in funs(file) {
        if known.contains(&&f.id[..]) { continue; }
        let t = match f.id.split_once("::") { Some((t, _)) => t, None => continue };
        if !types(t) { continue; }
        let of = |k: &&&str| k.starts_with(&format!("{}::", t));
        let same = known.iter().filter(of).any(|k| method(k) == method(&f.id));
        match f.id.split_once('@') {
            Some((_, tr)) => {
                if tr == "Drop" || same || known.iter().filter(of).any(|k| k.split_once('@').map_or(false, |x| x.1 == tr)) { out.push(f.id.clone()); }
            }
            None => {
                let iterator = known.iter().filter(of).any(|k| k.ends_with("@Iterator"));
                if same || iterator && PROVIDED.contains(&&method(&f.id)[..]) { out.push(f.id.clone()); }
            }
        }
    }
    let before: BTreeMap<&str, &str> = base.ids("U", name).collect();
    for (n, p) in uses(file) {
        let changed = match before.get(&n[..]) { Some(b) => *b != p, None => n.ends_with('*') || PRELUDE.contains(&&n[..]) && (!p.starts_with("std::") || n == "Result" && p != "std::result::Result") };
        if changed { out.push(format!("use {}", p)); }
    }
    let mut items = Vec::new();
    all_items(&file.items, &mut items);
    for i in items {
        let n = match i {
            syn::Item::Fn(x) if !is_test(&x.attrs) => x.sig.ident.to_string(),
            syn::Item::Struct(x) => x.ident.to_string(),
            syn::Item::Enum(x) => x.ident.to_string(),
            syn::Item::Trait(x) => x.ident.to_string(),
            syn::Item::Type(x) => x.ident.to_string(),
            syn::Item::Const(x) => x.ident.to_string(),
            syn::Item::Static(x) => x.ident.to_string(),
            syn::Item::Macro(x) => {
                if let Some(n) = &x.ident { if MACROS.contains(&&n.to_string()[..]) { out.push(format!("macro {}", n)); } }
                continue;
            }
            syn::Item::Impl(x) => {
                // for every type, or through a reference
                if let Some(t) = &x.trait_ { if !is_test(&x.attrs) && x.generics.type_params().any(|p| p.ident == type_name(&x.self_ty)) { out.push(format!("impl {} for every type", t.1.to_token_stream().to_string().replace(' ', ""))); } }
                continue;
            }
            _ => continue,
        };
        if PRELUDE.contains(&&n[..]) { out.push(format!("definition of {}", n)); }
    }
    out
}
