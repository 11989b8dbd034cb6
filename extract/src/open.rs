//! R21 and R22: closures given to adapters of `Option` and `Result` written out as the `match` that
//! defines them, and constants of the library written out.
use crate::{all_items, apply, br, is_test, type_name, Edit};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::visit::{self, Visit};

struct Open<'t> { text: &'t str, edits: Vec<Edit> }

/// Methods that give an iterator, whose adapters are other ones.
const ITERATORS: &[&str] = &["iter", "iter_mut", "into_iter", "bytes", "chars", "char_indices", "enumerate", "rev", "skip", "take", "zip", "filter_map",
    "flat_map", "flatten", "chain", "by_ref", "peekable", "split", "words", "lines", "skip_while", "take_while", "step_by", "windows", "chunks", "entries",
    "backup_chains", "signature_chains", "inc_sets", "inc_signatures", "snapshots", "files", "file_names", "drain", "keys", "values", "values_mut", "clone"];
fn is_iter(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::MethodCall(m) => {
            let n = m.method.to_string();
            ITERATORS.contains(&&n[..]) || ["map", "filter", "inspect", "copied", "cloned"].contains(&&n[..]) && is_iter(&m.receiver)
        }
        syn::Expr::Paren(p) => is_iter(&p.expr),
        syn::Expr::Range(_) => true,
        _ => false,
    }
}
/// A call that gives a `Result`, as far as its name tells.
fn is_result(e: &syn::Expr) -> bool {
    let n = match e {
        syn::Expr::MethodCall(m) => m.method.to_string(),
        syn::Expr::Call(c) => match &*c.func { syn::Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => String::new() },
        _ => String::new(),
    };
    ["from_str", "from_utf8", "map_err", "strptime", "strftime", "open_file", "into_inner", "read_until", "ok_or", "ok_or_else", "open", "read_dir", "read_line",
        "read_param_str", "read_param_bytes", "read_hash_param", "read_path_block", "binary_search_by", "binary_search", "uid", "gid", "mode", "mtime", "size", "username", "groupname",
        "from_sigchain", "file_name", "add_sigfile"].contains(&&n[..])
}
/// Whether control leaves the closure other than by its end.
fn leaves(e: &syn::Expr) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            let t = m.tokens.to_string();
            if t.contains('?') || t.contains("return") || m.path.segments.last().unwrap().ident.to_string().contains("try") { self.0 = true; }
        }
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}
fn plain(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(_) | syn::Expr::Path(_) => true,
        syn::Expr::Reference(r) => plain(&r.expr),
        syn::Expr::Field(f) => plain(&f.base),
        syn::Expr::Unary(u) => plain(&u.expr),
        syn::Expr::Binary(b) => plain(&b.left) && plain(&b.right),
        syn::Expr::Tuple(t) => t.elems.iter().all(plain),
        _ => false,
    }
}
impl<'a, 't> Visit<'a> for Open<'t> {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.call(m);
        visit::visit_expr_method_call(self, m);
    }
}
impl<'t> Open<'t> {
    fn edit(&mut self, range: Range<usize>, text: String) {
        let seq = self.edits.len();
        self.edits.push(Edit { range, text, seq });
    }
    fn call(&mut self, m: &syn::ExprMethodCall) -> Option<()> {
        let c = match m.args.last()? { syn::Expr::Closure(c) => c, _ => return None };
        if leaves(&c.body) || is_iter(&m.receiver) || c.inputs.len() > 1 { return None; }
        let pat = match c.inputs.first() { Some(syn::Pat::Type(t)) => Some(&*t.pat), p => p };
        let p = pat.map(|p| self.text[br(p)].to_string());
        let name = m.method.to_string();
        let res = is_result(&m.receiver);
        let (some, bad, none) = if res { ("Ok", "Err(e__)", "Err(e__) => Err(e__)") } else { ("Some", "None", "None => None") };
        let ignored = if res { "Err(_)" } else { bad };
        let first = if m.args.len() == 2 { if !plain(&m.args[0]) { return None; } Some(self.text[br(&m.args[0])].to_string()) } else if m.args.len() == 1 { None } else { return None };
        // `(match RECV { HEAD body TAIL`
        let (head, tail) = match (&name[..], p, first) {
            ("map", Some(p), None) => (format!("{}({}) => {}(", some, p, some), format!("), {} }})", none)),
            ("map_err", Some(p), None) => (format!("Ok(v__) => Ok(v__), Err({}) => Err(", p), ") })".into()),
            ("and_then", Some(p), None) => (format!("{}({}) => {{ ", some, p), format!(" }}, {} }})", none)),
            ("map_or", Some(p), Some(d)) => (format!("{}({}) => {{ ", some, p), format!(" }}, {} => {} }})", ignored, d)),
            ("is_some_and", Some(p), None) => (format!("Some({}) => {{ ", p), " }, None => false })".into()),
            ("is_none_or", Some(p), None) => (format!("Some({}) => {{ ", p), " }, None => true })".into()),
            ("is_ok_and", Some(p), None) => (format!("Ok({}) => {{ ", p), " }, Err(_) => false })".into()),
            ("unwrap_or_else", None, None) => ("Some(v__) => v__, None => { ".into(), " } })".into()),
            ("unwrap_or_else", Some(p), None) => (format!("Ok(v__) => v__, Err({}) => {{ ", p), " } })".into()),
            ("or_else", None, None) => ("Some(v__) => Some(v__), None => { ".into(), " } })".into()),
            ("or_else", Some(p), None) => (format!("Ok(v__) => Ok(v__), Err({}) => {{ ", p), " } })".into()),
            ("ok_or_else", None, None) => ("Some(v__) => Ok(v__), None => Err(".into(), ") })".into()),
            ("filter", Some(p), None) => (format!("Some(v__) => if ({{ let {} = &v__; ", p), " }) { Some(v__) } else { None }, None => None })".into()),
            _ => return None,
        };
        let (r, b, w) = (br(&m.receiver), br(&c.body), br(m));
        self.edit(r.start..r.start, "(match ".into());
        self.edit(r.end..b.start, format!(" {{ {}", head));
        self.edit(b.end..w.end, tail);
        Some(())
    }
}

struct Closures(usize);
impl<'a> Visit<'a> for Closures {
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) { self.0 += 1; visit::visit_expr_closure(self, e); }
}
fn functions<'a>(file: &'a syn::File) -> Vec<(String, &'a syn::Block)> {
    let mut items = Vec::new();
    all_items(&file.items, &mut items);
    let mut out = Vec::new();
    for i in items {
        match i {
            syn::Item::Fn(f) => out.push((f.sig.ident.to_string(), &*f.block)),
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                for ii in &im.items { if let syn::ImplItem::Fn(f) = ii { out.push((format!("{}::{}", type_name(&im.self_ty), f.sig.ident), &f.block)); } }
            }
            _ => {}
        }
    }
    out
}
/// How many closures each function has, as lines of names.txt.
pub fn names(path: &str, text: &str) -> String {
    closures(text).into_iter().filter(|x| x.1 > 0).map(|(id, n)| format!("C|{}|{}|{}\n", path, id, n)).collect()
}
pub fn closures(text: &str) -> BTreeMap<String, usize> {
    let f = match syn::parse_file(text) { Ok(f) => f, Err(_) => return BTreeMap::new() };
    let mut out = BTreeMap::new();
    for (id, b) in functions(&f) { let mut c = Closures(0); c.visit_block(b); *out.entry(id).or_insert(0) += c.0; }
    out
}
/// R21, in the functions named.
pub fn open(text: String, fns: &BTreeSet<String>) -> String {
    let f = match syn::parse_file(&text) { Ok(f) => f, Err(_) => return text };
    let mut o = Open { text: &text, edits: vec![] };
    for (id, b) in functions(&f) { if fns.contains(&id) { o.visit_block(b); } }
    let t = apply(&text, 0..text.len(), &o.edits);
    if syn::parse_file(&t).is_ok() { t } else { text }
}

/// R22: constants with a value that is spelled out.
pub fn constants(text: String, known: &dyn Fn(&str) -> bool) -> String {
    let mut text = text;
    for _ in 0..8 {
        let f = match syn::parse_file(&text) { Ok(f) => f, Err(_) => return text };
        let mut found: Vec<(String, Option<String>, String, Range<usize>)> = vec![];
        let mut items = Vec::new();
        all_items(&f.items, &mut items);
        for i in items {
            match i {
                syn::Item::Const(c) if !is_test(&c.attrs) => found.extend(value(&text, &c.ty, &c.expr).map(|v| (c.ident.to_string(), None, v, br(c)))),
                syn::Item::Static(c) if matches!(c.mutability, syn::StaticMutability::None) => found.extend(value(&text, &c.ty, &c.expr).map(|v| (c.ident.to_string(), None, v, br(c)))),
                syn::Item::Impl(im) if im.trait_.is_none() => for ii in &im.items {
                    if let syn::ImplItem::Const(c) = ii { found.extend(value(&text, &c.ty, &c.expr).map(|v| (c.ident.to_string(), Some(type_name(&im.self_ty)), v, br(c)))); }
                },
                _ => {}
            }
        }
        found.retain(|x| !known(&x.0) && x.0.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') && x.0.len() > 1);
        // one at a time, so that constants made of others are found too
        let mut changed = false;
        for (name, owner, v, at) in found {
            let mut words = Vec::new();
            let ts: proc_macro2::TokenStream = match text.parse() { Ok(t) => t, Err(_) => return text };
            flat(ts, &mut words);
            let mut edits = Vec::new();
            for (i, (w, r)) in words.iter().enumerate() {
                if *w != name || r.start >= at.start && r.end <= at.end { continue; }
                let before = |k: usize| if i >= k { &words[i - k].0[..] } else { "" };
                let pathed = before(1) == ":" && before(2) == ":";
                let start = match (&owner, pathed) {
                    (None, false) if before(1) != "." && before(1) != "const" && before(1) != "static" => r.start,
                    (None, true) if before(3) == "self" => words[i - 3].1.start,
                    (Some(o), true) if before(3) == "Self" || before(3) == o => words[i - 3].1.start,
                    _ => continue,
                };
                let seq = edits.len();
                edits.push(Edit { range: start..r.end, text: v.clone(), seq });
            }
            if edits.is_empty() { continue; }
            let t = apply(&text, 0..text.len(), &edits);
            if syn::parse_file(&t).is_err() { continue; }
            text = t;
            changed = true;
            break;
        }
        if !changed { return text; }
    }
    text
}
fn value(text: &str, ty: &syn::Type, e: &syn::Expr) -> Option<String> {
    struct P(bool);
    impl<'a> Visit<'a> for P {
        fn visit_expr(&mut self, e: &'a syn::Expr) {
            if !matches!(e, syn::Expr::Lit(_) | syn::Expr::Array(_) | syn::Expr::Reference(_) | syn::Expr::Binary(_) | syn::Expr::Unary(_) | syn::Expr::Paren(_) | syn::Expr::Tuple(_) | syn::Expr::Cast(_)) { self.0 = false; }
            visit::visit_expr(self, e);
        }
    }
    let mut p = P(true);
    p.visit_expr(e);
    if !p.0 { return None; }
    let v = text[br(e)].split_whitespace().collect::<Vec<_>>().join(" ");
    let v = if matches!(e, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. })) { text[br(e)].to_string() } else { v };
    let t = text[br(ty)].to_string();
    let int = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"].contains(&&t[..]);
    match e {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) if int && i.suffix().is_empty() => Some(format!("{}{}", v, t)),
        syn::Expr::Lit(_) => Some(v),
        _ if int => Some(format!("(({}) as {})", v, t)),
        _ => Some(format!("({})", v)),
    }
}
fn flat(ts: proc_macro2::TokenStream, out: &mut Vec<(String, Range<usize>)>) {
    for t in ts {
        let r = t.span().byte_range();
        match t {
            proc_macro2::TokenTree::Group(g) => {
                out.push(("(".into(), r.start..r.start));
                flat(g.stream(), out);
                out.push((")".into(), r.end..r.end));
            }
            t => out.push((t.to_string(), r)),
        }
    }
}
