//! R16: a function that no overlay knows (a helper split off from a function under contract) is put
//! back into its callers, so that the contract of the caller is proved about both.
//!
//! `h(a, b)` becomes `({ let p: T = a; let q: U = b; BODY })`; a parameter that is given a plain
//! variable is replaced by that variable.  A body that leaves early (`return`, `?`) is put back only
//! where that leaves the caller with the same value: at the end of the caller, or directly under `?`.
use crate::{all_items, apply, br, is_test, type_name, Edit};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Range;
use syn::visit::{self, Visit};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Recv { None, Ref, Mut, Val }

struct Helper<'a> {
    name: String,
    ty: Option<String>,
    recv: Recv,
    params: Vec<(String, bool, String)>, // name, mut, type
    ret: Option<String>,
    tparams: Vec<String>,
    block: &'a syn::Block,
    nested: Option<Range<usize>>, // the function whose item it is
}

/// Type text without named lifetimes; `None` if it cannot be written outside of the signature.
fn plain_type(text: &str, t: &syn::Type, tparams: &[String], selfty: Option<&str>) -> Option<String> {
    let mut bad = false;
    let mut edits = Vec::new();
    walk(t.to_token_stream(), &mut |prev, tt, _| match tt {
        proc_macro2::TokenTree::Ident(i) => {
            let s = i.to_string();
            if prev == Some('\'') && s != "static" {
                edits.push(Edit { range: i.span().byte_range(), text: "_".into(), seq: edits.len() });
            } else if s == "impl" || tparams.contains(&s) { bad = true; }
            else if s == "Self" { match selfty { Some(x) => edits.push(Edit { range: i.span().byte_range(), text: x.into(), seq: edits.len() }), None => bad = true } }
        }
        _ => {}
    });
    if bad { return None; }
    // spans of lifetimes: syn gives the apostrophe and the name; named lifetimes become '_
    let mut s = apply(text, br(t), &edits);
    while let Some(i) = s.find("'__") { s.replace_range(i..i + 3, "'_"); }
    Some(s)
}

/// All tokens, with the punctuation before each (`.`, `'`, `:`) and the one after.
pub fn walk(ts: proc_macro2::TokenStream, f: &mut dyn FnMut(Option<char>, &proc_macro2::TokenTree, Option<char>)) {
    let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
    let p = |t: Option<&proc_macro2::TokenTree>| match t { Some(proc_macro2::TokenTree::Punct(p)) => Some(p.as_char()), _ => None };
    for (i, t) in v.iter().enumerate() {
        let prev = if i > 0 { p(v.get(i - 1)) } else { None };
        // `..x` is a range, not a member
        let prev = if prev == Some('.') && i > 1 && p(v.get(i - 2)) == Some('.') { None } else { prev };
        let next = match (p(v.get(i + 1)), p(v.get(i + 2))) { (Some(':'), Some(':')) => Some('/'), (x, _) => x };
        f(prev, t, next);
        if let proc_macro2::TokenTree::Group(g) = t { walk(g.stream(), f); }
    }
}

/// Identifiers that stand for variables (or functions), with their places.
fn free(ts: proc_macro2::TokenStream) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    walk(ts, &mut |prev, t, next| if let proc_macro2::TokenTree::Ident(i) = t {
        if prev != Some('.') && prev != Some('\'') && !matches!(next, Some('/') | Some('!') | Some(':')) { out.insert(i.to_string()); }
    });
    out
}
pub fn idents(ts: proc_macro2::TokenStream) -> Vec<(String, Range<usize>)> {
    let mut out = Vec::new();
    walk(ts, &mut |prev, t, next| if let proc_macro2::TokenTree::Ident(i) = t {
        if prev != Some('.') && prev != Some('\'') && next != Some('/') && next != Some('!') { out.push((i.to_string(), i.span().byte_range())); }
    });
    out
}
/// Text of string literals inside macros, which may name variables.
pub fn strings(ts: proc_macro2::TokenStream) -> String {
    let mut out = String::new();
    walk(ts, &mut |_, t, _| if let proc_macro2::TokenTree::Literal(l) = t { out.push_str(&l.to_string()); });
    out
}

#[derive(Default)]
struct Leaves { ret: bool, question: bool, inner: bool }
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, e: &'a syn::ExprReturn) { self.ret = true; visit::visit_expr_return(self, e); }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) { self.question = true; visit::visit_expr_try(self, e); }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if n.starts_with("try") || n.starts_with("unwrap_") { self.ret = true; self.question = true; }
        if m.tokens.to_string().contains("return") || m.tokens.to_string().contains('?') { self.ret = true; self.question = true; }
    }
    fn visit_item(&mut self, _: &'a syn::Item) { self.inner = true; }
}
fn leaves(b: &syn::Block) -> Leaves { let mut l = Leaves::default(); l.visit_block(b); l }

/// Guards `if c { ..; return e; }` at the top of a body become `if c { ..; e } else { .. }`.
fn unguard(text: &str, stmts: &[syn::Stmt], end: usize) -> Option<String> {
    let mut out = String::new();
    for (i, s) in stmts.iter().enumerate() {
        let mut l = Leaves::default();
        l.visit_stmt(s);
        if !l.ret { out.push_str(&text[br(s)]); out.push('\n'); continue; }
        match s {
            syn::Stmt::Expr(syn::Expr::Return(r), _) => {
                let e = r.expr.as_ref()?;
                let mut l = Leaves::default();
                l.visit_expr(e);
                if l.ret || i + 1 != stmts.len() { return None; }
                out.push_str(&text[br(e)]);
                return Some(out);
            }
            syn::Stmt::Expr(syn::Expr::If(f), _) if f.else_branch.is_none() => {
                let mut l = Leaves::default();
                l.visit_expr(&f.cond);
                if l.ret { return None; }
                let then = unguard(text, &f.then_branch.stmts, br(&f.then_branch).end)?;
                if !matches!(f.then_branch.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _))) { return None; }
                let rest = unguard(text, &stmts[i + 1..], end)?;
                out.push_str(&format!("if {} {{ {} }} else {{ {} }}", &text[br(&f.cond)], then, rest));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}

/// What a call of a helper turns into.
struct Parts {
    lets: String,
    body: String,
    ret: Option<String>, // the type to give the value, where it may not be known otherwise
    names: Vec<String>,  // variables that it brings
}
impl Parts {
    fn expr(&self) -> String {
        if self.lets.is_empty() && self.ret.is_none() {
            if let Ok(syn::Stmt::Expr(..)) = syn::parse_str::<syn::Block>(&format!("{{{}}}", self.body)).map(|b| if b.stmts.len() == 1 { b.stmts.into_iter().next().unwrap() } else { syn::Stmt::Item(syn::Item::Verbatim(Default::default())) }) {
                if syn::parse_str::<syn::Expr>(&self.body).is_ok() { return format!("({})", self.body.trim()); }
            }
        }
        match &self.ret {
            Some(t) => format!("({{ {}let r__: {} = {{ {} }}; r__ }})", self.lets, t, self.body.trim()),
            None => format!("({{ {}{} }})", self.lets, self.body.trim()),
        }
    }
    /// As statements and a last expression.
    fn split(&self) -> Option<(String, Option<String>)> {
        let t = format!("{{{}}}", self.body);
        let b: syn::Block = syn::parse_str(&t).ok()?;
        match b.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) => {
                let r = br(e);
                let e = t[r.clone()].to_string();
                if r.start == 0 { return None; }
                Some((format!("{}{}", self.lets, &t[1..r.start]), Some(e)))
            }
            _ => Some((format!("{}{}", self.lets, self.body), None)),
        }
    }
    /// `PRE CALL?; ` or `PRE CALL;` as statements.
    fn flat(&self, pre: &str, post: &str, question: bool, whole: bool) -> Option<String> {
        let (stmts, e) = self.split()?;
        // a value goes where it is wanted; what is dropped needs no parentheses
        let paren = |e: String| match syn::parse_str::<syn::Expr>(&e) {
            Ok(syn::Expr::MethodCall(_) | syn::Expr::Call(_) | syn::Expr::Path(_) | syn::Expr::Field(_) | syn::Expr::Macro(_)) => e,
            _ if whole || pre.trim_end().ends_with('=') && post.trim() == ";" => e,
            _ => format!("({})", e),
        };
        if stmts.trim().is_empty() && !whole && !question { return None; }
        Some(match (e.map(paren), question) {
            (None, false) if whole => stmts,
            (None, _) => return None,
            (Some(e), false) => format!("{} {}{}{}", stmts, pre, e, post),
            (Some(e), true) => {
                let x: syn::Expr = syn::parse_str(&e).ok()?;
                let plain = match &x {
                    syn::Expr::MethodCall(_) => true,
                    syn::Expr::Call(c) => !["Ok", "Err", "Some", "None"].contains(&c.func.to_token_stream().to_string().as_str()),
                    _ => false,
                };
                match (&self.ret, plain) {
                    (_, true) => format!("{} {}{}?{}", stmts, pre, e, post),
                    (Some(t), _) => format!("{} let r__: {} = {}; {}r__?{}", stmts, t, e, pre, post),
                    _ => return None,
                }
            }
        })
    }
}

#[derive(Default)]
struct Bound(Vec<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        if !p.ident.to_string().starts_with(char::is_uppercase) { self.0.push(p.ident.to_string()); }
        visit::visit_pat_ident(self, p);
    }
}

struct Calls<'a, 'h> {
    vars: BTreeSet<String>, // the variables of the caller
    own: BTreeSet<String>, // the names that the caller uses itself
    last: Option<Range<usize>>,
    text: &'a str,
    helpers: &'h [Helper<'a>],
    selfty: Option<String>,
    caller_ret: Option<String>,
    caller: Range<usize>,
    tails: Vec<Range<usize>>,
    found: Vec<(Range<usize>, String, String)>, // outermost first
    closures: usize,
}

impl<'a, 'h> Calls<'a, 'h> {
    fn render(&self, h: &Helper<'a>, recv: Option<&syn::Expr>, args: Vec<&syn::Expr>, whole: Range<usize>, question: bool) -> Option<Parts> {
        if args.len() != h.params.len() { return None; }
        let text = self.text;
        if h.block.stmts.is_empty() { return None; }
        let l = leaves(h.block);
        if l.inner { return None; }
        // what the body names from outside must not be a variable of the caller
        let mut bound = Bound::default();
        bound.visit_block(h.block);
        let bound: BTreeSet<String> = bound.0.into_iter().chain(h.params.iter().map(|p| p.0.clone())).collect();
        if free(h.block.to_token_stream()).iter().any(|x| !bound.contains(x) && x != "self" && self.vars.contains(x)) { return None; }
        let mut edits: Vec<Edit> = Vec::new();
        let mut lets = String::new();
        let used = idents(h.block.to_token_stream());
        let strs = strings(h.block.to_token_stream());
        let mut names = BTreeSet::new();
        for (i, ((p, m, t), a)) in h.params.iter().zip(&args).enumerate() {
            let at = &text[br(*a)];
            // an argument must not see the parameters that are bound before it
            if idents(a.to_token_stream()).iter().any(|(x, _)| names.contains(x)) { return None; }
            let simple = matches!(a, syn::Expr::Path(q) if q.path.get_ident().is_some()) && !*m;
            if simple && at == p { continue; }
            if simple && !used.iter().any(|u| u.0 == at) && !strs.contains(&format!("{{{}", p)) {
                for (u, r) in &used { if u == p { edits.push(Edit { range: r.clone(), text: at.into(), seq: edits.len() }); } }
                continue;
            }
            // a borrowed place is written in place of the parameter
            if let (syn::Expr::Reference(r), false) = (a, *m) {
                let place = place_of(&r.expr);
                if place.as_ref().map_or(false, |x| !used.iter().any(|u| u.0 == *x) || x == "self" && (h.ty == self.selfty || !used.iter().any(|u| u.0 == "self")) || x == p) && !strs.contains(&format!("{{{}", p)) {
                    for (u, r) in &used { if u == p { edits.push(Edit { range: r.clone(), text: format!("({})", at), seq: edits.len() }); } }
                    continue;
                }
            }
            names.insert(p.clone());
            let _ = i;
            lets.push_str(&format!("let {}{}{} = {}; ", if *m { "mut " } else { "" }, p, if t.is_empty() { String::new() } else { format!(": {}", t) }, at));
        }
        // `Self` of the helper
        match (&h.ty, &self.selfty) {
            (Some(t), Some(s)) if t == s => {}
            (Some(t), _) => for (u, r) in self_uses(h.block) { if u == "Self" { edits.push(Edit { range: r, text: t.clone(), seq: edits.len() }); } },
            _ => {}
        }
        if let Some(r) = recv {
            if text[br(r)].trim() != "self" {
                let (k, t) = (h.recv, h.ty.clone()?);
                // members of a place
                let place = place_of(r);
                if let (Some(x), true, true) = (place, k != Recv::Val, self_members_only(h.block)) {
                    if !used.iter().any(|u| u.0 == x) || x == "self" {
                        for (u, q) in self_uses(h.block) { if u == "self" { edits.push(Edit { range: q, text: text[br(r)].into(), seq: edits.len() }); } }
                        return self.finish(h, lets, edits, whole, question, l);
                    }
                }
                for (u, r) in self_uses(h.block) { if u == "self" { edits.push(Edit { range: r, text: "self__h".into(), seq: edits.len() }); } }
                let s = match k {
                    Recv::Ref => format!("let self__h: &{} = &{}; ", t, &text[br(r)]),
                    Recv::Val => format!("let self__h = {}; ", &text[br(r)]),
                    _ => return None,
                };
                lets.insert_str(0, &s);
            }
        }
        self.finish(h, lets, edits, whole, question, l)
    }
    fn finish(&self, h: &Helper<'a>, lets: String, edits: Vec<Edit>, whole: Range<usize>, question: bool, l: Leaves) -> Option<Parts> {
        let text = self.text;
        let inner = br(h.block).start + 1..br(h.block).end - 1;
        let tail = self.tails.contains(&whole) && self.closures == 0 && h.ret.is_some() && h.ret == self.caller_ret;
        let body = if tail || (!l.ret && !l.question) {
            apply(text, inner.clone(), &edits)
        } else {
            // under `?` an early error leaves the caller, too
            let same = question && self.closures == 0 && fails_as(h.ret.as_deref()) == fails_as(self.caller_ret.as_deref()) && fails_as(h.ret.as_deref()).is_some();
            if l.question && !same { return None; }
            if l.ret {
                // renamed text, parsed again
                let t = format!("{{{}}}", apply(text, inner.clone(), &edits));
                let b: syn::Block = syn::parse_str(&t).ok()?;
                let off = br(&b).start;
                let _ = off;
                // byte ranges of a freshly parsed string start at its own place in the source map
                let base = br(&b).start;
                if base != 0 { return None; }
                unguard(&t, &b.stmts, t.len())?
            } else { apply(text, inner.clone(), &edits) }
        };
        let ret = match &h.ret {
            Some(t) if !t.is_empty() && !tail && !["bool", "usize", "u64", "i64", "u32", "i32", "u8"].contains(&t.as_str()) && body.contains(';') | question => Some(t.clone()),
            _ => None,
        };
        let mut names = Bound::default();
        for s in &h.block.stmts { if let syn::Stmt::Local(l) = s { names.visit_pat(&l.pat); } }
        let mut names = names.0;
        for (p, _, _) in &h.params { if lets.contains(&format!("let {}", p)) || lets.contains(&format!("let mut {}", p)) { names.push(p.clone()); } }
        Some(Parts { lets, body, ret, names })
    }
    fn lookup(&self, name: &str, ty: Option<&str>) -> Option<&'h Helper<'a>> {
        let mut c = self.helpers.iter().filter(|h| h.name == name && h.ty.as_deref() == ty && h.nested.as_ref().map_or(true, |n| *n == self.caller));
        let r = c.next();
        if c.next().is_some() { None } else { r }
    }
    fn call(&self, e: &'a syn::Expr, question: bool) -> Option<(Parts, String)> {
        match e {
            syn::Expr::Call(c) => if let syn::Expr::Path(p) = &*c.func {
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let h = match &seg[..] {
                    [n] => self.lookup(n, None),
                    [t, n] if t == "Self" => { let s = self.selfty.clone(); s.and_then(|s| self.lookup(n, Some(&s))) }
                    [t, n] if t == "self" => self.lookup(n, None),
                    [t, n] => self.lookup(n, Some(t)),
                    _ => None,
                };
                if let Some(h) = h {
                    let mut args: Vec<&syn::Expr> = c.args.iter().collect();
                    let mut recv = None;
                    if h.recv != Recv::None && !args.is_empty() {
                        recv = Some(args.remove(0));
                        if self.text[br(recv.unwrap())].trim() != "self" { return None; }
                    }
                    return self.render(h, recv, args, br(e), question).map(|p| (p, h.name.clone()));
                }
            },
            syn::Expr::MethodCall(m) if m.turbofish.is_none() => {
                let n = m.method.to_string();
                let own = self.text[br(&m.receiver)].trim() == "self";
                let h = if own { self.selfty.clone().and_then(|s| self.lookup(&n, Some(&s))) } else {
                    let mut c = self.helpers.iter().filter(|h| h.name == n && h.recv != Recv::None);
                    match (c.next(), c.next()) { (Some(h), None) => Some(h), _ => None }
                };
                if let Some(h) = h {
                    if h.recv != Recv::None {
                        return self.render(h, Some(&m.receiver), m.args.iter().collect(), br(e), question).map(|p| (p, h.name.clone()));
                    }
                }
            }
            _ => {}
        }
        None
    }
    fn expr(&mut self, e: &'a syn::Expr, question: bool) {
        if let Some((p, n)) = self.call(e, question) { self.found.push((br(e), p.expr(), n)); return; }
        match e {
            // a function handed on is a closure
            syn::Expr::Path(p) if p.path.segments.len() <= 2 => {
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let h = match &seg[..] {
                    [n] => self.lookup(n, None),
                    [t, n] if t == "Self" => { let s = self.selfty.clone(); s.and_then(|s| self.lookup(n, Some(&s))) }
                    [t, n] => self.lookup(n, Some(t)),
                    _ => None,
                };
                if let Some(h) = h {
                    let l = leaves(h.block);
                    if h.recv == Recv::None && !l.ret && !l.question && !l.inner && !h.block.stmts.is_empty() {
                        let ps: Vec<String> = h.params.iter().map(|(n, m, t)| format!("{}{}{}", if *m { "mut " } else { "" }, n, if t.is_empty() { String::new() } else { format!(": {}", t) })).collect();
                        let b = &self.text[br(h.block).start + 1..br(h.block).end - 1];
                        let b = b.trim();
                        let t = if h.block.stmts.len() == 1 { format!("|{}| {}", ps.join(", "), b) } else { format!("|{}| {{ {} }}", ps.join(", "), b) };
                        self.found.push((br(e), t, h.name.clone()));
                    }
                }
            }
            _ => {}
        }
    }
}

/// The part of an expression that is evaluated before all else.
fn first(e: &syn::Expr) -> Option<&syn::Expr> {
    match e {
        syn::Expr::Assign(a) => Some(&a.right),
        syn::Expr::Call(c) if matches!(&*c.func, syn::Expr::Path(_)) => c.args.first(),
        syn::Expr::MethodCall(m) => Some(&m.receiver),
        syn::Expr::Try(t) => Some(&t.expr),
        syn::Expr::Paren(p) => Some(&p.expr),
        syn::Expr::Unary(u) => Some(&u.expr),
        syn::Expr::Reference(r) => Some(&r.expr),
        syn::Expr::Field(f) => Some(&f.base),
        syn::Expr::Cast(c) => Some(&c.expr),
        syn::Expr::Binary(b) if !b.op.to_token_stream().to_string().ends_with('=') || b.op.to_token_stream().to_string().len() == 2 && "=!<>".contains(&b.op.to_token_stream().to_string()[..1]) => Some(&b.left),
        syn::Expr::Struct(s) => s.fields.first().map(|f| &f.expr),
        syn::Expr::Tuple(t) => t.elems.first(),
        syn::Expr::If(f) => Some(&f.cond),
        syn::Expr::Let(l) => Some(&l.expr),
        syn::Expr::Match(m) => Some(&m.expr),
        syn::Expr::Return(r) => r.expr.as_deref(),
        _ => None,
    }
}

/// The variable of a place `x.a.b`.
fn place_of(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        syn::Expr::Field(f) => place_of(&f.base),
        _ => None,
    }
}

fn self_uses(b: &syn::Block) -> Vec<(String, Range<usize>)> {
    let mut out = Vec::new();
    walk(b.to_token_stream(), &mut |_, t, _| if let proc_macro2::TokenTree::Ident(i) = t {
        if i == "self" || i == "Self" { out.push((i.to_string(), i.span().byte_range())); }
    });
    out
}

fn self_members_only(b: &syn::Block) -> bool {
    let mut ok = true;
    walk(b.to_token_stream(), &mut |_, t, next| if let proc_macro2::TokenTree::Ident(i) = t { if i == "self" && next != Some('.') { ok = false; } });
    ok
}

/// The way a function fails: the type that `?` hands on.
fn fails_as(t: Option<&str>) -> Option<String> {
    let t: String = t?.split_whitespace().collect();
    if t.starts_with("Option<") { return Some("Option".into()); }
    let i = t.find('<')?;
    if t[..i].ends_with("io::Result") { return Some("io::Error".into()); }
    if &t[..i] == "Result" {
        let inner = &t[i + 1..t.len() - 1];
        let mut depth = 0;
        let mut cut = None;
        for (k, c) in inner.char_indices() { match c { '<' | '(' | '[' => depth += 1, '>' | ')' | ']' => depth -= 1, ',' if depth == 0 => cut = Some(k), _ => {} } }
        return Some(match cut { Some(k) => inner[k + 1..].to_string(), None => "Result".into() });
    }
    None
}

impl<'a, 'h> Visit<'a> for Calls<'a, 'h> {
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        // a call that a statement begins with becomes statements before it
        let (e, name, tail) = match s {
            syn::Stmt::Expr(e, Some(_)) => (Some(e), None, false),
            syn::Stmt::Expr(e, None) if self.last == Some(br(e)) => (Some(e), None, true),
            syn::Stmt::Expr(e @ (syn::Expr::If(_) | syn::Expr::Match(_)), None) => (Some(e), None, false),
            syn::Stmt::Local(syn::Local { init: Some(i), pat, .. }) if i.diverge.is_none() => {
                let p = match pat { syn::Pat::Type(t) => &*t.pat, p => p };
                (Some(&*i.expr), match p { syn::Pat::Ident(p) => Some((p.ident.to_string(), p.mutability.is_some())), _ => None }, false)
            }
            _ => (None, None, false),
        };
        let mut next = e;
        while let Some(e) = next {
            let (c, q) = match e { syn::Expr::Try(t) => (&*t.expr, true), e => (e, false) };
            if let Some((p, n)) = self.call(c, q) {
                let (r, x) = (br(s), br(e));
                let own = |n: &String| self.own.contains(n) && !(name.as_ref().map_or(false, |m| m.0 == *n));
                if !p.names.iter().any(own) {
                    let (pre, post) = (self.text[r.start..x.start].to_string(), self.text[x.end..r.end].to_string());
                    let whole = if let syn::Stmt::Expr(e, _) = s { br(e) == x } else { false };
                    let _ = tail;
                    let t = p.flat(&pre, &post, q, whole);
                    if let Some(mut t) = t {
                        // `let x = x;`
                        if let Some((v, m)) = &name {
                            let end = format!("{}{};", pre, v);
                            if t.trim_end().ends_with(&end) && (!*m || t.contains(&format!("let mut {}", v))) { t = t.trim_end().strip_suffix(&end).unwrap().to_string(); }
                        }
                        self.found.push((r, t, n));
                        return;
                    }
                }
                break;
            }
            next = first(e);
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        let n = self.found.len();
        if let syn::Expr::Try(t) = e { self.expr(&t.expr, true); if self.found.len() > n { return; } }
        self.expr(e, false);
        if self.found.len() > n { return; }
        let c = matches!(e, syn::Expr::Closure(_));
        if c { self.closures += 1; }
        match e {
            // what is called is not handed on
            syn::Expr::Call(x) if matches!(&*x.func, syn::Expr::Path(_)) => for a in &x.args { self.visit_expr(a); },
            _ => visit::visit_expr(self, e),
        }
        if c { self.closures -= 1; }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
            let args: &'a _ = Box::leak(Box::new(a));
            for e in args.iter() { self.visit_expr(e); }
        }
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

fn tails(b: &syn::Block, out: &mut Vec<Range<usize>>) {
    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() { tail_expr(e, out); }
    struct R<'o>(&'o mut Vec<Range<usize>>);
    impl<'a, 'o> Visit<'a> for R<'o> {
        fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
            if let Some(e) = &r.expr { tail_expr(e, self.0); }
            visit::visit_expr_return(self, r);
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_item(&mut self, _: &'a syn::Item) {}
    }
    R(out).visit_block(b);
}
fn tail_expr(e: &syn::Expr, out: &mut Vec<Range<usize>>) {
    let mut block = |b: &syn::Block, out: &mut Vec<Range<usize>>| if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() { tail_expr(e, out); };
    match e {
        syn::Expr::If(f) => { block(&f.then_branch, out); if let Some((_, x)) = &f.else_branch { tail_expr(x, out); } }
        syn::Expr::Match(m) => for a in &m.arms { tail_expr(&a.body, out); },
        syn::Expr::Block(b) => block(&b.block, out),
        syn::Expr::Paren(p) => tail_expr(&p.expr, out),
        _ => out.push(br(e)),
    }
}

struct F<'a> { ty: Option<String>, name: String, sig: &'a syn::Signature, block: &'a syn::Block, whole: Range<usize>, in_trait: bool, nested: Option<Range<usize>> }

fn functions<'a>(file: &'a syn::File) -> Vec<F<'a>> {
    let mut items = Vec::new();
    all_items(&file.items, &mut items);
    let mut out: Vec<F<'a>> = Vec::new();
    for i in items {
        match i {
            syn::Item::Fn(f) if !is_test(&f.attrs) => out.push(F { ty: None, name: f.sig.ident.to_string(), sig: &f.sig, block: &f.block, whole: br(f), in_trait: false, nested: None }),
            syn::Item::Impl(im) if !is_test(&im.attrs) => for ii in &im.items {
                if let syn::ImplItem::Fn(f) = ii {
                    if is_test(&f.attrs) { continue; }
                    out.push(F { ty: Some(type_name(&im.self_ty)), name: f.sig.ident.to_string(), sig: &f.sig, block: &f.block, whole: br(f), in_trait: im.trait_.is_some(), nested: None });
                }
            },
            _ => {}
        }
    }
    let mut nested = Vec::new();
    for f in &out {
        for s in &f.block.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(g)) = s {
                nested.push(F { ty: None, name: g.sig.ident.to_string(), sig: &g.sig, block: &g.block, whole: br(g), in_trait: false, nested: Some(f.whole.clone()) });
            }
        }
    }
    out.extend(nested);
    out
}

fn ret_text(text: &str, sig: &syn::Signature, tparams: &[String], selfty: Option<&str>) -> Option<String> {
    match &sig.output {
        syn::ReturnType::Default => None,
        syn::ReturnType::Type(_, t) => Some(plain_type(text, t, tparams, selfty).unwrap_or_default()),
    }
}

/// One step: the outermost call of a helper in every function, replaced.
fn step(text: &str, known: &BTreeSet<String>, own: &mut BTreeMap<String, BTreeSet<String>>, log: &mut BTreeSet<String>) -> Option<String> {
    let file = syn::parse_file(text).ok()?;
    let fns = functions(&file);
    let tparams = |f: &F| f.sig.generics.params.iter().filter_map(|p| match p { syn::GenericParam::Type(t) => Some(t.ident.to_string()), syn::GenericParam::Const(c) => Some(c.ident.to_string()), _ => None }).collect::<Vec<_>>();
    let is_known = |f: &F| f.in_trait || (f.nested.is_none() && known.contains(&match &f.ty { Some(t) => format!("{}::{}", t, f.name), None => f.name.clone() }));
    let mut helpers = Vec::new();
    for f in &fns {
        if is_known(f) || f.sig.unsafety.is_some() || f.sig.asyncness.is_some() { continue; }
        let tp = tparams(f);
        let mut h = Helper { name: f.name.clone(), ty: f.ty.clone(), recv: Recv::None, params: vec![], ret: ret_text(text, f.sig, &tp, f.ty.as_deref()), tparams: tp, block: f.block, nested: f.nested.clone() };
        let mut ok = true;
        for a in &f.sig.inputs {
            match a {
                syn::FnArg::Receiver(r) => h.recv = match (&r.reference, &r.mutability) { (Some(_), Some(_)) => Recv::Mut, (Some(_), None) => Recv::Ref, (None, None) => Recv::Val, _ => { ok = false; Recv::Val } },
                syn::FnArg::Typed(t) => match &*t.pat {
                    syn::Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => h.params.push((i.ident.to_string(), i.mutability.is_some(), plain_type(text, &t.ty, &h.tparams, f.ty.as_deref()).unwrap_or_default())),
                    _ => ok = false,
                },
            }
        }
        // the body must not need the type parameters
        if idents(f.block.to_token_stream()).iter().any(|(x, _)| h.tparams.contains(x)) { ok = false; }
        if ok { helpers.push(h); }
    }
    let mut edits = Vec::new();
    if !helpers.is_empty() {
        for f in &fns {
            if !is_known(f) { continue; }
            let mut ts = Vec::new();
            tails(f.block, &mut ts);
            let id = format!("{:?}::{}::{}", f.ty, f.name, f.sig.output.to_token_stream());
            let own = own.entry(id).or_insert_with(|| idents(f.block.to_token_stream()).into_iter().map(|x| x.0).collect()).clone();
            let last = match f.block.stmts.last() { Some(syn::Stmt::Expr(e, None)) => Some(br(e)), _ => None };
            let mut vars = Bound::default();
            vars.visit_signature(f.sig);
            vars.visit_block(f.block);
            let vars = vars.0.into_iter().collect();
            let mut c = Calls { vars, own, last, text, helpers: &helpers, selfty: f.ty.clone(), caller_ret: ret_text(text, f.sig, &[], f.ty.as_deref()), caller: f.whole.clone(), tails: ts, found: vec![], closures: 0 };
            c.visit_block(f.block);
            for (r, t, n) in c.found { log.insert(format!("{} into {}", n, f.name)); edits.push(Edit { range: r, text: t, seq: edits.len() }); }
        }
    }
    // functions inside of a function that nothing uses any more
    for f in &fns {
        if let Some(n) = &f.nested {
            let mut used = 0;
            let outer = fns.iter().find(|g| g.whole == *n).unwrap();
            walk(outer.block.to_token_stream(), &mut |_, t, _| if let proc_macro2::TokenTree::Ident(i) = t { if *i == f.name { used += 1; } });
            if used == 1 && edits.is_empty() { edits.push(Edit { range: f.whole.clone(), text: String::new(), seq: edits.len() }); }
        }
    }
    if edits.is_empty() { return None; }
    Some(apply(text, 0..text.len(), &edits))
}

pub fn inline(text: String, known: &BTreeSet<String>) -> (String, BTreeSet<String>) {
    let mut t = text;
    let mut log = BTreeSet::new();
    let mut own = BTreeMap::new();
    for _ in 0..60 {
        match step(&t, known, &mut own, &mut log) {
            Some(n) if n.len() < 1_000_000 && syn::parse_file(&n).is_ok() => t = n,
            _ => break,
        }
    }
    (t, log)
}
