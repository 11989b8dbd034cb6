//! Mechanical extraction of functions from the sources of ruplicity into a file for the verifier.
//!
//! usage: extract SRC_DIR OVERLAY OUT.rs OUT.map [--external NAME]... [--drop NAME]...
//!
//! The overlay lists, by name, the items and functions to extract, and carries the contracts.
//! The text of the functions is copied from the sources byte by byte; only insertions of contracts
//! and the rewrites numbered R1.. below change it. See DESIGN.md, "Extraction".
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod inline;
mod open;
mod rename;
mod strangers;

#[derive(Clone)]
struct Edit {
    range: Range<usize>,
    text: String,
    seq: usize,
}

struct Source {
    text: String,
    file: syn::File,
}

fn br<T: Spanned>(t: &T) -> Range<usize> {
    t.span().byte_range()
}

#[derive(Default, Clone)]
struct FnSpec {
    id: String,               // name, with @trait where a trait is given
    name: String,             // Type::name or name
    props: Vec<String>,
    file: String,
    inherent: bool,           // emit a trait method in an inherent impl
    trait_name: Option<String>,
    via: Option<String>,      // trait of the overlay that stands for it in the impl (R15)
    external: bool,
    vis: bool,                // emit with `pub`
    ret: Option<String>,
    sections: Vec<(String, String)>, // anchor -> text
    nloops: Option<usize>,
}

enum Part {
    Raw(String),
    Item { file: String, kind: String, name: String, opts: Vec<String> },
    Fn(FnSpec),
}

fn parse_overlay(text: &str) -> Vec<Part> {
    let mut parts = Vec::new();
    let mut file = String::new();
    let mut all_external = false; // contracts that are proved in another overlay
    enum Mode {
        None,
        Raw(String),
        Fn(FnSpec, Option<String>, String),
    }
    let mut mode = Mode::None;
    fn flush(mode: &mut Mode, parts: &mut Vec<Part>) {
        match std::mem::replace(mode, Mode::None) {
            Mode::None => {}
            Mode::Raw(s) => parts.push(Part::Raw(s)),
            Mode::Fn(mut f, anchor, buf) => {
                if let Some(a) = anchor {
                    f.sections.push((a, buf));
                }
                parts.push(Part::Fn(f));
            }
        }
    }
    for line in text.lines() {
        let tl = line.trim_start();
        if let Some(d) = tl.strip_prefix("//@") {
            let words: Vec<&str> = d.split_whitespace().collect();
            match words[0] {
                "file" => {
                    flush(&mut mode, &mut parts);
                    file = words[1].to_owned();
                }
                "external" => {
                    flush(&mut mode, &mut parts);
                    all_external = words[1] == "on";
                }
                "verus" => {
                    flush(&mut mode, &mut parts);
                    mode = Mode::Raw(String::new());
                }
                "item" => {
                    flush(&mut mode, &mut parts);
                    parts.push(Part::Item {
                        file: file.clone(),
                        kind: words[1].into(),
                        name: words[2].into(),
                        opts: words[3..].iter().map(|s| s.to_string()).collect(),
                    });
                }
                "fn" => {
                    flush(&mut mode, &mut parts);
                    let mut f = FnSpec { name: words[1].into(), file: file.clone(), external: all_external, vis: all_external, ..Default::default() };
                    for w in &words[2..] {
                        if *w == "inherent" { f.inherent = true }
                        else if *w == "external" { f.external = true }
                        else if let Some(t) = w.strip_prefix("trait=") { f.trait_name = Some(t.into()) }
                        else if let Some(t) = w.strip_prefix("via=") { f.via = Some(t.into()) }
                        else if let Some(t) = w.strip_prefix("props=") { f.props = t.split(',').map(|s| s.into()).collect() }
                        else if let Some(t) = w.strip_prefix("loops=") { f.nloops = Some(t.parse().unwrap()) }
                        else if let Some(t) = w.strip_prefix("ret=") { f.ret = Some(t.into()) }
                        else { panic!("unknown fn option {}", w) }
                    }
                    f.id = match &f.trait_name { Some(t) => format!("{}@{}", f.name, t), None => f.name.clone() };
                    mode = Mode::Fn(f, None, String::new());
                }
                _ => {
                    // a section of the current function
                    let anchor = words.join(" ");
                    mode = match std::mem::replace(&mut mode, Mode::None) {
                        Mode::Fn(mut f, a, buf) => {
                            if let Some(a) = a { f.sections.push((a, buf)); }
                            Mode::Fn(f, Some(anchor), String::new())
                        }
                        _ => panic!("section {} outside of a function", anchor),
                    };
                }
            }
        } else {
            match &mut mode {
                Mode::Raw(s) => { s.push_str(line); s.push('\n'); }
                Mode::Fn(_, Some(_), buf) => { buf.push_str(line); buf.push('\n'); }
                _ => if !tl.is_empty() && !tl.starts_with("#") { panic!("stray text: {}", line) },
            }
        }
    }
    flush(&mut mode, &mut parts);
    parts
}

/// What the anchors of a function body refer to.
#[derive(Default)]
struct Body {
    loops: Vec<LoopInfo>,
    closures: Vec<ClosureInfo>,
    lets: Vec<(String, Range<usize>)>,
    calls: Vec<(String, Range<usize>)>, // statements that consist of a method call
    edits: Vec<Edit>,
    depth: usize,
    unsupported: Vec<String>,
    bool_or: bool,
    arms: Option<(String, String)>,
    rw: Rewrites,
}
#[derive(Default, Clone)]
struct Rewrites {
    text: String,
    bytes_eq: bool,
}
struct LoopInfo {
    kind: &'static str,
    whole: Range<usize>,
    body: Range<usize>,
    iter: Option<Range<usize>>,
    pat: Option<Range<usize>>,
    next_of: Option<Range<usize>>, // X of `while let Some(P) = X.next()`
}
/// Replaces a word by another.
fn rename_word(t: &str, a: &str, b: &str) -> String {
    let w = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find(a) {
        let before = rest[..i].chars().next_back().or(out.chars().next_back());
        let after = rest[i + a.len()..].chars().next();
        out.push_str(&rest[..i]);
        out.push_str(if before.map_or(false, w) || after.map_or(false, w) { a } else { b });
        rest = &rest[i + a.len()..];
    }
    out + rest
}

struct ClosureInfo {
    whole: Range<usize>,
    params: Range<usize>,
    nparams: usize,
    body: Range<usize>,
    block: bool,
    ret: bool,
    tuple: Option<Range<usize>>, // the pattern of a single parameter that is a tuple
}

impl Body {
    fn edit(&mut self, range: Range<usize>, text: String) {
        let seq = 100 + self.edits.len();
        self.edits.push(Edit { range, text, seq });
    }
}

fn is_bytestr_pat(p: &syn::Pat) -> bool {
    matches!(p, syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::ByteStr(_)))
}

fn stepped_first(s: &syn::Stmt) -> Option<Range<usize>> {
    let e = match s {
        syn::Stmt::Expr(syn::Expr::Match(m), _) => &m.expr,
        syn::Stmt::Expr(syn::Expr::If(f), _) => match &*f.cond { syn::Expr::Let(l) => &l.expr, _ => return None },
        syn::Stmt::Local(syn::Local { init: Some(i), .. }) => match &*i.expr { syn::Expr::Match(m) => &m.expr, e => e },
        _ => return None,
    };
    let e = match e { syn::Expr::Try(t) => &*t.expr, e => e };
    match e { syn::Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => Some(br(&m.receiver)), _ => None }
}
fn stepped(e: &syn::Expr) -> Option<Range<usize>> {
    match e {
        syn::Expr::Let(l) => match &*l.expr { syn::Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => Some(br(&m.receiver)), _ => None },
        _ => None,
    }
}

impl<'a> Visit<'a> for Body {
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.loops.push(LoopInfo { kind: "for", whole: br(e), body: br(&e.body), iter: Some(br(&e.expr)), pat: Some(br(&e.pat)), next_of: None });
        // R1: a loop over `&mut e` is a loop over `(e).iter_mut()`; over `&e` it is over `(e).iter()`
        if let syn::Expr::Reference(r) = &*e.expr {
            let inner = br(&r.expr);
            let start = br(&e.expr).start;
            let m = if r.mutability.is_some() { ".iter_mut()" } else { ".iter()" };
            self.edit(start..inner.start, String::new());
            self.edit(inner.end..inner.end, m.to_string());
        }
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        let kind = if matches!(*e.cond, syn::Expr::Let(_)) { "while-let" } else { "while" };
        self.loops.push(LoopInfo { kind, whole: br(e), body: br(&e.body), iter: None, pat: None, next_of: stepped(&e.cond) });
        if let syn::Expr::Let(l) = &*e.cond {
            // R3: `while let P = e { b }` is `loop { match e { P => { b } _ => { break; } } }`
            let pat = self.src(br(&l.pat));
            let _ = pat;
            let whole = br(e);
            let bodyr = br(&e.body);
            let patr = br(&l.pat);
            let expr = br(&l.expr);
            // `while let PAT = EXPR BODY`
            self.edit(whole.start..patr.start, "loop /*LOOPSPEC*/{ match (".to_string());
            let pt = self.src(patr.clone());
            self.edit(patr.start..expr.start, String::new());
            self.edit(expr.end..bodyr.start, format!(") {{ {} => ", pt));
            self.edit(whole.end..whole.end, " _ => { break; } } }".to_string());
        }
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        self.loops.push(LoopInfo { kind: "loop", whole: br(e), body: br(&e.body), iter: None, pat: None, next_of: e.body.stmts.first().and_then(stepped_first) });
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) {
        let params = br(&e.or1_token).start..br(&e.or2_token).end;
        self.closures.push(ClosureInfo {
            whole: br(e), params, nparams: e.inputs.len(), body: br(&e.body),
            block: matches!(*e.body, syn::Expr::Block(_)),
            ret: !matches!(e.output, syn::ReturnType::Default),
            tuple: match (e.inputs.len(), e.inputs.first()) {
                (1, Some(p @ syn::Pat::Tuple(_))) => Some(br(p)),
                (1, Some(syn::Pat::Type(t))) if matches!(*t.pat, syn::Pat::Tuple(_)) => Some(br(&t.pat)),
                _ => None,
            },
        });
        visit::visit_expr_closure(self, e);
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        // R11: `a |= e` on booleans is `a = bool_or(a, e)`
        if let (syn::BinOp::BitOrAssign(_), true) = (b.op, self.bool_or) {
            let (l, r) = (br(&b.left), br(&b.right));
            let place = self.src(l.clone());
            self.edit(l.end..r.start, format!(" = bool_or({}, ", place));
            self.edit(r.end..r.end, ")".into());
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
        // R14: `*E.borrow_mut() = V` is `E.borrow_mut_set(V)`
        if let syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Deref(_), expr, .. }) = &*a.left {
            if let syn::Expr::MethodCall(m) = &**expr {
                if m.method == "borrow_mut" && m.args.is_empty() {
                    let (l, e, r) = (br(&a.left), br(&m.receiver), br(&a.right));
                    self.edit(l.start..e.start, String::new());
                    self.edit(e.end..r.start, ".borrow_mut_set(".into());
                    self.edit(r.end..r.end, ")".into());
                }
            }
        }
        visit::visit_expr_assign(self, a);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        // R13: `write!(f, "{}x{}", a, b)` is `fmt_args().arg(&(a)).lit("x").arg(&(b)).write(f)`,
        // and `format!(..)` the same with `.text()`
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name.starts_with("try_or") || name.starts_with("unwrap_") {
            // the arguments of the library's own macros are code of the function
            if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                let args: &'a _ = Box::leak(Box::new(a));
                for e in args.iter() { self.visit_expr(e); }
            }
            return;
        }
        if name != "write" && name != "writeln" && name != "format" { return; }
        let args = match m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) { Ok(a) => a, Err(_) => return };
        let args: Vec<&'a syn::Expr> = Box::leak(Box::new(args)).iter().collect();
        let k = if name == "format" { 0 } else { 1 };
        let fmt = match args.get(k) {
            Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. })) => l.value(),
            None if name == "writeln" => String::new(),
            _ => return,
        };
        let end = if k == 1 { format!(".write({})", self.sink(args[0])) } else { ".text()".to_string() };
        let fmt = if name == "writeln" { fmt + "\n" } else { fmt };
        // the pieces of text around the arguments
        let mut pieces = vec![String::new()];
        let mut pads: BTreeMap<usize, (&str, usize)> = BTreeMap::new();
        let mut named: BTreeMap<usize, String> = BTreeMap::new();
        let mut it = fmt.chars().peekable();
        while let Some(c) = it.next() {
            match (c, it.peek()) {
                ('{', Some('{')) | ('}', Some('}')) => { it.next(); pieces.last_mut().unwrap().push(c); }
                ('{', Some('}')) => { it.next(); pieces.push(String::new()); }
                ('{', Some(':')) => {
                    // `{:<N}` and `{:>N}`: padded with blanks; `{:0N}`: a number with zeros in front
                    let spec: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                    let method = match spec.chars().next() { Some('<') => "pad_end", Some('>') => "pad_start", Some('0') => "zeros", _ => "" };
                    match spec.get(1..).and_then(|n| n.parse::<usize>().ok()) {
                        Some(n) if !method.is_empty() => { pads.insert(pieces.len() - 1, (method, n)); pieces.push(String::new()); }
                        _ => { self.unsupported.push("a format with more than {}".into()); return; }
                    }
                }
                ('{', Some(c)) if c.is_alphabetic() || *c == '_' => {
                    let n: String = it.by_ref().take_while(|c| *c != '}').collect();
                    if !n.chars().all(|c| c.is_alphanumeric() || c == '_') { self.unsupported.push("a format with more than {}".into()); return; }
                    named.insert(pieces.len() - 1, n);
                    pieces.push(String::new());
                }
                ('{', _) => { self.unsupported.push("a format with more than {}".into()); return; }
                _ => pieces.last_mut().unwrap().push(c),
            }
        }
        let args = args.get(k + 1..).unwrap_or(&[]);
        // `{x}` names a variable
        if !named.is_empty() {
            if !args.is_empty() || !pads.is_empty() { self.unsupported.push("a format with other arguments".into()); return; }
            if pieces.len() != named.len() + 1 { self.unsupported.push("a format with other arguments".into()); return; }
            let l = |p: &String| if p.is_empty() { String::new() } else { format!(".lit({:?})", p) };
            let mut s = format!("fmt_args(){}", l(&pieces[0]));
            for (i, n) in &named { s.push_str(&format!(".arg(&({})){}", n, l(&pieces[i + 1]))); }
            let r = br(m);
            self.edit(r, format!("{}{}", s, end));
            return;
        }
        if pieces.len() != args.len() + 1 { self.unsupported.push("a format with other arguments".into()); return; }
        let lit = |p: &String| if p.is_empty() { String::new() } else { format!(".lit({:?})", p) };
        let r = br(m);
        if args.is_empty() {
            self.edit(r, format!("fmt_args(){}{}", lit(&pieces[0]), end));
            return;
        }
        let mut from = r.start;
        let mut close = String::new();
        for (i, a) in args.iter().enumerate() {
            let head = if i == 0 { format!("fmt_args(){}", lit(&pieces[0])) } else { format!("{}{}", close, lit(&pieces[i])) };
            let method = pads.get(&i).map_or("arg", |p| p.0);
            self.edit(from..br(*a).start, format!("{}.{}(&(", head, method));
            close = pads.get(&i).map_or("))".to_string(), |p| format!("), {})", p.1));
            from = br(*a).end;
            self.visit_expr(a);
        }
        self.edit(from..r.end, format!("{}{}{}", close, lit(&pieces[args.len()]), end));
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        // R13: `f.write_str(e)` and `f.write_char(e)` write what `{}` does
        if (m.method == "write_str" || m.method == "write_char") && m.args.len() == 1 {
            let (w, a) = (br(m), br(&m.args[0]));
            let end = format!(")).write({})", self.sink(&m.receiver));
            self.edit(w.start..a.start, "fmt_args().arg(&(".into());
            self.edit(a.end..w.end, end);
            self.visit_expr(&m.args[0]);
            return;
        }
        // and `e.to_string()` is the text of it
        if m.method == "to_string" && m.args.is_empty() && FORMATS.load(std::sync::atomic::Ordering::Relaxed) {
            let (w, a) = (br(m), br(&m.receiver));
            self.edit(w.start..a.start, "fmt_args().arg(&(".into());
            self.edit(a.end..w.end, ")).text()".into());
            self.visit_expr(&m.receiver);
            return;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_local(&mut self, l: &'a syn::Local) {
        let mut p = &l.pat;
        if let syn::Pat::Type(t) = p { p = &t.pat; }
        if let syn::Pat::Ident(i) = p { self.lets.push((i.ident.to_string(), br(l))); }
        visit::visit_local(self, l);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        match s {
            syn::Stmt::Item(syn::Item::Use(u)) => {
                // R4: imports inside a function are dropped (the prelude has them)
                self.edit(br(u), String::new());
                return;
            }
            syn::Stmt::Expr(syn::Expr::MethodCall(m), Some(_)) => {
                self.calls.push((m.method.to_string(), br(s)));
            }
            _ => {}
        }
        visit::visit_stmt(self, s);
    }
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        // R20: of the first match, only the arms for the given characters are kept; the rest is one call
        if let Some((keep, rest)) = self.arms.take() {
            fn letters(p: &syn::Pat) -> Option<Vec<String>> {
                match p {
                    syn::Pat::Lit(syn::ExprLit { lit: syn::Lit::Char(c), .. }) => Some(vec![c.value().to_string()]),
                    syn::Pat::TupleStruct(t) => t.path.segments.last().map(|s| vec![s.ident.to_string()]),
                    syn::Pat::Path(t) => t.path.segments.last().map(|s| vec![s.ident.to_string()]),
                    syn::Pat::Or(o) => o.cases.iter().map(letters).collect::<Option<Vec<_>>>().map(|v| v.concat()),
                    _ => None,
                }
            }
            // the letters, or the name of a variant
            let names = m.arms.iter().any(|a| letters(&a.pat).map_or(false, |l| l.contains(&keep)));
            let keep: Vec<String> = if names { vec![keep] } else { keep.chars().map(|c| c.to_string()).collect() };
            let mut others = false; // an arm that could take a kept letter
            for a in &m.arms {
                let l = letters(&a.pat);
                let kept = l.as_ref().map_or(0, |l| l.iter().filter(|c| keep.contains(c)).count());
                if kept > 0 && (others || a.guard.is_some()) { self.unsupported.push("arms of another shape".into()); }
                else if kept > 0 { self.visit_arm(a); }
                else { others |= letters(&a.pat).is_none(); self.edit(br(a), String::new()); }
            }
            self.edit(br(m).end - 1..br(m).end - 1, format!(" _ => {{ {} }}\n", rest));
            return;
        }
        // R2: a match on byte string literals is a chain of comparisons
        if m.arms.iter().any(|a| is_bytestr_pat(&a.pat)) {
            let scrut = self.src(br(&m.expr));
            let mr = br(m);
            let first = br(&m.arms[0]).start;
            let mut ok = true;
            self.edit(mr.start..first, format!("{{ let __scrut = {}; ", scrut));
            for (i, a) in m.arms.iter().enumerate() {
                let last = i + 1 == m.arms.len();
                let ar = br(a);
                let body = br(&a.body);
                let end = if last { mr.end } else { br(&m.arms[i + 1]).start };
                if a.guard.is_some() { ok = false; }
                match &a.pat {
                    p if is_bytestr_pat(p) && !last => {
                        let lit = match p { syn::Pat::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) => b.value(), _ => unreachable!() };
                        let lit = format!("&[{}]", lit.iter().map(|b| format!("{}u8", b)).collect::<Vec<_>>().join(", "));
                        self.edit(ar.start..body.start, format!("if bytes_eq(__scrut, {}) {{ ", lit));
                        self.edit(body.end..end, " } else ".to_string());
                    }
                    syn::Pat::Wild(_) if last => {
                        self.edit(ar.start..body.start, "{ ".to_string());
                        self.edit(body.end..end, " } }".to_string());
                    }
                    _ => ok = false,
                }
            }
            if !ok { self.unsupported.push("match on byte strings of another shape".into()); }
        }
        visit::visit_expr_match(self, m);
    }
}
impl Body {
    /// What is written to: a variable that owns it is borrowed.
    fn sink(&self, e: &syn::Expr) -> String {
        let t = self.src(br(e));
        let owned = self.lets.iter().any(|l| l.0 == t && self.src(l.1.clone()).starts_with(&format!("let mut {}", t)));
        if owned { format!("&mut {}", t) } else { t }
    }
    fn src(&self, r: Range<usize>) -> String { self.rw.text[r].to_string() }
}

/// Applies edits (which may nest only as insertions inside kept text) to text[range].
fn apply(text: &str, range: Range<usize>, edits: &[Edit]) -> String {
    let mut es: Vec<&Edit> = edits.iter().filter(|e| e.range.start >= range.start && e.range.end <= range.end).collect();
    es.sort_by(|a, b| (a.range.start, a.range.end, a.seq).cmp(&(b.range.start, b.range.end, b.seq)));
    let mut out = String::new();
    let mut pos = range.start;
    for e in es {
        if e.range.start < pos {
            if e.range.end <= pos { // inside removed text
                continue;
            }
            panic!("overlapping edits at {:?}: {}", e.range, e.text);
        }
        out.push_str(&text[pos..e.range.start]);
        out.push_str(&e.text);
        pos = e.range.end;
    }
    out.push_str(&text[pos..range.end]);
    out
}

/// Edits that remove attributes, documentation and visibility.
struct Strip {
    edits: Vec<Edit>,
    fields: bool, // keep the visibility of fields
}
impl Strip {
    fn del(&mut self, r: Range<usize>) {
        let seq = 100 + self.edits.len();
        self.edits.push(Edit { range: r, text: String::new(), seq });
    }
}
impl<'a> Visit<'a> for Strip {
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        self.del(br(a));
    }
    fn visit_field(&mut self, f: &'a syn::Field) {
        if self.fields { for a in &f.attrs { self.visit_attribute(a); } } else { visit::visit_field(self, f); }
    }
    fn visit_visibility(&mut self, v: &'a syn::Visibility) {
        if !matches!(v, syn::Visibility::Inherited) { self.del(br(v)); }
    }
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

struct Found<'a> {
    imp: Option<&'a syn::ItemImpl>,
    sig: &'a syn::Signature,
    block: &'a syn::Block,
    whole: Range<usize>,
    vis_start: usize,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && matches!(&a.meta, syn::Meta::List(l) if { let t = l.tokens.to_string(); t == "test" || t == "windows" })
    })
}

fn all_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in items {
        if let syn::Item::Mod(m) = i {
            if is_test(&m.attrs) { continue; }
            if let Some((_, its)) = &m.content { all_items(its, out); }
        }
        out.push(i);
    }
}

fn find_fn<'a>(file: &'a syn::File, file_text: &str, spec: &FnSpec) -> Result<Found<'a>, String> {
    let mut items = Vec::new();
    all_items(&file.items, &mut items);
    let mut found = Vec::new();
    let (ty, name) = match spec.name.rsplit_once("::") { Some((t, n)) => (Some(t), n), None => (None, &spec.name[..]) };
    for i in items {
        match i {
            syn::Item::Fn(f) if ty.is_none() && f.sig.ident == name => found.push(Found {
                imp: None, sig: &f.sig, block: &f.block, whole: br(f), vis_start: br(&f.sig).start }),
            syn::Item::Impl(im) if ty == Some(&type_name(&im.self_ty)[..]) => {
                let tn = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                let full = im.trait_.as_ref().map(|t| file_text[br(t.1.segments.last().unwrap())].split_whitespace().collect::<String>());
                if spec.trait_name.is_some() && tn != spec.trait_name && full != spec.trait_name { continue; }
                if spec.trait_name.is_none() && !spec.inherent && tn.is_some() { continue; }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            found.push(Found { imp: Some(im), sig: &f.sig, block: &f.block, whole: br(f), vis_start: br(&f.sig).start });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if found.len() != 1 { return Err(format!("{} definitions of {}", found.len(), spec.name)); }
    Ok(found.pop().unwrap())
}

fn impl_header(text: &str, im: &syn::ItemImpl, inherent: bool, via: Option<&str>) -> String {
    // from `impl` to the opening brace
    let start = br(&im.impl_token).start;
    let end = im.brace_token.span.open().byte_range().start;
    if inherent {
        if let Some((_, path, for_tok)) = &im.trait_ {
            let _ = path;
            let gen_end = im.generics.gt_token.map(|g| br(&g).end).unwrap_or(br(&im.impl_token).end);
            return format!("{} {}", &text[start..gen_end], text[br(for_tok).end..end].trim());
        }
    }
    // R15: the methods of a trait of another crate's type are verified one by one, each in an impl
    // of a trait NAME of the overlay that declares just this method
    if let (Some(n), Some((_, path, _))) = (via, &im.trait_) {
        return format!("{}{}{}", &text[start..br(path).start], n, text[br(path).end..end].trim_end());
    }
    text[start..end].trim().to_string()
}

/// The overlay says what `{}` writes.
static FORMATS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// `--probe`: a false assertion at the entry of every function under contract.
static PROBE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// `adapt`: anchors in a part of the function that is not there any more are left out, and named in it.
fn build_fn(src: &Source, spec: &FnSpec, external: bool, mut adapt: Option<&mut Vec<String>>) -> Result<String, String> {
    let f = find_fn(&src.file, &src.text, spec)?;
    let text = &src.text;
    let mut body = Body::default();
    body.rw.text = text.clone();
    body.bool_or = spec.sections.iter().any(|s| s.0 == "bool-or");
    body.arms = spec.sections.iter().find_map(|s| { let w = s.0.strip_prefix("arms ")?; let (a, b) = w.split_once(' ')?; Some((a.into(), b.into())) });
    if !external {
        body.visit_block(f.block);
        if !body.unsupported.is_empty() { return Err(body.unsupported.join("; ")); }
        if let Some(n) = spec.nloops {
            if body.loops.is_empty() && n > 0 && adapt.is_some() { adapt.as_mut().unwrap().push("no loops".into()); }
            else if body.loops.len() != n { return Err(format!("{} loops instead of {}", body.loops.len(), n)); }
        } else if !body.loops.is_empty() {
            return Err(format!("{} loops without invariants", body.loops.len()));
        }
    }
    let mut strip = Strip { edits: vec![], fields: false };
    strip.visit_block(f.block);
    let mut edits = body.edits.clone();
    let mut seq = 10000;
    // insertions placed at the same offset keep the order in which they are pushed
    let mut ins = |edits: &mut Vec<Edit>, at: usize, t: String| {
        seq += 1;
        edits.push(Edit { range: at..at, text: t, seq });
    };
    // `while let Some(P) = X.next()` is what a loop over X is rewritten to (R10), with X for its name
    let mut spec = spec.clone();
    for (a, _) in spec.sections.clone() {
        let w: Vec<&str> = a.split_whitespace().collect();
        if w[0] != "loop" || w[2] != "desugar" { continue; }
        let l = match body.loops.get(w[1].parse::<usize>().unwrap()) { Some(l) if l.kind != "for" => l, _ => continue };
        let x = match l.next_of.clone() { Some(x) => text[x].to_string(), None => continue };
        if adapt.is_none() { return Err("not a for loop".into()); }
        adapt.as_mut().unwrap().push(format!("loop {} steps {}", w[1], x));
        if w.get(4) == Some(&"inplace") { continue; }
        for s in spec.sections.iter_mut() { s.1 = rename_word(&s.1, w[3], &x); }
    }
    let spec = &spec;
    let mut fnspec = String::new();
    let mut attrs = String::new();
    let block = br(f.block);
    let mut sigsub: Vec<(String, String)> = vec![];
    for (anchor, t) in &spec.sections {
        let w: Vec<&str> = anchor.split_whitespace().collect();
        if let Some(a) = adapt.as_mut() {
            let counted = |n: &str, l: &Vec<(String, Range<usize>)>| { let (n, k) = n.split_once('#').map_or((n, 0), |(n, k)| (n, k.parse().unwrap())); l.iter().filter(|l| l.0 == n).count() > k };
            let gone = match w[0] {
                "loop" => body.loops.is_empty(),
                "closure" => body.closures.is_empty(),
                "let" => !counted(w[1], &body.lets),
                "call" => !counted(w[1], &body.calls),
                _ => false,
            };
            if gone && !external { a.push(format!("no {}", w[..2].join(" "))); continue; }
        }
        match w[0] {
            "spec" => fnspec.push_str(t),
            "attr" => attrs.push_str(t),
            "sig" => { // R5: textual substitution in the signature: `sig A => B`
                let rest = anchor.strip_prefix("sig ").unwrap();
                let (a, b) = rest.split_once(" => ").ok_or("bad sig")?;
                sigsub.push((a.into(), b.into()));
            }
            _ if external => {}
            "bool-or" | "arms" => {}
            "start" => ins(&mut edits, block.start + 1, format!("\n{}", t)),
            "end" => ins(&mut edits, block.end - 1, format!("\n{}", t)),
            "tail" => {
                // before the tail expression
                let last = f.block.stmts.last().ok_or("empty body")?;
                match last {
                    syn::Stmt::Expr(_, None) => ins(&mut edits, br(last).start, format!("\n{}", t)),
                    _ => return Err(format!("{} has no tail expression", spec.name)),
                }
            }
            "loop" => {
                let i: usize = w[1].parse().unwrap();
                let l = body.loops.get(i).ok_or(format!("loop {} is missing", i))?;
                match w[2] {
                    "kind" => if l.kind != w[3] { return Err(format!("loop {} is a {} loop", i, l.kind)); },
                    "spec" => {
                        let desugared = spec.sections.iter().any(|(a, _)| a.starts_with(&format!("loop {} desugar ", i)));
                        if l.kind == "while-let" || desugared && l.kind == "for" {
                            let mut done = false;
                            for e in edits.iter_mut() {
                                if e.range.start >= l.whole.start && e.range.end <= l.body.start && e.text.contains("/*LOOPSPEC*/") {
                                    e.text = e.text.replace("/*LOOPSPEC*/", &format!("\n{}", t));
                                    done = true;
                                }
                            }
                            if !done { return Err("while-let anchor".into()); }
                        } else {
                            ins(&mut edits, l.body.start, format!("\n{}", t));
                        }
                    }
                    "desugar" => {
                        // R10: `for P in E { b }` is `let mut NAME = E'; loop { match NAME.next() { None => break, Some(P) => { b } } }`,
                        // E' being E.iter_mut()/E.iter() for a reference (R1), E.into_iter() with `into`, else E
                        if l.kind != "for" { continue; } // stepped already; see `stepped`
                        let (it, pat) = (l.iter.clone().ok_or("not a for loop")?, l.pat.clone().ok_or("not a for loop")?);
                        let name = w[3];
                        if w.get(4) == Some(&"inplace") {
                            // an iterator that is lent to the loop: no R1, and the iterator itself is stepped
                            let e = text[it.clone()].strip_prefix("&mut ").ok_or("not a lent iterator")?.to_string();
                            edits.retain(|x| !(x.range.start >= it.start && x.range.end <= it.end));
                            edits.push(Edit { range: l.whole.start..l.body.start, text: format!("{}loop /*LOOPSPEC*/ {{ match {}.next() {{ None => break, Some({}) => ", t, e, &text[pat]), seq: 0 });
                            edits.push(Edit { range: l.whole.end..l.whole.end, text: " } }".into(), seq: 0 });
                            continue;
                        }
                        let into = if w.get(4) == Some(&"into") { ".into_iter()" } else { "" };
                        edits.push(Edit { range: l.whole.start..it.start, text: format!("let mut {} = ", name), seq: 0 });
                        edits.push(Edit { range: it.end..l.body.start, text: format!("{};\n{}loop /*LOOPSPEC*/ {{ match {}.next() {{ None => break, Some({}) => ", into, t, name, &text[pat]), seq: 0 });
                        edits.push(Edit { range: l.whole.end..l.whole.end, text: " } }".into(), seq: 0 });
                    }
                    "iter" => { // names the ghost iterator of a for loop
                        let it = l.iter.clone().ok_or("not a for loop")?;
                        let seq0 = 0;
                        edits.push(Edit { range: it.start..it.start, text: format!("{}: ", w[3]), seq: seq0 });
                    }
                    "iterexpr" => { // R6: adapter around the iterated expression
                        let it = l.iter.clone().ok_or("not a for loop")?;
                        ins(&mut edits, it.end, t.trim().to_string());
                    }
                    "pat" => {
                        let want = w[3..].join(" ");
                        let p = l.pat.clone().ok_or("not a for loop")?;
                        if text[p.clone()].trim() != want { return Err(format!("loop {} binds {}", i, &text[p])); }
                    }
                    "before" => ins(&mut edits, l.whole.start, format!("{}\n", t)),
                    "after" => ins(&mut edits, l.whole.end, format!("\n{}", t)),
                    "body-start" => ins(&mut edits, l.body.start + 1, format!("\n{}", t)),
                    "body-end" => ins(&mut edits, l.body.end - 1, format!("\n{}", t)),
                    o => panic!("loop anchor {}", o),
                }
            }
            "closure" => {
                let i: usize = w[1].parse().unwrap();
                let c = body.closures.get(i).ok_or(format!("closure {} is missing", i))?;
                match w[2] {
                    "params" => {
                        if w[3].parse::<usize>().unwrap() != c.nparams { return Err(format!("closure {} has {} parameters", i, c.nparams)); }
                        edits.push(Edit { range: c.params.clone(), text: t.trim().to_string(), seq: 0 });
                    }
                    "spec" => {
                        if c.ret { return Err("closure with return type".into()); }
                        // before and after what the body is rewritten to
                        if c.block { ins(&mut edits, c.body.start, format!(" {}", t)); }
                        else {
                            edits.push(Edit { range: c.body.start..c.body.start, text: format!(" {}{{ ", t), seq: 1 });
                            edits.push(Edit { range: c.body.end..c.body.end, text: " }".to_string(), seq: 5000 });
                        }
                        // R12: `|(a, b)| e` is `|x| { let (a, b) = x; e }`
                        if let Some(pat) = &c.tuple {
                            let params = spec.sections.iter().find(|s| s.0.starts_with(&format!("closure {} params ", i))).ok_or("tuple pattern without closure params")?;
                            let x: String = params.1.trim().trim_start_matches('|').chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                            let l = format!("let {} = {}; ", &src.text[pat.clone()], x);
                            if c.block { ins(&mut edits, c.body.start + 1, l); }
                            else { edits.push(Edit { range: c.body.start..c.body.start, text: l, seq: 2 }); }
                        }
                    }
                    "count" => if body.closures.len() != w[3].parse::<usize>().unwrap() { return Err(format!("{} closures", body.closures.len())); },
                    o => panic!("closure anchor {}", o),
                }
            }
            "let" => {
                // let NAME[#k] after|before
                let (n, k) = match w[1].split_once('#') { Some((n, k)) => (n, k.parse().unwrap()), None => (w[1], 0usize) };
                let l: Vec<_> = body.lets.iter().filter(|l| l.0 == n).collect();
                let r = &l.get(k).ok_or(format!("no variable {}", w[1]))?.1;
                ins(&mut edits, if w[2] == "after" { r.end } else { r.start }, format!("\n{}\n", t));
            }
            "call" => {
                let (n, k) = match w[1].split_once('#') { Some((n, k)) => (n, k.parse().unwrap()), None => (w[1], 0usize) };
                let l: Vec<_> = body.calls.iter().filter(|l| l.0 == n).collect();
                let r = &l.get(k).ok_or(format!("no call {}", w[1]))?.1;
                ins(&mut edits, if w[2] == "after" { r.end } else { r.start }, format!("\n{}\n", t));
            }
            o => panic!("unknown anchor {}", o),
        }
    }
    if !external && PROBE.load(std::sync::atomic::Ordering::Relaxed) {
        ins(&mut edits, block.start + 1, " proof { assert(false); }".into());
    }
    edits.extend(strip.edits.into_iter());
    // signature
    let sig_end = match &f.sig.output {
        syn::ReturnType::Default => f.sig.paren_token.span.close().byte_range().end,
        syn::ReturnType::Type(_, t) => br(t).end,
    };
    let vis = if spec.vis && (spec.inherent || f.imp.map_or(true, |i| i.trait_.is_none())) { "pub " } else { "" };
    let mut sig = format!("{}{}", vis, &text[f.vis_start..sig_end]);
    if let (Some(r), syn::ReturnType::Type(_, t)) = (&spec.ret, &f.sig.output) {
        let tr = br(t);
        sig = format!("{}{}({}: {})", vis, &text[f.vis_start..tr.start], r, &text[tr]);
    }
    for (a, b) in &sigsub {
        if !sig.contains(a.as_str()) { return Err(format!("signature of {} without {}", spec.name, a)); }
        sig = sig.replace(a.as_str(), b);
    }
    if let Some(w) = &f.sig.generics.where_clause {
        sig.push(' ');
        sig.push_str(&text[br(w)]);
        if !text[br(w)].trim_end().ends_with(',') { sig.push(','); }
    }
    let bodytext = if external { "{ unimplemented!() }".to_string() } else { apply(text, block, &edits) };
    let ext = if external { "#[verifier::external_body]\n" } else { "" };
    let mut out = String::new();
    let fnt = format!("{}{}{}\n{}\n{}", attrs, ext, sig, fnspec.trim_end(), bodytext);
    match f.imp {
        None => out.push_str(&fnt),
        Some(im) => {
            let hdr = impl_header(text, im, spec.inherent, spec.via.as_deref());
            let mut assoc = String::new();
            if im.trait_.is_some() && !spec.inherent {
                for ii in &im.items {
                    if let syn::ImplItem::Type(t) = ii { let _ = writeln!(assoc, "{}", &text[br(t)]); }
                }
            }
            let _ = write!(out, "{} {{\n{}{}\n}}", hdr, assoc, fnt);
        }
    }
    out.push('\n');
    Ok(out)
}

fn build_item(src: &Source, kind: &str, name: &str, opts: &[String]) -> Result<String, String> {
    let mut items = Vec::new();
    all_items(&src.file.items, &mut items);
    let mut res = Vec::new();
    for i in items {
        let hit = match (kind, i) {
            ("struct", syn::Item::Struct(s)) => s.ident == name,
            ("enum", syn::Item::Enum(s)) => s.ident == name,
            ("const", syn::Item::Const(s)) => s.ident == name,
            ("type", syn::Item::Type(s)) => s.ident == name,
            ("trait", syn::Item::Trait(s)) => s.ident == name,
            ("macro", syn::Item::Macro(s)) => s.ident.as_ref().map_or(false, |x| x == name),
            ("impl", syn::Item::Impl(im)) => {
                // NAME is Trait<Args>:Type with blanks removed
                im.trait_.as_ref().map_or(false, |t| {
                    let tt = src.text[br(&t.1)].replace(' ', "");
                    format!("{}:{}", tt, src.text[br(&im.self_ty)].replace(' ', "")) == name
                })
            }
            _ => false,
        };
        if hit {
            let mut s = Strip { edits: vec![], fields: opts.iter().any(|o| o == "keepvis") };
            s.visit_item(i);
            let mut t = apply(&src.text, br(i), &s.edits);
            let mut pre = String::new();
            for o in opts {
                if let Some(d) = o.strip_prefix("derive=") { let _ = writeln!(pre, "#[derive({})]", d); }
                else if let Some(d) = o.strip_prefix("attr=") { let _ = writeln!(pre, "#[{}]", d); }
                else if let Some(d) = o.strip_prefix("rename=") { t = t.replacen(name, d, 1); }
            }
            let vis = if opts.iter().any(|o| o == "vis=pub") { "pub " } else { "" };
            res.push(format!("{}{}{}\n", pre, vis, t.trim()));
        }
    }
    if res.len() != 1 { return Err(format!("{} definitions of {} {}", res.len(), kind, name)); }
    Ok(res.pop().unwrap())
}

/// The traits that the overlay takes to be derived (`derive=`, `needs=`) and that the item does not derive.
fn not_derived(src: &Source, name: &str, opts: &[String]) -> Vec<String> {
    let mut items = Vec::new();
    all_items(&src.file.items, &mut items);
    let mut has = Vec::new();
    for i in items {
        let attrs = match i {
            syn::Item::Struct(s) if s.ident == name => &s.attrs,
            syn::Item::Enum(s) if s.ident == name => &s.attrs,
            _ => continue,
        };
        for a in attrs {
            if !a.path().is_ident("derive") { continue; }
            let _ = a.parse_nested_meta(|m| {
                if let Some(x) = m.path.segments.last() { has.push(x.ident.to_string()); }
                Ok(())
            });
        }
    }
    let mut out = Vec::new();
    for o in opts {
        if let Some(d) = o.strip_prefix("derive=").or_else(|| o.strip_prefix("needs=")) {
            for t in d.split(',') { if !has.iter().any(|h| h == t) { out.push(t.to_string()); } }
        }
    }
    out
}

fn read_overlay(path: &str) -> String {
    let dir = std::path::Path::new(path).parent().unwrap().to_owned();
    let mut out = String::new();
    for l in std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e)).lines() {
        if let Some(f) = l.trim_start().strip_prefix("//@ include ") {
            out.push_str(&read_overlay(dir.join(f.trim()).to_str().unwrap()));
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    out
}

/// R9: a by-value `mut self` receiver becomes `self` and a local variable `self_`.
struct MutSelf { edits: Vec<Edit> }
impl MutSelf {
    fn rename(&mut self, ts: proc_macro2::TokenStream) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => self.rename(g.stream()),
                proc_macro2::TokenTree::Ident(i) if i == "self" => {
                    let seq = 100 + self.edits.len();
                    self.edits.push(Edit { range: i.span().byte_range(), text: "self_".into(), seq });
                }
                _ => {}
            }
        }
    }
}
impl<'a> Visit<'a> for MutSelf {
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        if let Some(r) = f.sig.receiver() {
            if r.reference.is_none() {
                if let Some(m) = &r.mutability {
                    let seq = 100 + self.edits.len();
                    let m = br(m);
                    self.edits.push(Edit { range: m.start..br(&r.self_token).start, text: String::new(), seq });
                    let b = br(&f.block).start + 1;
                    self.edits.push(Edit { range: b..b, text: " let mut self_ = self;".into(), seq: seq + 1 });
                    for st in &f.block.stmts { self.rename(quote::ToTokens::to_token_stream(st)); }
                }
            }
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c => o.push(c) }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--names" {
        // the lines of names.txt for the files given
        for f in &a[3..] { let t = std::fs::read_to_string(format!("{}/{}", a[2], f)).unwrap(); print!("{}{}{}", rename::names(f, &t), open::names(f, &t), strangers::names(f, &t)); }
        return;
    }
    let (dir, overlay, out, map) = (&a[1], &a[2], &a[3], &a[4]);
    let mut external = BTreeSet::new();
    let mut drop = BTreeSet::new();
    let mut opened = BTreeSet::new();
    let mut i = 5;
    let mut inlining = true;
    while i + 1 < a.len() {
        match &a[i][..] { "--inline" => inlining = a[i + 1] != "off", "--external" => { external.insert(a[i + 1].clone()); } "--drop" => { drop.insert(a[i + 1].clone()); }
            "--open" => { opened.insert(a[i + 1].split('@').next().unwrap().to_string()); }
            "--probe" => PROBE.store(true, std::sync::atomic::Ordering::Relaxed), _ => panic!("usage") }
        i += 2;
    }
    let otext = read_overlay(overlay);
    // R8: calls redirected, by text, to wrappers whose body is the original call
    let mut subst: Vec<(String, String)> = Vec::new();
    let mut kept = String::new();
    for l in otext.lines() {
        if let Some(r) = l.trim_start().strip_prefix("//@ subst ") {
            let (a, b) = r.split_once(" => ").expect("subst A => B");
            subst.push((a.trim().into(), b.trim().into()));
        } else {
            kept.push_str(l);
            kept.push('\n');
        }
    }
    FORMATS.store(kept.contains("fn fmt_args()"), std::sync::atomic::Ordering::Relaxed);
    let sub = |t: String| subst.iter().fold(t, |t, (a, b)| t.replace(a.as_str(), b));
    let parts = parse_overlay(&kept);
    // the functions that some overlay has a contract for
    let mut known = BTreeSet::new();
    let here = std::path::Path::new(overlay).parent().unwrap();
    for e in std::fs::read_dir(here).unwrap() {
        let e = e.unwrap().path();
        if e.extension().map_or(true, |x| x != "vc") { continue; }
        for l in std::fs::read_to_string(&e).unwrap().lines() {
            if let Some(r) = l.trim_start().strip_prefix("//@ fn ") { known.insert(r.split_whitespace().next().unwrap().to_string()); }
        }
    }
    let mut sources: BTreeMap<String, Result<Source, String>> = BTreeMap::new();
    let mut text = String::new();
    let mut entries: Vec<String> = Vec::new();
    let mut texts: BTreeMap<String, String> = BTreeMap::new();
    for p in &parts {
        let file = match p { Part::Raw(_) => continue, Part::Item { file, .. } => file, Part::Fn(f) => &f.file };
        if texts.contains_key(file) || sources.contains_key(file) { continue; }
        let r = std::fs::read_to_string(format!("{}/{}", dir, file)).map_err(|e| format!("{}: {}", file, e))
            .and_then(|t| syn::parse_file(&t).map(|_| t).map_err(|e| format!("{}: {}", file, e)));
        match r { Ok(t) => { texts.insert(file.clone(), t); } Err(e) => { sources.insert(file.clone(), Err(e)); } }
    }
    let base = rename::Base::read(&here.join("names.txt"));
    let mut renamed = Vec::new();
    if inlining {
        // R18, functions and fields
        for f in texts.keys().cloned().collect::<Vec<_>>() {
            for (n, o) in rename::functions(&f, &texts[&f], &base) {
                if let Some(t) = rename::rename_function(&texts, &n, &o) { texts = t; renamed.push(format!("{}: {} for {}", f, o, n)); }
            }
        }
        let mut fields: BTreeMap<(String, String), usize> = BTreeMap::new();
        for (f, t) in &texts { for x in rename::fields(f, t, &base) { *fields.entry(x).or_insert(0) += 1; } }
        for ((n, o), k) in fields {
            if let Some(t) = rename::rename_field(&texts, &n, &o, k) { texts = t; renamed.push(format!("{} for {}", o, n)); }
        }
    }
    let constant = |n: &str| parts.iter().any(|p| matches!(p, Part::Item { kind, name, .. } if kind == "const" && name == n));
    let mut bare: BTreeMap<(String, String), usize> = BTreeMap::new();
    for (f, t) in texts {
        let t = if !inlining { t } else {
            // R22, R21
            let t = open::open(open::constants(t, &constant), &opened);
            // R16
            let (t, log) = inline::inline(t, &known);
            for l in log { entries.push(format!("{{\"kind\":\"inlined\",\"name\":{},\"file\":{}}}", esc(&l), esc(&f))); }
            // R18, variables
            rename::rename_variables(&f, t, &base, &mut renamed)
        };
        for (id, n) in open::closures(&t) {
            let n = n - base.count("C", &f, &id).min(n);
            if n > 0 { bare.insert((f.clone(), id), n); }
        }
        let file = syn::parse_file(&t).unwrap();
        let mut ms = MutSelf { edits: vec![] };
        ms.visit_file(&file);
        let t = apply(&t, 0..t.len(), &ms.edits);
        let s = syn::parse_file(&t).map(|file| Source { text: t, file }).map_err(|e| format!("{}: {}", f, e));
        sources.insert(f, s);
    }
    for l in renamed { entries.push(format!("{{\"kind\":\"adapted\",\"name\":\"names\",\"reason\":{}}}", esc(&l))); }
    // every property that a function of the overlay is for
    let mut all_props: Vec<String> = parts.iter().flat_map(|p| match p { Part::Fn(f) => f.props.clone(), _ => vec![] }).collect();
    all_props.sort();
    all_props.dedup();
    let all_props = all_props.join(",");
    // R19; it may matter for what the functions of that type are for, or those of that file
    let stranger_props = |x: &str, file: &str| {
        let of = |t: &str| {
            let mut v: Vec<String> = parts.iter().flat_map(|p| match p { Part::Fn(f) if &f.file == file && f.id.starts_with(t) => f.props.clone(), _ => vec![] }).collect();
            v.sort();
            v.dedup();
            v.join(",")
        };
        let t = x.split_once("::").map_or(String::new(), |t| of(&format!("{}::", t.0)));
        if !t.is_empty() { return t; }
        let t = of("");
        if t.is_empty() { all_props.clone() } else { t }
    };
    for (f, s) in &sources {
        let types = |t: &str| parts.iter().any(|p| match p {
            Part::Item { file, name, .. } => file == f && name == t,
            Part::Fn(x) => &x.file == f && x.id.starts_with(&format!("{}::", t)),
            _ => false,
        });
        if let Ok(s) = s {
            for x in strangers::strangers(f, &s.file, &base, &types) {
                entries.push(format!("{{\"kind\":\"fn\",\"name\":{},\"file\":{},\"status\":\"lost\",\"reason\":\"added by a change, without a contract\",\"props\":{}}}",
                    esc(&x), esc(f), esc(&stranger_props(&x, f))));
            }
        }
    }
    for p in &parts {
        let l0 = text.lines().count() + 1;
        match p {
            Part::Raw(s) => text.push_str(s),
            Part::Item { file, kind, name, opts } => {
                let r = match &sources[file] { Ok(s) => build_item(s, kind, name, opts), Err(e) => Err(e.clone()) };
                if let Ok(s) = &sources[file] {
                    for t in not_derived(s, name, opts) {
                        entries.push(format!("{{\"kind\":\"fn\",\"name\":{},\"file\":{},\"status\":\"lost\",\"reason\":\"not derived\",\"props\":{}}}",
                            esc(&format!("{} for {}", t, name)), esc(file), esc(&all_props)));
                    }
                }
                match r {
                    Ok(t) => { text.push_str(&sub(t)); }
                    Err(e) => entries.push(format!("{{\"kind\":\"item\",\"name\":{},\"status\":\"lost\",\"reason\":{}}}", esc(name), esc(&e))),
                }
            }
            Part::Fn(f) => {
                if drop.contains(&f.id) {
                    entries.push(format!("{{\"kind\":\"fn\",\"name\":{},\"status\":\"dropped\",\"props\":{}}}", esc(&f.id), esc(&f.props.join(","))));
                    continue;
                }
                let ext = f.external || external.contains(&f.id);
                let mut status = if f.vis { "elsewhere" } else if f.external { "trusted" } else if ext { "external" } else { "proved" };
                let mut reason = String::new();
                let r = match &sources[&f.file] {
                    Err(e) => Err(e.clone()),
                    Ok(s) => build_fn(s, f, ext, None).or_else(|e| {
                        let mut a = vec![];
                        if inlining {
                            if let Ok(t) = build_fn(s, f, ext, Some(&mut a)) {
                                a.dedup();
                                entries.push(format!("{{\"kind\":\"adapted\",\"name\":{},\"reason\":{}}}", esc(&f.id), esc(&a.join("; "))));
                                return Ok(t);
                            }
                        }
                        reason = e;
                        status = "lost";
                        build_fn(s, f, true, None)
                    }),
                };
                match r {
                    Ok(t) => {
                        text.push_str(&sub(t));
                        let l1 = text.lines().count();
                        entries.push(format!("{{\"kind\":\"fn\",\"name\":{},\"file\":{},\"status\":\"{}\",\"reason\":{},\"props\":{},\"first\":{},\"last\":{},\"bare\":{}}}",
                            esc(&f.id), esc(&f.file), status, esc(&reason), esc(&f.props.join(",")), l0, l1,
                            bare.get(&(f.file.clone(), f.name.clone())).copied().unwrap_or(0)));
                    }
                    Err(e) => entries.push(format!("{{\"kind\":\"fn\",\"name\":{},\"file\":{},\"status\":\"dropped\",\"reason\":{},\"props\":{}}}",
                            esc(&f.id), esc(&f.file), esc(&format!("{} {}", reason, e)), esc(&f.props.join(",")))),
                }
            }
        }
        if !text.ends_with('\n') { text.push('\n'); }
    }
    std::fs::write(out, text).unwrap();
    std::fs::write(map, format!("[\n{}\n]\n", entries.join(",\n"))).unwrap();
}
