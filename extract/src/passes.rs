use crate::print::Markers;
use crate::spec::{FnSpec, Unit};
use crate::{FnItem, Res, Sources};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::parse_quote;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};

// ---------------------------------------------------------------- items

fn keep_derives(attrs: &[syn::Attribute], keep: &[&str]) -> Vec<syn::Ident> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Ok(list) = a.parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated) {
                for p in list {
                    if let Some(id) = p.get_ident() {
                        if keep.contains(&id.to_string().as_str()) {
                            v.push(id.clone());
                        }
                    }
                }
            }
        }
    }
    v
}

/// derived Clone is kept for types that are Copy too; for others see `derived_clone`
fn copy_only(d: Vec<syn::Ident>) -> Vec<syn::Ident> {
    if d.iter().any(|x| x == "Copy") {
        d
    } else {
        vec![]
    }
}
/// the derived Clone of a type that is not Copy yields an equal value (assumed)
pub fn derived_clone(before: &syn::Item, after: &syn::Item, u: &Unit) -> String {
    let (attrs, name, generics) = match (before, after) {
        (syn::Item::Struct(b), syn::Item::Struct(a)) => (&b.attrs, &a.ident, &a.generics),
        (syn::Item::Enum(b), syn::Item::Enum(a)) => (&b.attrs, &a.ident, &a.generics),
        _ => return String::new(),
    };
    if !u.opts.contains("derive") || keep_derives(attrs, &["Clone"]).is_empty() || !keep_derives(attrs, &["Copy"]).is_empty() || generics.type_params().next().is_some() {
        return String::new();
    }
    let (i, t, _) = generics.split_for_impl();
    format!(
        "impl {} Clone for {} {} {{ #[verifier::external_body] fn clone(&self) -> (ret: Self) ensures ret == *self {{ unimplemented!() }} }}\n",
        i.to_token_stream(), name, t.to_token_stream()
    )
}
/// derived equality is equality of values: of types made of integers, booleans, characters and such types
fn plain_eq(t: &syn::Type, src: &Sources) -> bool {
    const PRIM: [&str; 14] = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char"];
    match t {
        syn::Type::Path(p) => match p.path.get_ident() {
            Some(i) => PRIM.contains(&i.to_string().as_str()) || src.types.get(&i.to_string()).map_or(false, |it| structural(it, src)),
            None => false,
        },
        _ => false,
    }
}
fn structural(it: &syn::Item, src: &Sources) -> bool {
    let (attrs, generics, fields): (_, _, Vec<&syn::Field>) = match it {
        syn::Item::Enum(e) => (&e.attrs, &e.generics, e.variants.iter().flat_map(|v| v.fields.iter()).collect()),
        syn::Item::Struct(s) => (&s.attrs, &s.generics, s.fields.iter().collect()),
        _ => return false,
    };
    // (a recursive type needs a reference or a box, which is refused)
    generics.params.is_empty() && !keep_derives(attrs, &["PartialEq"]).is_empty() && fields.iter().all(|f| plain_eq(&f.ty, src))
}
pub fn strip_item(it: &mut syn::Item, u: &Unit, src: &Sources) -> Res<()> {
    let same = structural(it, src);
    match it {
        syn::Item::Const(c) => {
            c.attrs.clear();
        }
        syn::Item::Static(c) => {
            c.attrs.clear();
        }
        syn::Item::Struct(s) => {
            let mut d = copy_only(keep_derives(&s.attrs, &["Clone", "Copy"]));
            if same {
                d.push(format_ident!("PartialEq"));
                d.push(format_ident!("Eq"));
                d.push(format_ident!("Structural"));
            }
            s.attrs.clear();
            if !d.is_empty() && u.opts.contains("derive") {
                s.attrs.push(parse_quote!(#[derive(#(#d),*)]));
            }
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
            s.vis = parse_quote!(pub);
            mono_generics(&mut s.generics, u);
        }
        syn::Item::Enum(s) => {
            let mut d = copy_only(keep_derives(&s.attrs, &["Clone", "Copy"]));
            if same {
                d.push(format_ident!("PartialEq"));
                d.push(format_ident!("Eq"));
                d.push(format_ident!("Structural"));
            }
            s.attrs.clear();
            if !d.is_empty() && u.opts.contains("derive") {
                s.attrs.push(parse_quote!(#[derive(#(#d),*)]));
            }
            for v in s.variants.iter_mut() {
                v.attrs.clear();
            }
            s.vis = parse_quote!(pub);
            mono_generics(&mut s.generics, u);
        }
        _ => {}
    }
    Mono { u, params: BTreeSet::new() }.visit_item_mut(it);
    retype(it.to_token_stream(), u).and_then(|t| {
        *it = syn::parse2(t).map_err(|e| e.to_string())?;
        Ok(())
    })
}

/// token-level type replacements from @type lines
pub fn retype(t: proc_macro2::TokenStream, u: &Unit) -> Res<proc_macro2::TokenStream> {
    if u.types.is_empty() {
        return Ok(t);
    }
    let mut pats: Vec<(Vec<String>, proc_macro2::TokenStream)> = vec![];
    for (a, b) in &u.types {
        let pa: proc_macro2::TokenStream = a.parse().map_err(|_| format!("bad @type {}", a))?;
        let pb: proc_macro2::TokenStream = b.parse().map_err(|_| format!("bad @type {}", b))?;
        pats.push((pa.into_iter().map(|x| x.to_string()).collect(), pb));
    }
    fn go(t: proc_macro2::TokenStream, pats: &[(Vec<String>, proc_macro2::TokenStream)]) -> proc_macro2::TokenStream {
        let ts: Vec<proc_macro2::TokenTree> = t.into_iter().collect();
        let strs: Vec<String> = ts.iter().map(|x| x.to_string()).collect();
        let mut out = proc_macro2::TokenStream::new();
        let mut i = 0;
        'o: while i < ts.len() {
            for (p, r) in pats {
                if i + p.len() <= ts.len() && (0..p.len()).all(|k| strs[i + k] == p[k]) {
                    out.extend(r.clone());
                    i += p.len();
                    continue 'o;
                }
            }
            match &ts[i] {
                proc_macro2::TokenTree::Group(g) => {
                    let mut ng = proc_macro2::Group::new(g.delimiter(), go(g.stream(), pats));
                    ng.set_span(g.span());
                    out.extend(std::iter::once(proc_macro2::TokenTree::Group(ng)));
                }
                x => out.extend(std::iter::once(x.clone())),
            }
            i += 1;
        }
        out
    }
    Ok(go(t, &pats))
}

// ---------------------------------------------------------------- monomorphisation

fn mono_generics(g: &mut syn::Generics, u: &Unit) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    if u.mono.is_none() {
        return s;
    }
    let mut params = syn::punctuated::Punctuated::new();
    for p in g.params.iter() {
        match p {
            syn::GenericParam::Type(t) => {
                s.insert(t.ident.to_string());
            }
            x => params.push(x.clone()),
        }
    }
    g.params = params;
    if g.params.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
    if !s.is_empty() {
        g.where_clause = None;
    }
    s
}

struct Mono<'a> {
    u: &'a Unit,
    params: BTreeSet<String>,
}
impl<'a> VisitMut for Mono<'a> {
    fn visit_item_struct_mut(&mut self, s: &mut syn::ItemStruct) {
        // generics were already removed; single capital letter idents in fields are the parameters
        visit_mut::visit_item_struct_mut(self, s);
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let (Some(m), syn::Type::Path(p)) = (&self.u.mono, &*t) {
            if let Some(id) = p.path.get_ident() {
                let s = id.to_string();
                if self.params.contains(&s) || (s.len() == 1 && s.chars().all(|c| c.is_ascii_uppercase()) && (s == "I" || s == "X" || s == "Y" || s == "D")) {
                    let ty: syn::Type = syn::parse_str(m).unwrap();
                    *t = ty;
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(m) = &self.u.mono {
            for seg in p.segments.iter_mut() {
                if let syn::PathArguments::AngleBracketed(ab) = &mut seg.arguments {
                    let keep: Vec<syn::GenericArgument> = ab
                        .args
                        .iter()
                        .filter(|a| a.to_token_stream().to_string() != *m)
                        .cloned()
                        .collect();
                    if keep.is_empty() {
                        seg.arguments = syn::PathArguments::None;
                    } else {
                        ab.args = keep.into_iter().collect();
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- macros, logging

/// Logging macros are dropped; the sub-expressions of their `format!` arguments are still evaluated.
struct Logs {
    err: Option<String>,
}

fn is_log_path(p: &syn::Path) -> bool {
    let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let last = s.last().map(|x| x.as_str()).unwrap_or("");
    (s.len() >= 1 && s[0] == "tracing") || ["println", "eprintln", "print", "eprint", "dbg"].contains(&last)
}

fn log_args(ts: proc_macro2::TokenStream) -> Vec<syn::Expr> {
    // split on top-level commas; each piece is [%?]expr | name = expr | "literal"
    let mut pieces: Vec<proc_macro2::TokenStream> = vec![Default::default()];
    for t in ts {
        if let proc_macro2::TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                pieces.push(Default::default());
                continue;
            }
        }
        pieces.last_mut().unwrap().extend(std::iter::once(t));
    }
    let mut out = vec![];
    for p in pieces {
        let v: Vec<_> = p.into_iter().collect();
        let mut i = 0;
        // name =
        if v.len() > 2 {
            if let (proc_macro2::TokenTree::Ident(_), proc_macro2::TokenTree::Punct(e)) = (&v[0], &v[1]) {
                if e.as_char() == '=' && e.spacing() == proc_macro2::Spacing::Alone {
                    i = 2;
                }
            }
        }
        while let Some(proc_macro2::TokenTree::Punct(q)) = v.get(i) {
            if q.as_char() == '?' || q.as_char() == '%' {
                i += 1
            } else {
                break;
            }
        }
        let rest: proc_macro2::TokenStream = v[i..].iter().cloned().collect();
        if let Ok(e) = syn::parse2::<syn::Expr>(rest) {
            out.push(e);
        }
    }
    out
}

/// keep only the parts of a logged expression whose evaluation could fail
fn risky(e: &syn::Expr, out: &mut Vec<syn::Expr>) {
    match e {
        syn::Expr::Lit(_) | syn::Expr::Path(_) | syn::Expr::Field(_) => {}
        syn::Expr::Reference(r) => risky(&r.expr, out),
        syn::Expr::Paren(r) => risky(&r.expr, out),
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => risky(&u.expr, out),
        syn::Expr::Macro(m) if m.mac.path.is_ident("format") || m.mac.path.is_ident("format_args") => {
            for a in log_args(m.mac.tokens.clone()) {
                risky(&a, out);
            }
        }
        syn::Expr::MethodCall(m) => {
            risky(&m.receiver, out);
            let total = ["as_str", "len", "to_string", "clone", "as_bytes", "borrow", "is_empty"];
            if !total.contains(&m.method.to_string().as_str()) {
                out.push(e.clone());
            }
        }
        syn::Expr::Call(c) => {
            let s = c.func.to_token_stream().to_string().replace(' ', "");
            if s == "String::from_utf8_lossy" || s.ends_with("StrOrByteSlice::Bytes") {
                for a in &c.args {
                    risky(a, out);
                }
            } else {
                out.push(e.clone());
            }
        }
        _ => out.push(e.clone()),
    }
}

impl VisitMut for Logs {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut stmts = vec![];
        for s in b.stmts.drain(..) {
            let mac = match &s {
                syn::Stmt::Macro(m) => Some(m.mac.clone()),
                syn::Stmt::Expr(syn::Expr::Macro(m), _) => Some(m.mac.clone()),
                _ => None,
            };
            if let Some(m) = mac {
                if is_log_path(&m.path) {
                    let mut r = vec![];
                    for a in log_args(m.tokens.clone()) {
                        risky(&a, &mut r);
                    }
                    for e in r {
                        stmts.push(parse_quote!(let _ = #e;));
                    }
                    continue;
                }
            }
            if is_noop(&s) {
                continue;
            }
            stmts.push(s);
        }
        b.stmts = stmts;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if is_log_path(&m.mac.path) && name != "dbg" {
                let mut r = vec![];
                for a in log_args(m.mac.tokens.clone()) {
                    risky(&a, &mut r);
                }
                *e = if r.is_empty() { parse_quote!(()) } else { parse_quote!({ #(let _ = #r;)* }) };
                return visit_mut::visit_expr_mut(self, e);
            }
            match name.as_str() {
                "matches" => {
                    if let Some(x) = expand_matches(&m.mac) {
                        *e = x;
                    } else {
                        self.err = Some("matches! not understood".into());
                    }
                }
                "assert" | "debug_assert" => {
                    if let Some(c) = log_args(m.mac.tokens.clone()).into_iter().next() {
                        *e = parse_quote!(if !(#c) { vpanic() });
                    }
                }
                "panic" | "unreachable" | "todo" | "unimplemented" => *e = parse_quote!(vpanic()),
                "debug_assert_eq" | "assert_eq" => {
                    let a = log_args(m.mac.tokens.clone());
                    if a.len() >= 2 {
                        let (x, y) = (&a[0], &a[1]);
                        *e = parse_quote!(if !(#x == #y) { vpanic() });
                    }
                }
                _ => {}
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if let syn::Stmt::Macro(m) = s {
            if m.mac.path.segments.last().map(|x| x.ident != "__m").unwrap_or(true) {
                let semi = m.semi_token;
                let em = syn::ExprMacro { attrs: vec![], mac: m.mac.clone() };
                *s = syn::Stmt::Expr(syn::Expr::Macro(em), Some(semi.unwrap_or_default()));
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// matches!(x, p if g) is match x { p if g => true, _ => false }
fn expand_matches(m: &syn::Macro) -> Option<syn::Expr> {
    let (x, p, g) = m
        .parse_body_with(|i: syn::parse::ParseStream| {
            let x: syn::Expr = i.parse()?;
            i.parse::<syn::Token![,]>()?;
            let p = syn::Pat::parse_multi_with_leading_vert(i)?;
            let g: Option<syn::Expr> = if i.peek(syn::Token![if]) {
                i.parse::<syn::Token![if]>()?;
                Some(i.parse()?)
            } else {
                None
            };
            let _ = i.parse::<Option<syn::Token![,]>>()?;
            Ok((x, p, g))
        })
        .ok()?;
    Some(match g {
        None => parse_quote!(match #x { #p => true, _ => false }),
        Some(g) => parse_quote!(match #x { #p if #g => true, _ => false }),
    })
}
/// the above, before anything else looks at what is in there
pub struct Matches;
/// b"ab" is &[97u8, 98u8], which means something to the verifier
pub struct Bytes;
impl VisitMut for Bytes {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) = e {
            let v = b.value();
            if !v.is_empty() {
                *e = parse_quote!((&[#(#v),*]));
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, _: &mut syn::Pat) {}
}
impl VisitMut for Matches {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            if m.mac.path.is_ident("matches") {
                if let Some(x) = expand_matches(&m.mac) {
                    *e = x;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = in_range(e) {
            *e = x;
        }
        // b.then(|| x)
        if let syn::Expr::MethodCall(m) = e {
            if let ("then", Some(syn::Expr::Closure(c)), 1) = (m.method.to_string().as_str(), m.args.first(), m.args.len()) {
                if c.inputs.is_empty() {
                    let (r, b) = (&m.receiver, &c.body);
                    *e = parse_quote!((if #r { Some(#b) } else { None }));
                }
            }
        }
    }
}

/// (a..=b).contains(&x), of a variable or a literal, is a <= x && x <= b
fn in_range(e: &syn::Expr) -> Option<syn::Expr> {
    let syn::Expr::MethodCall(m) = e else { return None };
    if m.method != "contains" || m.args.len() != 1 {
        return None;
    }
    let syn::Expr::Range(r) = unparen(&m.receiver) else { return None };
    fn plain(e: &syn::Expr) -> bool {
        match unparen(e) {
            syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
            syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && plain(&u.expr),
            _ => false,
        }
    }
    let x: syn::Expr = match unparen(&m.args[0]) {
        syn::Expr::Reference(x) => (*x.expr).clone(),
        syn::Expr::Path(x) => parse_quote!((*#x)),
        _ => return None,
    };
    let ends: Vec<&syn::Expr> = r.start.iter().chain(r.end.iter()).map(|b| &**b).collect();
    if !plain(&x) || !ends.iter().all(|e| plain(e)) {
        return None;
    }
    let low: Option<syn::Expr> = r.start.as_ref().map(|a| parse_quote!(#a <= #x));
    let high: Option<syn::Expr> = r.end.as_ref().map(|b| match r.limits {
        syn::RangeLimits::HalfOpen(_) => parse_quote!(#x < #b),
        syn::RangeLimits::Closed(_) => parse_quote!(#x <= #b),
    });
    match (low, high) {
        (Some(a), Some(b)) => Some(parse_quote!((#a && #b))),
        (Some(a), None) | (None, Some(a)) => Some(parse_quote!((#a))),
        _ => None,
    }
}

/// statements without any effect
fn is_noop(s: &syn::Stmt) -> bool {
    fn pure(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Lit(_) => true,
            syn::Expr::Tuple(t) => t.elems.iter().all(pure),
            syn::Expr::Paren(p) => pure(&p.expr),
            syn::Expr::Reference(p) => pure(&p.expr),
            syn::Expr::Block(b) => b.block.stmts.iter().all(is_noop) || b.block.stmts.is_empty(),
            syn::Expr::Path(p) => p.path.get_ident().is_some(),
            syn::Expr::Call(c) => {
                let s = c.func.to_token_stream().to_string().replace(' ', "");
                (s.ends_with("black_box") || s.ends_with("drop") || s.ends_with("identity")) && c.args.iter().all(|a| !matches!(a, syn::Expr::Path(_)) && pure(a))
            }
            syn::Expr::If(i) => matches!(&*i.cond, syn::Expr::Lit(_)) && i.then_branch.stmts.is_empty() && i.else_branch.is_none(),
            _ => false,
        }
    }
    match s {
        syn::Stmt::Expr(e, Some(_)) => pure(e),
        syn::Stmt::Local(l) => match (&l.pat, &l.init) {
            (syn::Pat::Wild(_), Some(i)) => pure(&i.expr) && !matches!(&*i.expr, syn::Expr::Path(_)),
            _ => false,
        },
        _ => false,
    }
}

// ---------------------------------------------------------------- inlining of helpers without a contract

struct Has {
    ret: bool,
    try_: bool,
}
impl<'a> Visit<'a> for Has {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) {
        self.try_ = true;
        syn::visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

struct SelfSubst {
    with: syn::Expr,
}
impl VisitMut for SelfSubst {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.with.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `Self` of a helper, where it is used from elsewhere
struct SelfType {
    with: syn::Ident,
}
impl VisitMut for SelfType {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.leading_colon.is_none() && p.segments.first().map_or(false, |s| s.ident == "Self") {
            p.segments[0].ident = self.with.clone();
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// every name a function binds, its parameters included
struct Binds(BTreeSet<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}

/// the parameters whose type is a named one, or a reference to it
fn typed_params(sig: &syn::Signature) -> std::collections::BTreeMap<String, String> {
    fn named(t: &syn::Type) -> Option<String> {
        match t {
            syn::Type::Reference(r) => named(&r.elem),
            syn::Type::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
            _ => None,
        }
    }
    let mut out = std::collections::BTreeMap::new();
    for a in &sig.inputs {
        if let syn::FnArg::Typed(t) = a {
            if let (syn::Pat::Ident(p), Some(n)) = (&*t.pat, named(&t.ty)) {
                out.insert(p.ident.to_string(), n);
            }
        }
    }
    out
}

struct Inline<'a> {
    src: &'a Sources,
    locals: std::collections::BTreeMap<String, String>,
    contracted: &'a BTreeSet<String>,
    shims: BTreeSet<String>,
    self_ty: Option<String>,
    n: usize,
    nom: bool,
    err: Option<String>,
    stack: Vec<String>,
}

fn simple_recv(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(p) => p.path.is_ident("self"),
        syn::Expr::Field(f) => simple_recv(&f.base),
        syn::Expr::Paren(p) => simple_recv(&p.expr),
        _ => false,
    }
}

impl<'a> Inline<'a> {
    fn target(&self, e: &syn::Expr) -> Option<(FnItem, Option<syn::Expr>, Vec<syn::Expr>)> {
        match e {
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if self.shims.contains(&name) {
                    return None;
                }
                let suffix = format!("::{}", name);
                if self.contracted.iter().any(|c| c.ends_with(&suffix)) {
                    return None;
                }
                let c: Vec<&FnItem> = self
                    .src
                    .fns
                    .values()
                    .filter(|f| f.trait_name.is_none() && f.self_ty.is_some() && f.sig.ident == name && f.sig.receiver().is_some())
                    .collect();
                if c.len() != 1 {
                    return None;
                }
                // a value that is not of that type has a method of its own by that name
                if let (syn::Expr::Path(p), syn::Type::Path(t)) = (&*m.receiver, &*c[0].self_ty.as_ref()?.self_ty) {
                    if let (Some(i), Some(t)) = (p.path.get_ident(), t.path.segments.last()) {
                        if self.locals.get(&i.to_string()).map_or(false, |l| t.ident != l) {
                            return None;
                        }
                    }
                }
                Some((c[0].clone(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let key = match segs.len() {
                        1 => segs[0].clone(),
                        2 if segs[0] == "Self" => format!("{}::{}", self.self_ty.clone().unwrap_or_default(), segs[1]),
                        2 if segs[0] == "self" || segs[0] == "super" || segs[0] == "crate" => segs[1].clone(),
                        2 => format!("{}::{}", segs[0], segs[1]),
                        n if ["self", "super", "crate"].contains(&&*segs[0]) => segs[n - 1].clone(),
                        _ => return None,
                    };
                    if self.shims.contains(&key) || self.contracted.contains(&key) {
                        return None;
                    }
                    let f = self.src.fns.get(&key)?.clone();
                    let mut args: Vec<syn::Expr> = c.args.iter().cloned().collect();
                    if f.sig.receiver().is_some() {
                        if args.is_empty() {
                            return None;
                        }
                        let r = args.remove(0);
                        let r = match r {
                            syn::Expr::Reference(r) => *r.expr,
                            x => x,
                        };
                        return Some((f, Some(r), args));
                    }
                    return Some((f, None, args));
                }
                None
            }
            _ => None,
        }
    }

    fn expand(&mut self, e: &syn::Expr, allow_try: bool, allow_ret: bool) -> Option<syn::Expr> {
        let (f, recv, args) = self.target(e)?;
        if self.stack.contains(&f.key) || self.stack.len() > 6 {
            self.err = Some(format!("recursive helper {}", f.key));
            return None;
        }
        let mut h = Has { ret: false, try_: false };
        h.visit_block(&f.block);
        let mut level = None;
        if (h.ret && !allow_ret) || (h.try_ && !(allow_try || allow_ret)) {
            level = crate::straight::Straight::new(crate::straight::kind_of(&f.sig.output, self.nom)).block(&f.block);
        }
        if level.is_none() && ((h.ret && !allow_ret) || (h.try_ && !(allow_try || allow_ret))) || f.sig.asyncness.is_some() {
            self.err = Some(format!("helper {} has no contract and cannot be inlined (early return)", f.key));
            return None;
        }
        if let Some(e) = self.src.bad.get(&f.key) {
            self.err = Some(e.clone());
            return None;
        }
        let mut block = level.unwrap_or_else(|| f.block.clone());
        if let Some(r) = &recv {
            // a parameter of that very type, not shadowed in there
            let param = match (r, f.self_ty.as_ref().map(|h| &*h.self_ty)) {
                (syn::Expr::Path(p), Some(syn::Type::Path(t))) => p.path.get_ident().map_or(false, |i| {
                    let mut b = Binds(Default::default());
                    b.visit_signature(&f.sig);
                    b.visit_block(&f.block);
                    !b.0.contains(&i.to_string()) && self.locals.get(&i.to_string()).map_or(false, |l| t.path.segments.last().map_or(false, |s| s.ident == l))
                }),
                _ => false,
            };
            if !simple_recv(r) && !param {
                self.err = Some(format!("helper {} has no contract and its receiver is not a field path", f.key));
                return None;
            }
            SelfSubst { with: r.clone() }.visit_block_mut(&mut block);
        }
        let generic = f.sig.generics.params.iter().any(|p| matches!(p, syn::GenericParam::Type(_) | syn::GenericParam::Const(_)));
        let mut outer: Vec<syn::Stmt> = vec![];
        let mut inner: Vec<syn::Stmt> = vec![];
        let mut it = args.iter();
        for a in &f.sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                let arg = it.next()?;
                self.n += 1;
                let tmp = format_ident!("__h{}", self.n);
                let pat = &t.pat;
                let ty = &t.ty;
                let implty = matches!(**ty, syn::Type::ImplTrait(_));
                let lent = matches!(&**ty, syn::Type::Reference(r) if r.mutability.is_some());
                if lent && matches!(arg, syn::Expr::Path(_)) {
                    outer.push(parse_quote!(let #tmp = &mut *#arg;));
                } else {
                    outer.push(parse_quote!(let #tmp = #arg;));
                }
                if generic || implty {
                    inner.push(parse_quote!(let #pat = #tmp;));
                } else {
                    let mut ty = ty.clone();
                    struct NoLt;
                    impl VisitMut for NoLt {
                        fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
                            r.lifetime = None;
                            visit_mut::visit_type_reference_mut(self, r);
                        }
                    }
                    NoLt.visit_type_mut(&mut ty);
                    inner.push(parse_quote!(let #pat: #ty = #tmp;));
                }
            }
        }
        // single-assignment parameters bound directly when the argument is the identical identifier
        let stmts = &block.stmts;
        self.stack.push(f.key.clone());
        let old = self.self_ty.clone();
        if let Some(h) = &f.self_ty {
            if let syn::Type::Path(p) = &*h.self_ty {
                self.self_ty = p.path.segments.last().map(|s| s.ident.to_string());
            }
        }
        let mut ex: syn::Expr = parse_quote!({ #(#outer)* #(#inner)* #(#stmts)* });
        if let (Some(t), true) = (&self.self_ty, self.self_ty != old) {
            SelfType { with: format_ident!("{}", t) }.visit_expr_mut(&mut ex);
        }
        let mut locals = self.locals.clone();
        locals.extend(typed_params(&f.sig));
        let locals = std::mem::replace(&mut self.locals, locals);
        self.visit_expr_mut(&mut ex);
        self.locals = locals;
        self.self_ty = old;
        self.stack.pop();
        Some(ex)
    }
}

impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Try(t) = e {
            if self.target(&t.expr).is_some() {
                if let Some(x) = self.expand(&t.expr, true, false) {
                    *t.expr = x;
                    return;
                }
            }
        }
        if let syn::Expr::Return(r) = e {
            if let Some(inner) = &r.expr {
                if self.target(inner).is_some() {
                    if let Some(x) = self.expand(inner, true, true) {
                        r.expr = Some(Box::new(x));
                        return;
                    }
                }
            }
        }
        if self.target(e).is_some() {
            if let Some(x) = self.expand(e, false, false) {
                *e = x;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- for loops

struct ForLoops {
    left: Vec<(String, String)>, // contract name, items still to come
    n: usize,
    anys: usize,
    err: Option<String>,
}

fn unparen(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => unparen(&p.expr),
        syn::Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

/// how to step through an iterator expression:
/// (setup statements, loop condition, statements binding the item and advancing, item expression)
struct Iter {
    setup: Vec<syn::Stmt>,
    cond: syn::Expr,
    step: Vec<syn::Stmt>,
    item: syn::Expr,
}

fn simple_place(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().is_some(),
        syn::Expr::Field(f) => simple_place(&f.base),
        syn::Expr::Paren(p) => simple_place(&p.expr),
        _ => false,
    }
}

/// a bound that names a constant or is a number stands for itself
fn constant(e: &syn::Expr) -> Option<syn::Expr> {
    match unparen(e) {
        syn::Expr::Lit(l) => Some(syn::Expr::Lit(l.clone())),
        syn::Expr::Path(p) => {
            let i = p.path.get_ident()?.to_string();
            if i.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') { Some(syn::Expr::Path(p.clone())) } else { None }
        }
        _ => None,
    }
}

struct DerefIndex {
    x: String,
    with: syn::Expr,
    left: bool,
}
impl VisitMut for DerefIndex {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) {
                if let syn::Expr::Path(p) = unparen(&u.expr) {
                    if p.path.is_ident(&self.x) {
                        *e = self.with.clone();
                        return;
                    }
                }
            }
        }
        if let syn::Expr::Path(p) = e {
            if p.path.is_ident(&self.x) {
                self.left = true;
            }
        }
        if let syn::Expr::Macro(m) = e {
            if m.mac.tokens.to_string().contains(&self.x) {
                self.left = true;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl ForLoops {
    fn iter(&mut self, e: &syn::Expr) -> Res<Iter> {
        let e = unparen(e).clone();
        self.n += 1;
        let i = format_ident!("__i{}", self.n);
        let end = format_ident!("__end{}", self.n);
        let cur = format_ident!("__c{}", self.n);
        match &e {
            syn::Expr::Range(r) => {
                let lo = r.start.as_ref().ok_or("range without start")?;
                let stop = r.end.as_ref().and_then(|e| constant(e)).unwrap_or_else(|| parse_quote!(#end));
                match (&r.end, &r.limits) {
                    (Some(_), syn::RangeLimits::HalfOpen(_)) => self.left.push((format!("__left{}", self.n), format!("({} - {})", stop.to_token_stream(), i))),
                    (Some(_), syn::RangeLimits::Closed(_)) => self.left.push((format!("__left{}", self.n), format!("({} - {} + 1)", stop.to_token_stream(), i))),
                    _ => {}
                }
                match (&r.end, &r.limits) {
                    (Some(hi), syn::RangeLimits::HalfOpen(_)) => Ok(Iter {
                        setup: vec![parse_quote!(let mut #i = #lo;), parse_quote!(let #end = #hi;)],
                        cond: parse_quote!(#i < #stop),
                        step: vec![parse_quote!(let #cur = #i;), parse_quote!(#i = #i + 1;)],
                        item: parse_quote!(#cur),
                    }),
                    (Some(hi), syn::RangeLimits::Closed(_)) => Ok(Iter {
                        setup: vec![parse_quote!(let mut #i = #lo;), parse_quote!(let #end = #hi;)],
                        cond: parse_quote!(#i <= #stop),
                        step: vec![parse_quote!(let #cur = #i;), parse_quote!(#i = #i + 1;)],
                        item: parse_quote!(#cur),
                    }),
                    (None, _) => Ok(Iter {
                        setup: vec![parse_quote!(let mut #i = #lo;)],
                        cond: parse_quote!(true),
                        step: vec![parse_quote!(let #cur = #i;), parse_quote!(#i = #i + 1;)],
                        item: parse_quote!(#cur),
                    }),
                }
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "into_iter" => self.iter(&m.receiver),
                    "step_by" => {
                        let k = m.args.first().ok_or("step_by")?;
                        if let syn::Expr::Range(r) = unparen(&m.receiver) {
                            if let (Some(lo), None) = (&r.start, &r.end) {
                                // endless stepping: the advance is wrapping, as the last advance may run past what is used
                                return Ok(Iter {
                                    setup: vec![parse_quote!(let mut #i = #lo;)],
                                    cond: parse_quote!(true),
                                    step: vec![parse_quote!(let #cur = #i;), parse_quote!(#i = #i + #k;)],
                                    item: parse_quote!(#cur),
                                });
                            }
                            if let (Some(lo), Some(hi), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                                return Ok(Iter {
                                    setup: vec![parse_quote!(let mut #i = #lo;), parse_quote!(let #end = #hi;)],
                                    cond: parse_quote!(#i < #end),
                                    step: vec![parse_quote!(let #cur = #i;), parse_quote!(#i = #i + #k;)],
                                    item: parse_quote!(#cur),
                                });
                            }
                        }
                        Err("step_by on something else than a range".into())
                    }
                    "zip" => {
                        let a = self.iter(&m.receiver)?;
                        let b = self.iter(m.args.first().ok_or("zip")?)?;
                        let (ca, cb) = (&a.cond, &b.cond);
                        let cond = if cb.to_token_stream().to_string() == "true" {
                            ca.clone()
                        } else if ca.to_token_stream().to_string() == "true" {
                            cb.clone()
                        } else {
                            parse_quote!(#ca && #cb)
                        };
                        let (ia, ib) = (&a.item, &b.item);
                        let item = parse_quote!((#ia, #ib));
                        let mut setup = a.setup;
                        setup.extend(b.setup);
                        let mut step = a.step;
                        step.extend(b.step);
                        Ok(Iter { setup, cond, step, item })
                    }
                    "enumerate" => {
                        let a = self.iter(&m.receiver)?;
                        self.n += 1;
                        let i = format_ident!("__i{}", self.n);
                        let cur = format_ident!("__c{}", self.n);
                        let ia = &a.item;
                        let item = parse_quote!((#cur, #ia));
                        let mut setup = a.setup;
                        setup.push(parse_quote!(let mut #i: usize = 0;));
                        let mut step = a.step;
                        step.push(parse_quote!(let #cur = #i;));
                        step.push(parse_quote!(#i = #i + 1;));
                        Ok(Iter { setup, cond: a.cond, step, item })
                    }
                    "rev" => {
                        if let syn::Expr::Range(r) = unparen(&m.receiver) {
                            let lo = r.start.as_ref().ok_or("range without start")?;
                            let hi = r.end.as_ref().ok_or("range without end")?;
                            let stop = constant(lo).unwrap_or_else(|| parse_quote!(#end));
                            let one = if matches!(r.limits, syn::RangeLimits::Closed(_)) { " + 1" } else { "" };
                            self.left.push((format!("__left{}", self.n), format!("({} - {}{})", i, stop.to_token_stream(), one)));
                            return Ok(match r.limits {
                                syn::RangeLimits::HalfOpen(_) => Iter {
                                    setup: vec![parse_quote!(let #end = #lo;), parse_quote!(let mut #i = #hi;)],
                                    cond: parse_quote!(#i > #stop),
                                    step: vec![parse_quote!(#i = #i - 1;)],
                                    item: parse_quote!(#i),
                                },
                                // one past the end would overflow only at the maximum, where the real loop is fine; Verus then asks
                                syn::RangeLimits::Closed(_) => Iter {
                                    setup: vec![parse_quote!(let #end = #lo;), parse_quote!(let mut #i = #hi;)],
                                    cond: parse_quote!(#i >= #stop),
                                    step: vec![parse_quote!(let #cur = #i;), parse_quote!(#i = #i - 1;)],
                                    item: parse_quote!(#cur),
                                },
                            });
                        }
                        Err("rev on something else than a range".into())
                    }
                    "take" => {
                        self.n -= 1;
                        let mut a = self.iter(&m.receiver)?;
                        let (t, most) = (format_ident!("__taken{}", self.n), format_ident!("__most{}", self.n));
                        let k = m.args.first().ok_or("take")?;
                        a.setup.push(parse_quote!(let #most: usize = #k;));
                        a.setup.push(parse_quote!(let mut #t: usize = 0;));
                        a.step.push(parse_quote!(#t = #t + 1;));
                        let c = &a.cond;
                        a.cond = if c.to_token_stream().to_string() == "true" { parse_quote!(#t < #most) } else { parse_quote!(#c && #t < #most) };
                        Ok(a)
                    }
                    "skip" => {
                        let mut a = match unparen(&m.receiver) {
                            syn::Expr::MethodCall(n) if n.method == "iter" && n.args.is_empty() => {
                                let x = &n.receiver;
                                self.slice(parse_quote!(#x))?
                            }
                            _ => return Err("skip on something else than a slice".into()),
                        };
                        let k = m.args.first().ok_or("skip")?;
                        let i = format_ident!("__i{}", self.n);
                        a.setup[0] = parse_quote!(let mut #i: usize = #k;);
                        Ok(a)
                    }
                    "copied" | "cloned" => {
                        let mut a = self.iter(&m.receiver)?;
                        let ia = &a.item;
                        a.item = parse_quote!((*#ia));
                        Ok(a)
                    }
                    "iter" => {
                        let x = &m.receiver;
                        self.slice(parse_quote!(#x))
                    }
                    _ => Err(format!("iterator adapter {} not handled", name)),
                }
            }
            syn::Expr::Reference(r) if r.mutability.is_none() => {
                let x = &r.expr;
                self.slice(parse_quote!(#x))
            }
            // by value: the items are copied out (an item type without Copy does not compile)
            syn::Expr::Path(p) if p.path.get_ident().is_some() => {
                let mut a = self.slice(parse_quote!(#p))?;
                let ia = &a.item;
                a.item = parse_quote!((*#ia));
                Ok(a)
            }
            _ => Err(format!("loop over {} not handled", e.to_token_stream())),
        }
    }
    fn slice(&mut self, x: syn::Expr) -> Res<Iter> {
        let i = format_ident!("__i{}", self.n);
        let cur = format_ident!("__c{}", self.n);
        Ok(Iter {
            setup: vec![parse_quote!(let mut #i: usize = 0;)],
            cond: parse_quote!(#i < #x.len()),
            step: vec![parse_quote!(let #cur = &#x[#i];), parse_quote!(#i = #i + 1;)],
            item: parse_quote!(#cur),
        })
    }
    /// for x in &mut xs: x is only ever used as *x, which is xs[i]
    fn by_mut(&mut self, f: &syn::ExprForLoop, xs: &syn::Expr) -> Res<syn::Expr> {
        let x = match &*f.pat {
            syn::Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => p.ident.clone(),
            _ => return Err("pattern of a loop over a mutable reference".into()),
        };
        if !simple_place(xs) {
            return Err("loop over a mutable reference to an expression".into());
        }
        self.n += 1;
        let i = format_ident!("__i{}", self.n);
        let cur = format_ident!("__c{}", self.n);
        let mut body = f.body.clone();
        let mut d = DerefIndex { x: x.to_string(), with: parse_quote!(#xs[#cur]), left: false };
        d.visit_block_mut(&mut body);
        if d.left {
            return Err("loop variable over a mutable reference used as more than the place it refers to".into());
        }
        let stmts = &body.stmts;
        let label = &f.label;
        Ok(parse_quote!({ let mut #i: usize = 0; #label while #i < #xs.len() { let #cur = #i; #i = #i + 1; #(#stmts)* } }))
    }
    /// other ways to say any: a position or an item found, a character of a text found
    fn decided(&mut self, m: &syn::ExprMethodCall) -> Option<syn::Expr> {
        if !m.args.is_empty() {
            return None;
        }
        let some = match m.method.to_string().as_str() {
            "is_some" => true,
            "is_none" => false,
            _ => return None,
        };
        let syn::Expr::MethodCall(n) = unparen(&m.receiver) else { return None };
        let (Some(syn::Expr::Closure(c)), 1) = (n.args.first(), n.args.len()) else { return None };
        let x = match n.method.to_string().as_str() {
            "position" => self.any(&n.receiver, c, true)?,
            "find" => {
                // of a text: the parameter is a character by its type
                if !matches!(c.inputs.first(), Some(syn::Pat::Type(t)) if t.ty.to_token_stream().to_string() == "char") {
                    return None;
                }
                let r = &n.receiver;
                self.any(&parse_quote!(#r.chars()), c, true)?
            }
            _ => return None,
        };
        Some(if some { x } else { parse_quote!(!#x) })
    }
    /// items.any(|p| test) and items.all(|p| test), of a slice or the bytes or characters of a text: a loop that stops
    /// at the first item that decides; names do not depend on how the items are written
    fn any(&mut self, r: &syn::Expr, c: &syn::ExprClosure, any: bool) -> Option<syn::Expr> {
        let syn::Expr::MethodCall(m) = unparen(r) else { return None };
        if !m.args.is_empty() || c.inputs.len() != 1 {
            return None;
        }
        let (base, byval): (syn::Expr, bool) = match m.method.to_string().as_str() {
            "copied" | "cloned" => match unparen(&m.receiver) {
                syn::Expr::MethodCall(n) if n.method == "iter" && n.args.is_empty() => ((*n.receiver).clone(), true),
                _ => return None,
            },
            "iter" => ((*m.receiver).clone(), false),
            "bytes" => {
                let x = &m.receiver;
                (parse_quote!(#x.as_bytes()), true)
            }
            "chars" => {
                let x = &m.receiver;
                (parse_quote!(chars_of(#x)), true)
            }
            _ => return None,
        };
        let base: syn::Expr = if simple_place(&base) { parse_quote!(&#base) } else { base };
        self.anys += 1;
        let k = self.anys;
        let (b, i, f) = (format_ident!("__ab{}", k), format_ident!("__ai{}", k), format_ident!("__any{}", k));
        let mut pat = match &c.inputs[0] {
            syn::Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        };
        let mut item: syn::Expr = if byval { parse_quote!(#b[#i]) } else { parse_quote!(&#b[#i]) };
        if let (syn::Pat::Reference(p), false) = (&pat, byval) {
            item = parse_quote!(#b[#i]);
            pat = (*p.pat).clone();
        }
        // all items pass: there is none that does not
        let body = if any { (*c.body).clone() } else { not(&c.body) };
        let result: syn::Expr = if any { parse_quote!(#f) } else { parse_quote!(!#f) };
        Some(parse_quote!({
            let #b = #base;
            let mut #i: usize = 0;
            let mut #f = false;
            while #i < #b.len() && !#f {
                let #pat = #item;
                #f = #body;
                #i = #i + 1;
            }
            #result
        }))
    }
    fn desugar(&mut self, f: &syn::ExprForLoop) -> Res<syn::Expr> {
        if let syn::Expr::MethodCall(m) = unparen(&f.expr) {
            if m.method == "into_iter" && m.args.is_empty() && matches!(unparen(&m.receiver), syn::Expr::Path(_)) {
                let mut f = f.clone();
                f.expr = Box::new(unparen(&m.receiver).clone());
                return self.desugar(&f);
            }
        }
        match unparen(&f.expr) {
            syn::Expr::Reference(r) if r.mutability.is_some() => return self.by_mut(f, &r.expr),
            syn::Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => return self.by_mut(f, &m.receiver),
            _ => {}
        }
        let it = self.iter(&f.expr)?;
        let pat = &f.pat;
        let body = &f.body.stmts;
        let (setup, cond, step, item) = (&it.setup, &it.cond, &it.step, &it.item);
        let label = &f.label;
        Ok(parse_quote!({ #(#setup)* #label while #cond { #(#step)* let #pat = #item; #(#body)* } }))
    }
}

impl VisitMut for ForLoops {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // for p in x.to_le_bytes(): the bytes have a name first
        if let syn::Expr::ForLoop(f) = e {
            let x = match unparen(&f.expr) {
                syn::Expr::MethodCall(m) if (m.method == "into_iter" || m.method == "iter") && m.args.is_empty() => unparen(&m.receiver).clone(),
                x => x.clone(),
            };
            if f.label.is_none() && matches!(&x, syn::Expr::MethodCall(m) if m.args.is_empty() && (m.method == "to_le_bytes" || m.method == "to_be_bytes")) {
                let byref = matches!(unparen(&f.expr), syn::Expr::MethodCall(m) if m.method == "iter");
                let parts = Chain { base: x, adapters: vec![if byref { "iter" } else { "into_iter" }.to_string()], limit: vec![] };
                let l = nest(&parts, &f.pat, f.body.clone());
                *e = parse_quote!({ #l });
            }
        }
        if let syn::Expr::ForLoop(f) = e {
            match self.desugar(f) {
                Ok(x) => *e = x,
                Err(m) => {
                    self.err.get_or_insert(m);
                    return;
                }
            }
        }
        // chain.for_each(|p| body)
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "for_each" {
                if let Some(syn::Expr::Closure(c)) = m.args.first() {
                    let pat = match c.inputs.first() {
                        Some(syn::Pat::Type(t)) => (*t.pat).clone(),
                        Some(p) => p.clone(),
                        None => parse_quote!(_),
                    };
                    let body = &c.body;
                    if let Ok(parts) = chain(&m.receiver) {
                        let l = nest(&parts, &pat, parse_quote!({ #body; }));
                        *e = parse_quote!({ #l });
                    }
                }
            } else if m.method == "any" || m.method == "all" {
                if let (Some(syn::Expr::Closure(c)), 1) = (m.args.first(), m.args.len()) {
                    if let Some(x) = self.any(&m.receiver, c, m.method == "any") {
                        *e = x;
                    }
                } else if let (Some(syn::Expr::Path(p)), 1) = (m.args.first(), m.args.len()) {
                    // any(u8::is_ascii_lowercase), of references
                    let last = p.path.segments.last().unwrap().ident.clone();
                    let refs = matches!(unparen(&m.receiver), syn::Expr::MethodCall(n) if n.method == "iter");
                    if refs && p.path.segments.len() == 2 && last.to_string().starts_with("is_ascii") {
                        let c: syn::ExprClosure = parse_quote!(|__item| __item.#last());
                        if let Some(x) = self.any(&m.receiver, &c, m.method == "any") {
                            *e = x;
                        }
                    }
                }
            } else if m.method == "is_some" || m.method == "is_none" {
                if let Some(x) = self.decided(&m.clone()) {
                    *e = x;
                }
            } else if m.method == "fold" {
                if let (Some(init), Some(syn::Expr::Closure(c))) = (m.args.first(), m.args.iter().nth(1)) {
                    if let (Some(a), Some(b), Ok(parts)) = (c.inputs.first(), c.inputs.iter().nth(1), chain(&m.receiver)) {
                        self.n += 1;
                        let acc = format_ident!("__acc{}", self.n);
                        let body = &c.body;
                        let inner: syn::Block = parse_quote!({ let #a = #acc; #acc = #body; });
                        let l = nest(&parts, b, inner);
                        *e = parse_quote!({ let mut #acc = #init; #l #acc });
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn not(e: &syn::Expr) -> syn::Expr {
    match unparen(e) {
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => (*u.expr).clone(),
        e => parse_quote!(!(#e)),
    }
}

/// base expression and the number of flatten levels; items are bytes by value at the end
struct Chain {
    base: syn::Expr,
    adapters: Vec<String>,
    limit: Vec<syn::ExprMethodCall>, // take, skip on the outermost items
}
fn chain(e: &syn::Expr) -> Res<Chain> {
    let mut ad = vec![];
    let mut limit: Vec<syn::ExprMethodCall> = vec![];
    let mut cur = e;
    loop {
        match cur {
            syn::Expr::MethodCall(m) if ["iter", "copied", "cloned", "into_iter", "flatten"].contains(&m.method.to_string().as_str()) => {
                if m.method == "flatten" && !limit.is_empty() {
                    return Err("take or skip of what is flattened".into());
                }
                ad.push(m.method.to_string());
                cur = &m.receiver;
            }
            syn::Expr::MethodCall(m) if (m.method == "take" || m.method == "skip") && m.args.len() == 1 => {
                limit.push(m.clone());
                cur = &m.receiver;
            }
            syn::Expr::Paren(p) => cur = &p.expr,
            _ => break,
        }
    }
    ad.reverse();
    limit.reverse();
    Ok(Chain { base: cur.clone(), adapters: ad, limit })
}
fn nest(c: &Chain, pat: &syn::Pat, body: syn::Block) -> syn::Expr {
    // strip a full-range index: xs[..] is xs as a slice
    let base = match &c.base {
        syn::Expr::Index(ix) => match &*ix.index {
            syn::Expr::Range(r) if r.start.is_none() && r.end.is_none() => (*ix.expr).clone(),
            _ => c.base.clone(),
        },
        b => b.clone(),
    };
    let flat = c.adapters.iter().filter(|a| *a == "flatten").count();
    let byval = match c.adapters.last().map(|s| s.as_str()) {
        Some("copied") | Some("cloned") => true,
        Some("into_iter") => flat == 0,
        _ => false,
    };
    let stmts = &body.stmts;
    let limited = |mut it: syn::Expr| -> syn::Expr {
        for l in &c.limit {
            let (m, a) = (&l.method, &l.args[0]);
            it = parse_quote!(#it.#m(#a));
        }
        it
    };
    if !c.limit.is_empty() {
        let it = limited(parse_quote!(#base.iter()));
        return match (flat, byval) {
            (0, true) => parse_quote!(for __x in #it { let #pat = *__x; #(#stmts)* }),
            (0, false) => parse_quote!(for #pat in #it { #(#stmts)* }),
            (_, true) => parse_quote!(for __b in #it { for __x in __b.iter() { let #pat = *__x; #(#stmts)* } }),
            (_, false) => parse_quote!(for __b in #it { for #pat in __b.iter() { #(#stmts)* } }),
        };
    }
    if flat == 0 {
        if byval {
            parse_quote!({ let __base = #base; for __x in __base.iter() { let #pat = *__x; #(#stmts)* } })
        } else {
            parse_quote!(for #pat in #base.iter() { #(#stmts)* })
        }
    } else {
        if byval {
            parse_quote!(for __b in #base.iter() { for __x in __b.iter() { let #pat = *__x; #(#stmts)* } })
        } else {
            parse_quote!(for __b in #base.iter() { for #pat in __b.iter() { #(#stmts)* } })
        }
    }
}

// ---------------------------------------------------------------- call replacement

struct Calls<'a> {
    u: &'a Unit,
}
impl<'a> VisitMut for Calls<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        let split = |args: &syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>| -> Vec<syn::Expr> {
            let mut v = vec![];
            for a in args {
                match unparen(a) {
                    syn::Expr::Range(r) => {
                        if let Some(s) = &r.start {
                            v.push((**s).clone())
                        }
                        if let Some(s) = &r.end {
                            v.push((**s).clone())
                        }
                    }
                    _ => v.push(a.clone()),
                }
            }
            v
        };
        match e {
            syn::Expr::MethodCall(m) => {
                let name = format!(".{}", m.method);
                if let Some((_, to)) = self.u.calls.iter().find(|(a, _)| *a == name) {
                    let args = split(&m.args);
                    let r = &m.receiver;
                    let (pre, f) = match to.strip_prefix("&mut ") {
                        Some(f) => (2, f),
                        None => match to.strip_prefix('&') {
                            Some(f) => (1, f),
                            None => (0, to.as_str()),
                        },
                    };
                    let f: syn::Path = syn::parse_str(f).unwrap();
                    *e = match pre {
                        2 => parse_quote!(#f(&mut #r, #(#args),*)),
                        1 => parse_quote!(#f(&#r, #(#args),*)),
                        _ => parse_quote!(#f(#r, #(#args),*)),
                    };
                }
            }
            syn::Expr::Call(c) => {
                let name = c.func.to_token_stream().to_string().replace(' ', "");
                if let Some((_, to)) = self.u.calls.iter().find(|(a, _)| *a == name) {
                    let f: syn::Path = syn::parse_str(to).unwrap();
                    let args = &c.args;
                    *e = parse_quote!(#f(#args));
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- xs.swap(i, j), of items that are copied
struct Swaps;
impl VisitMut for Swaps {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        // (a, b) = e
        if let syn::Expr::Assign(a) = e {
            if let syn::Expr::Tuple(t) = unparen(&a.left) {
                if !t.elems.is_empty() && t.elems.iter().all(|x| !matches!(x, syn::Expr::Tuple(_) | syn::Expr::Struct(_) | syn::Expr::Call(_) | syn::Expr::Range(_))) {
                    let v = &a.right;
                    let names: Vec<syn::Ident> = (0..t.elems.len()).map(|k| format_ident!("__d{}", k)).collect();
                    let sets: Vec<syn::Stmt> = t.elems.iter().zip(&names).filter(|(x, _)| !matches!(x, syn::Expr::Infer(_))).map(|(x, n)| parse_quote!(#x = #n;)).collect();
                    *e = parse_quote!({ let (#(#names),*) = #v; #(#sets)* });
                    return;
                }
            }
        }
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "swap" && m.args.len() == 2 && simple_place(&m.receiver) {
                let (x, a, b) = (&m.receiver, &m.args[0], &m.args[1]);
                *e = parse_quote!({ let __s1: usize = #a; let __s2: usize = #b; let __s3 = #x[__s1]; #x[__s1] = #x[__s2]; #x[__s2] = __s3; });
            }
        }
    }
}

// ---------------------------------------------------------------- loops, hints

struct LoopMarks<'a> {
    fs: &'a FnSpec,
    m: &'a mut Markers,
    n: usize,
}
impl<'a> LoopMarks<'a> {
    fn hint(&self, at: &str) -> Option<String> {
        let v: Vec<&str> = self.fs.hints.iter().filter(|(a, _)| a == at).map(|(_, t)| t.as_str()).collect();
        if v.is_empty() {
            None
        } else {
            Some(v.join("\n"))
        }
    }
    fn body(&mut self, b: &mut syn::Block, id: usize, tested: bool) {
        if let Some(t) = self.hint(&format!("loop{}.start", id)) {
            let s = self.m.add(false, t);
            b.stmts.insert(0, s);
        }
        if let Some(t) = self.hint(&format!("loop{}.end", id)) {
            let s = self.m.add(false, t);
            b.stmts.push(s);
        }
        let text = self.fs.loops.iter().find(|(k, _)| *k == id).map(|(_, t)| t.clone()).unwrap_or_default();
        let text = text.replace("__while", if tested { "true" } else { "false" });
        let s = self.m.add(true, text);
        b.stmts.insert(0, s);
    }
}
impl<'a> VisitMut for LoopMarks<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::While(w) => {
                let id = self.n;
                self.n += 1;
                self.visit_block_mut(&mut w.body);
                self.body(&mut w.body, id, true);
            }
            syn::Expr::Loop(w) => {
                let id = self.n;
                self.n += 1;
                self.visit_block_mut(&mut w.body);
                self.body(&mut w.body, id, false);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // before/after loopN at statement level
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            let first = self.n;
            self.visit_stmt_mut(&mut s);
            let is_loop = matches!(&s, syn::Stmt::Expr(syn::Expr::While(_) | syn::Expr::Loop(_), _));
            if is_loop {
                if let Some(t) = self.hint(&format!("before loop{}", first)) {
                    let st = self.m.add(false, t);
                    b.stmts.push(st);
                }
                b.stmts.push(s);
                if let Some(t) = self.hint(&format!("after loop{}", first)) {
                    let st = self.m.add(false, t);
                    b.stmts.push(st);
                }
            } else {
                b.stmts.push(s);
            }
        }
    }
}

struct CountCalls<'a> {
    name: &'a str,
    n: usize,
}
impl<'a, 'b> Visit<'b> for CountCalls<'a> {
    fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        if m.method == self.name {
            self.n += 1;
        }
    }
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let syn::Expr::Path(p) = &*c.func {
            if p.path.segments.last().map(|s| s.ident == self.name).unwrap_or(false) {
                self.n += 1;
            }
        }
    }
}

struct CallHints<'a> {
    name: String,
    k: usize,
    before: bool,
    text: String,
    m: &'a mut Markers,
    seen: usize,
    done: bool,
}
impl<'a> VisitMut for CallHints<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        if self.done {
            return;
        }
        let mut i = 0;
        while i < b.stmts.len() {
            let base = self.seen;
            let mut c = CountCalls { name: &self.name, n: 0 };
            c.visit_stmt(&b.stmts[i]);
            if base + c.n > self.k {
                // innermost statement: descend first
                visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
                if !self.done {
                    let st = self.m.add(false, self.text.clone());
                    let at = if self.before { i } else { i + 1 };
                    if !self.before {
                        // a call in tail position of a unit block
                        if let syn::Stmt::Expr(syn::Expr::MethodCall(_) | syn::Expr::Call(_), semi @ None) = &mut b.stmts[i] {
                            *semi = Some(Default::default());
                        }
                    }
                    b.stmts.insert(at, st);
                    self.done = true;
                }
                return;
            }
            self.seen = base + c.n;
            i += 1;
        }
    }
}

struct Leftover {
    closure: bool,
}
impl<'a> Visit<'a> for Leftover {
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {
        self.closure = true;
    }
}

/// a == b where neither side shows that it is a number: same(&a, &b) of the prelude, which has a meaning for numbers
/// and for texts, and for nothing else
struct Equalities;
impl VisitMut for Equalities {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        fn open(e: &syn::Expr) -> bool {
            match unparen(e) {
                syn::Expr::Path(p) => p.path.get_ident().map_or(false, |i| i.to_string().chars().any(|c| c.is_lowercase())),
                syn::Expr::MethodCall(m) => m.method != "len",
                syn::Expr::Call(_) | syn::Expr::Reference(_) | syn::Expr::Array(_) | syn::Expr::Repeat(_) => true,
                syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_) | syn::Lit::ByteStr(_)),
                syn::Expr::Index(i) => matches!(unparen(&i.index), syn::Expr::Range(_)),
                _ => false,
            }
        }
        if let syn::Expr::Binary(b) = e {
            let (l, r) = (&b.left, &b.right);
            if open(l) && open(r) {
                match b.op {
                    syn::BinOp::Eq(_) => *e = parse_quote!(same__(&#l, &#r)),
                    syn::BinOp::Ne(_) => *e = parse_quote!((!same__(&#l, &#r))),
                    _ => {}
                }
            }
        }
    }
}
pub const SAME: &str = r#"
pub trait Same<R: ?Sized> {
    spec fn same_spec(&self, o: &R) -> bool;
    fn same(&self, o: &R) -> (ret: bool) ensures ret == self.same_spec(o);
}
impl Same<u8> for u8 { open spec fn same_spec(&self, o: &u8) -> bool { *self == *o } fn same(&self, o: &u8) -> bool { *self == *o } }
impl Same<u16> for u16 { open spec fn same_spec(&self, o: &u16) -> bool { *self == *o } fn same(&self, o: &u16) -> bool { *self == *o } }
impl Same<u32> for u32 { open spec fn same_spec(&self, o: &u32) -> bool { *self == *o } fn same(&self, o: &u32) -> bool { *self == *o } }
impl Same<u64> for u64 { open spec fn same_spec(&self, o: &u64) -> bool { *self == *o } fn same(&self, o: &u64) -> bool { *self == *o } }
impl Same<usize> for usize { open spec fn same_spec(&self, o: &usize) -> bool { *self == *o } fn same(&self, o: &usize) -> bool { *self == *o } }
impl Same<bool> for bool { open spec fn same_spec(&self, o: &bool) -> bool { *self == *o } fn same(&self, o: &bool) -> bool { *self == *o } }
impl Same<char> for char { open spec fn same_spec(&self, o: &char) -> bool { *self == *o } fn same(&self, o: &char) -> bool { *self == *o } }
impl Same<[u8]> for [u8] { open spec fn same_spec(&self, o: &[u8]) -> bool { self@ == o@ } #[verifier::external_body] fn same(&self, o: &[u8]) -> bool { unimplemented!() } }
impl Same<str> for str { open spec fn same_spec(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn same(&self, o: &str) -> bool { unimplemented!() } }
impl Same<str> for String { open spec fn same_spec(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn same(&self, o: &str) -> bool { unimplemented!() } }
impl<'b> Same<&'b str> for String { open spec fn same_spec(&self, o: &&'b str) -> bool { self@ == o@ } #[verifier::external_body] fn same(&self, o: &&'b str) -> bool { unimplemented!() } }
impl Same<String> for str { open spec fn same_spec(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn same(&self, o: &String) -> bool { unimplemented!() } }
impl<'b> Same<String> for &'b str { open spec fn same_spec(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn same(&self, o: &String) -> bool { unimplemented!() } }
impl Same<String> for String { open spec fn same_spec(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn same(&self, o: &String) -> bool { unimplemented!() } }
impl<'a, 'b, R: ?Sized, T: ?Sized + Same<R>> Same<&'b R> for &'a T { open spec fn same_spec(&self, o: &&'b R) -> bool { (**self).same_spec(*o) } fn same(&self, o: &&'b R) -> bool { (**self).same(*o) } }
fn same__<R: ?Sized, T: ?Sized + Same<R>>(a: &T, b: &R) -> (ret: bool) ensures ret == a.same_spec(b) { a.same(b) }
"#;

// ---------------------------------------------------------------- everything for one function

pub fn transform_fn(f: &mut FnItem, fs: &FnSpec, u: &Unit, src: &Sources, contracted: &BTreeSet<String>, m: &mut Markers) -> Res<()> {
    let self_ty = f.self_ty.as_ref().map(|h| match &*h.self_ty {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => String::new(),
    });
    // 1. helpers without a contract
    let shims: BTreeSet<String> = u
        .calls
        .iter()
        .map(|(a, _)| a.trim_start_matches('.').to_string())
        .collect();
    let mut inl = Inline { src, locals: typed_params(&f.sig), contracted, shims, self_ty: self_ty.clone(), n: 0, nom: u.opts.contains("nom"), err: None, stack: vec![f.key.clone()] };
    // tail expression may be a helper with early returns
    if let Some(syn::Stmt::Expr(e, None)) = f.block.stmts.last_mut() {
        if inl.target(e).is_some() {
            if let Some(x) = inl.expand(&e.clone(), true, true) {
                *e = x;
            }
        }
    }
    inl.visit_block_mut(&mut f.block);
    if let Some(e) = inl.err {
        return Err(e);
    }
    // 2. logging, macros, no-ops
    let mut lg = Logs { err: None };
    lg.visit_block_mut(&mut f.block);
    if let Some(e) = lg.err {
        return Err(e);
    }
    Bytes.visit_block_mut(&mut f.block);
    Swaps.visit_block_mut(&mut f.block);
    // 3. generics
    if u.mono.is_some() {
        let mut params = mono_generics(&mut f.sig.generics, u);
        if let Some(h) = &mut f.self_ty {
            params.extend(mono_generics(&mut h.generics, u));
            Mono { u, params: params.clone() }.visit_type_mut(&mut h.self_ty);
        }
        let mut mo = Mono { u, params };
        mo.visit_signature_mut(&mut f.sig);
        mo.visit_block_mut(&mut f.block);
    }
    // 4. drop glue
    if f.is_drop {
        f.sig.ident = format_ident!("drop__");
        if let Some(h) = &mut f.self_ty {
            h.trait_ = None;
        }
    }
    if let (Some(r), Some(tn)) = (f.sig.receiver().cloned(), &self_ty) {
        if r.reference.is_none() {
            let mut drops: Vec<syn::Stmt> = vec![];
            if src.drops.contains(tn) {
                drops.push(parse_quote!(self__.drop__();));
            } else if let Some(syn::Item::Struct(s)) = src.types.get(tn) {
                for fld in &s.fields {
                    if let (Some(id), syn::Type::Path(p)) = (&fld.ident, &fld.ty) {
                        let t = p.path.segments.last().unwrap().ident.to_string();
                        if src.drops.contains(&t) {
                            drops.push(parse_quote!(self__.#id.drop__();));
                        }
                    }
                }
            }
            if !drops.is_empty() {
                if matches!(f.block.stmts.last(), Some(syn::Stmt::Expr(_, None))) {
                    return Err("by-value method with a tail expression and drop glue".into());
                }
                f.block.stmts.push(parse_quote!(let mut self__ = self;));
                f.block.stmts.extend(drops);
            }
        }
    }
    // 5. for loops
    let mut fl = ForLoops { left: vec![], n: 0, anys: 0, err: None };
    fl.visit_block_mut(&mut f.block);
    if let Some(e) = fl.err {
        return Err(e);
    }
    let mut fs2 = fs.clone();
    for (name, text) in fl.left.iter().rev() {
        for (_, t) in fs2.loops.iter_mut() {
            *t = t.replace(name.as_str(), text);
        }
        for (_, t) in fs2.hints.iter_mut() {
            *t = t.replace(name.as_str(), text);
        }
    }
    let fs = &fs2;
    // 6. shims
    if u.opts.contains("world") {
        crate::worldp::thread(f, fs, &crate::worldp::timed(u));
    }
    Calls { u }.visit_block_mut(&mut f.block);
    f.block = syn::parse2(retype(f.block.to_token_stream(), u)?).map_err(|e| e.to_string())?;
    f.sig = syn::parse2(retype(f.sig.to_token_stream(), u)?).map_err(|e| e.to_string())?;
    if let Some(h) = &mut f.self_ty {
        let st = retype(h.self_ty.to_token_stream(), u)?;
        *h.self_ty = syn::parse2(st).map_err(|e| e.to_string())?;
    }
    // closures say nothing to the verifier about what they give
    let mut left = Leftover { closure: false };
    left.visit_block(&f.block);
    if left.closure && fs.assumed.is_none() {
        return Err("closure not handled".into());
    }
    Equalities.visit_block_mut(&mut f.block);
    // 7. parameter names of the contract
    let mut k = 0;
    let mut lets: Vec<syn::Stmt> = vec![];
    for a in f.sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = a {
            let want = fs.params.get(k).ok_or_else(|| "more parameters than the contract names".to_string())?;
            k += 1;
            let wid = format_ident!("{}", want);
            let same = matches!(&*t.pat, syn::Pat::Ident(p) if p.ident == wid && p.mutability.is_none());
            if !same {
                let pat = t.pat.clone();
                lets.push(parse_quote!(let #pat = #wid;));
                *t.pat = parse_quote!(#wid);
            }
            t.attrs.clear();
        }
    }
    if k != fs.params.len() {
        return Err(format!("{} parameters, the contract names {}", k, fs.params.len()));
    }
    if !lets.is_empty() {
        lets.extend(f.block.stmts.drain(..));
        f.block.stmts = lets;
    }
    if let syn::ReturnType::Type(arrow, ty) = &f.sig.output {
        let r = format_ident!("{}", fs.ret);
        let v = quote!((#r: #ty));
        f.sig.output = syn::ReturnType::Type(*arrow, Box::new(syn::Type::Verbatim(v)));
    }
    if fs.assumed.is_some() {
        let b: syn::Block = parse_quote!({ unimplemented!() });
        f.block = b;
        let s = m.add(true, fs.contract.clone());
        f.block.stmts.insert(0, s);
        return Ok(());
    }
    // 8. hints at calls
    for (at, text) in &fs.hints {
        let w: Vec<&str> = at.split_whitespace().collect();
        if w.len() == 4 && w[1] == "call" {
            let mut c = CallHints {
                name: w[2].into(),
                k: w[3].parse().map_err(|_| "bad hint index")?,
                before: w[0] == "before",
                text: text.clone(),
                m,
                seen: 0,
                done: false,
            };
            c.visit_block_mut(&mut f.block);
            if !c.done {
                return Err(format!("lost anchor: {}", at));
            }
        }
    }
    // 9. loop contracts
    let mut lm = LoopMarks { fs, m, n: 0 };
    lm.visit_block_mut(&mut f.block);
    let n = lm.n;
    let want = fs.nloops.unwrap_or_else(|| fs.loops.iter().map(|(k, _)| k + 1).max().unwrap_or(0));
    if n != want && !(fs.optional && n == 0) {
        return Err(format!("lost anchor: {} loops, the contract is anchored to {}", n, want));
    }
    // 10. start / end hints, header
    for (at, text) in fs.hints.iter().rev() {
        if at == "start" {
            let s = m.add(false, text.clone());
            f.block.stmts.insert(0, s);
        }
    }
    for (at, text) in fs.hints.iter() {
        if at == "end" {
            let s = m.add(false, text.clone());
            let n = f.block.stmts.len();
            if matches!(f.block.stmts.last(), Some(syn::Stmt::Expr(_, None))) {
                f.block.stmts.insert(n - 1, s);
            } else {
                f.block.stmts.push(s);
            }
        }
    }
    let s = m.add(true, fs.contract.clone());
    f.block.stmts.insert(0, s);
    Ok(())
}
