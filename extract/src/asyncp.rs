//! Asynchronous functions as sequential ones, and formatting as appends.
//!
//! opt async: `async fn` loses `async`; `e.await` becomes `e` (the callee's contract says what has happened
//! when it is done); `select!` becomes a choice made by `pick()`, of which nothing is known;
//! `tokio::spawn(async move {..})` becomes `spawned()`, `tokio::spawn(f(args))` becomes `spawn_f(args)`.
//! opt owned: see `Lend`.
//! opt fmt: `write!(w, "a{}b", x)` becomes w.write_str("a"), x.fmt(w), w.write_str("b"), in order, up to the
//! first error; `fmt::Display::fmt(x, w)` becomes `x.fmt(w)`.
use crate::{FnItem, Res};
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use quote::ToTokens;
use syn::parse::{Parse, ParseStream};
use syn::parse_quote;
use syn::visit_mut::{self, VisitMut};

struct Branch {
    pat: syn::Pat,
    fut: syn::Expr,
    cond: Option<syn::Expr>,
    body: syn::Expr,
}
struct Select {
    branches: Vec<Branch>,
}
impl Parse for Select {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let mut branches = vec![];
        if i.peek(syn::Ident) && i.peek2(syn::Token![;]) {
            i.parse::<syn::Ident>()?;
            i.parse::<syn::Token![;]>()?;
        }
        while !i.is_empty() {
            let pat = syn::Pat::parse_multi_with_leading_vert(i)?;
            i.parse::<syn::Token![=]>()?;
            let fut: syn::Expr = i.parse()?;
            let mut cond = None;
            if i.peek(syn::Token![,]) {
                i.parse::<syn::Token![,]>()?;
                i.parse::<syn::Token![if]>()?;
                cond = Some(i.parse()?);
            }
            i.parse::<syn::Token![=>]>()?;
            let body: syn::Expr = if i.peek(syn::token::Brace) {
                let b: syn::Block = i.parse()?;
                parse_quote!(#b)
            } else {
                i.parse()?
            };
            let _ = i.parse::<Option<syn::Token![,]>>()?;
            branches.push(Branch { pat, fut, cond, body });
        }
        Ok(Select { branches })
    }
}

struct Pieces {
    dst: syn::Expr,
    parts: Vec<(Option<String>, Option<syn::Expr>)>,
}
impl Parse for Pieces {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let dst: syn::Expr = i.parse()?;
        i.parse::<syn::Token![,]>()?;
        let lit: syn::LitStr = i.parse()?;
        let mut args: Vec<syn::Expr> = vec![];
        while !i.is_empty() {
            i.parse::<syn::Token![,]>()?;
            if i.is_empty() {
                break;
            }
            args.push(i.parse()?);
        }
        let bad = |m: &str| syn::Error::new(lit.span(), m.to_string());
        let text: Vec<char> = lit.value().chars().collect();
        let (mut parts, mut cur, mut k, mut n) = (vec![], String::new(), 0, 0);
        while k < text.len() {
            match text[k] {
                '{' if text.get(k + 1) == Some(&'{') => {
                    cur.push('{');
                    k += 2;
                }
                '}' if text.get(k + 1) == Some(&'}') => {
                    cur.push('}');
                    k += 2;
                }
                '{' => {
                    let e = text[k..].iter().position(|c| *c == '}').ok_or_else(|| bad("format string"))? + k;
                    let inside: String = text[k + 1..e].iter().collect();
                    let x = if inside.is_empty() {
                        n += 1;
                        args.get(n - 1).cloned().ok_or_else(|| bad("format argument"))?
                    } else if let Ok(p) = inside.parse::<usize>() {
                        args.get(p).cloned().ok_or_else(|| bad("format argument"))?
                    } else {
                        let id: syn::Ident = syn::parse_str(&inside).map_err(|_| bad("format specification"))?;
                        parse_quote!(#id)
                    };
                    if !cur.is_empty() {
                        parts.push((Some(std::mem::take(&mut cur)), None));
                    }
                    parts.push((None, Some(x)));
                    k = e + 1;
                }
                c => {
                    cur.push(c);
                    k += 1;
                }
            }
        }
        if !cur.is_empty() {
            parts.push((Some(cur), None));
        }
        Ok(Pieces { dst, parts })
    }
}

fn unparen(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => unparen(&p.expr),
        syn::Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

struct Pass {
    asyn: bool,
    fmt: bool,
    owned: BTreeSet<String>, // variables that hold what is written to, and not a reference to it
    err: Option<String>,
}
/// variables bound by `let mut` to something that is not visibly a reference
struct Owned(BTreeSet<String>);
impl<'a> Visit<'a> for Owned {
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if p.mutability.is_some() && p.by_ref.is_none() && matches!(unparen(&i.expr), syn::Expr::Call(_) | syn::Expr::Macro(_)) {
                self.0.insert(p.ident.to_string());
            }
        }
        visit::visit_local(self, l);
    }
}
fn irrefutable(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Ident(i) => i.subpat.is_none(),
        syn::Pat::Wild(_) => true,
        syn::Pat::Tuple(t) => t.elems.iter().all(irrefutable),
        _ => false,
    }
}
impl Pass {
    fn fail(&mut self, m: &str) {
        self.err.get_or_insert(m.to_string());
    }
    fn select(&mut self, s: Select) -> syn::Expr {
        if s.branches.is_empty() || s.branches.iter().any(|b| b.cond.is_some() || !irrefutable(&b.pat)) {
            self.fail("select! with conditions, refutable patterns or else");
        }
        // a branch that loses the race is dropped: sequentially it has not happened, which holds for these
        const SAFE: [&str; 8] = ["recv", "readable", "writable", "read_buf", "read", "changed", "closed", "ready"];
        for b in &s.branches {
            if !matches!(unparen(&b.fut), syn::Expr::MethodCall(m) if SAFE.contains(&m.method.to_string().as_str())) {
                self.fail("select! on something not known to be cancel safe");
            }
        }
        let mut out: Option<syn::Expr> = None;
        for b in s.branches.into_iter().rev() {
            let (p, f, body) = (b.pat, b.fut, b.body);
            let one: syn::Block = parse_quote!({ let #p = #f; #body });
            out = Some(match out {
                None => parse_quote!(#one),
                Some(rest) => parse_quote!(if pick() #one else { #rest }),
            });
        }
        out.unwrap_or(parse_quote!(()))
    }
    fn write(&mut self, p: Pieces) -> syn::Expr {
        let (recv, arg): (syn::Expr, syn::Expr) = match unparen(&p.dst) {
            syn::Expr::Reference(r) if r.mutability.is_some() => {
                let x = &r.expr;
                (parse_quote!(#x), parse_quote!(&mut #x))
            }
            syn::Expr::Path(x) if x.path.get_ident().map_or(false, |i| self.owned.contains(&i.to_string())) => (parse_quote!(#x), parse_quote!(&mut #x)),
            x => (x.clone(), x.clone()),
        };
        let mut out: syn::Expr = parse_quote!(Ok(()));
        let mut first = true;
        for (lit, x) in p.parts.into_iter().rev() {
            let step: syn::Expr = match (lit, x) {
                (Some(l), _) => parse_quote!(#recv.write_str(#l)),
                (_, Some(x)) => {
                    let x = match unparen(&x) {
                        syn::Expr::Reference(r) => (*r.expr).clone(),
                        y => y.clone(),
                    };
                    parse_quote!(#x.fmt(#arg))
                }
                _ => continue,
            };
            out = if first { step } else { parse_quote!(match #step { Ok(()) => #out, Err(__e) => Err(__e) }) };
            first = false;
        }
        out
    }
}
impl VisitMut for Pass {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Macro(m) = e {
            let last = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if last == "eyre" && self.asyn {
                *e = parse_quote!(new_report());
            } else if last == "bail" && self.asyn {
                *e = parse_quote!(return Err(new_report()));
            } else if last == "ensure" && self.asyn {
                match m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    Ok(a) if !a.is_empty() => {
                        let c = &a[0];
                        *e = parse_quote!(if !(#c) { return Err(new_report()); });
                    }
                    _ => self.fail("ensure!"),
                }
            } else if last == "format" && self.fmt {
                let t = m.mac.tokens.clone();
                match syn::parse2::<Pieces>(quote::quote!(&mut __text, #t)) {
                    Ok(s) => {
                        let w = self.write(s);
                        *e = parse_quote!({ let mut __text = String::new(); let _ = #w; __text });
                    }
                    Err(x) => self.fail(&format!("format!: {}", x)),
                }
            } else if last == "select" && self.asyn {
                match m.mac.parse_body::<Select>() {
                    Ok(s) => *e = self.select(s),
                    Err(x) => self.fail(&format!("select!: {}", x)),
                }
            } else if last == "write" && self.fmt {
                match m.mac.parse_body::<Pieces>() {
                    Ok(s) => *e = self.write(s),
                    Err(x) => self.fail(&format!("write!: {}", x)),
                }
            }
        }
        if self.asyn {
            if let syn::Expr::Await(a) = e {
                let b = (*a.base).clone();
                // waiting on a value, not on a call
                *e = if matches!(unparen(&b), syn::Expr::Path(_) | syn::Expr::Field(_)) { parse_quote!(#b.wait()) } else { b };
                return self.visit_expr_mut(e);
            }
            if let syn::Expr::Call(c) = e {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == "tokio::spawn" || f == "tokio::task::spawn" {
                    match c.args.first().map(unparen) {
                        Some(syn::Expr::Async(_)) => *e = parse_quote!(spawned()),
                        Some(syn::Expr::Call(i)) => {
                            let n = i.func.to_token_stream().to_string().replace(' ', "");
                            let n = n.rsplit("::").next().unwrap().to_string();
                            let g = quote::format_ident!("spawn_{}", n);
                            let a = &i.args;
                            *e = parse_quote!(#g(#a));
                        }
                        _ => self.fail("spawn of something else"),
                    }
                }
            }
        }
        if self.fmt {
            // x.to_string(), of a variable or a field
            let shown = match &*e {
                syn::Expr::MethodCall(m) if m.method == "to_string" && m.args.is_empty() && matches!(unparen(&m.receiver), syn::Expr::Path(_) | syn::Expr::Field(_)) => Some(m.receiver.clone()),
                _ => None,
            };
            if let Some(x) = shown {
                *e = parse_quote!({ let mut __text = String::new(); let _ = #x.fmt(&mut __text); __text });
            }
            if let syn::Expr::Call(c) = e {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f.ends_with("Display::fmt") && c.args.len() == 2 {
                    let x = match unparen(&c.args[0]) {
                        syn::Expr::Reference(r) => (*r.expr).clone(),
                        y => y.clone(),
                    };
                    let w = &c.args[1];
                    *e = parse_quote!(#x.fmt(#w));
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        if let syn::Stmt::Macro(m) = s {
            let last = m.mac.path.segments.last().map(|x| x.ident.to_string()).unwrap_or_default();
            if (["select", "bail", "ensure"].contains(&last.as_str()) && self.asyn) || (last == "write" && self.fmt) {
                let em = syn::ExprMacro { attrs: vec![], mac: m.mac.clone() };
                *s = syn::Stmt::Expr(syn::Expr::Macro(em), m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// opt owned: by-value `mut` parameters are lent instead, so that a contract can speak of their last state
struct Lend(Vec<String>);
impl Lend {
    fn has(&self, e: &syn::Expr) -> bool {
        matches!(unparen(e), syn::Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.0.contains(&i.to_string())))
    }
}
impl VisitMut for Lend {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        match e {
            syn::Expr::Reference(r) if self.has(&r.expr) => {
                let x = &r.expr;
                *r.expr = parse_quote!(*#x);
                return;
            }
            syn::Expr::Assign(a) if self.has(&a.left) => {
                let x = &a.left;
                *a.left = parse_quote!(*#x);
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub fn lend(f: &mut FnItem) {
    let mut l = Lend(vec![]);
    for a in f.sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = a {
            if let syn::Pat::Ident(p) = &mut *t.pat {
                if p.mutability.is_some() && p.by_ref.is_none() {
                    p.mutability = None;
                    l.0.push(p.ident.to_string());
                    let ty = &t.ty;
                    *t.ty = parse_quote!(&mut #ty);
                }
            }
        }
    }
    l.visit_block_mut(&mut f.block);
}

pub fn sequential(f: &mut FnItem, asyn: bool, fmt: bool) -> Res<()> {
    if asyn {
        f.sig.asyncness = None;
    }
    let mut own = Owned(Default::default());
    own.visit_block(&f.block);
    let mut p = Pass { asyn, fmt, owned: own.0, err: None };
    p.visit_block_mut(&mut f.block);
    match p.err {
        Some(e) => Err(format!("{}: {}", f.key, e)),
        None => Ok(()),
    }
}
