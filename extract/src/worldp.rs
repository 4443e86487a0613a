//! Pinned receivers, spawned tasks and the passing of time.
//!
//! opt pin: `self: Pin<&mut Self>` becomes `&mut self`; `self.project()` is `self`, its fields borrowed;
//! `Pin::new(e)` is `e` (a pinned reference to something Unpin is that reference).
//! @task: the body of the n-th `tokio::spawn(async move { .. })` of a function becomes a function of its own,
//! with the captured variables as parameters (in the order of first use; the directive gives their types), and
//! the call becomes `spawn_fn_n(captured..)`.
//! opt world: functions whose contract names a last parameter `w` get `w: &mut World`, and every call of such a
//! function or of an operation listed with @timed passes it on: what is outside moves on only at such calls.
use crate::spec::{FnSpec, Unit};
use crate::{FnItem, Res, Sources};
use quote::{format_ident, ToTokens};
use std::collections::BTreeSet;
use syn::parse_quote;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};

fn unparen(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => unparen(&p.expr),
        syn::Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

// ---------------------------------------------------------------- pins

struct Pins {
    projected: BTreeSet<String>,
}
fn is_project(e: &syn::Expr) -> Option<&syn::Expr> {
    match unparen(e) {
        syn::Expr::MethodCall(m) if m.method == "project" && m.args.is_empty() => Some(&m.receiver),
        _ => None,
    }
}
fn pin_new(e: &syn::Expr) -> Option<&syn::Expr> {
    match unparen(e) {
        syn::Expr::Call(c) if c.args.len() == 1 => {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            (f == "Pin::new" || f == "std::pin::Pin::new").then(|| &c.args[0])
        }
        _ => None,
    }
}
fn place(e: &syn::Expr) -> &syn::Expr {
    match unparen(e) {
        syn::Expr::Reference(r) => place(&r.expr),
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => place(&u.expr),
        x => x,
    }
}
impl VisitMut for Pins {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &mut l.init) {
            if let Some(r) = is_project(&i.expr) {
                self.projected.insert(p.ident.to_string());
                let r = r.clone();
                *i.expr = if matches!(&r, syn::Expr::Path(p) if p.path.is_ident("self")) { parse_quote!(&mut *#r) } else { r };
                return;
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            syn::Expr::Field(f) => {
                let base = f.base.clone();
                let member = &f.member;
                if let Some(r) = is_project(&base) {
                    *e = parse_quote!((&mut #r.#member));
                } else if matches!(unparen(&base), syn::Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.projected.contains(&i.to_string()))) {
                    *e = parse_quote!((&mut #base.#member));
                }
            }
            syn::Expr::MethodCall(m) => {
                if let Some(x) = pin_new(&m.receiver) {
                    let p = place(x).clone();
                    *m.receiver = p;
                } else if m.method == "as_mut" && m.args.is_empty() && place(&m.receiver).to_token_stream().to_string() == "self" {
                    *e = (*m.receiver).clone();
                }
            }
            _ => {}
        }
    }
}
/// what is left of Pin::new, once receivers are done
struct PinRest;
impl VisitMut for PinRest {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = pin_new(e) {
            *e = x.clone();
        }
    }
}
pub fn unpin(f: &mut FnItem) {
    for a in f.sig.inputs.iter_mut() {
        match a {
            syn::FnArg::Receiver(r) if r.colon_token.is_some() => {
                let t = r.ty.to_token_stream().to_string().replace(' ', "");
                if t == "Pin<&mutSelf>" || t == "std::pin::Pin<&mutSelf>" {
                    *r = parse_quote!(&mut self);
                }
            }
            _ => {}
        }
    }
    let mut p = Pins { projected: BTreeSet::new() };
    p.visit_block_mut(&mut f.block);
    PinRest.visit_block_mut(&mut f.block);
}

// ---------------------------------------------------------------- tasks

/// names bound by patterns, apart from those in spawned blocks
struct Bound {
    names: BTreeSet<String>,
    muts: BTreeSet<String>,
}
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.names.insert(p.ident.to_string());
        if p.mutability.is_some() {
            self.muts.insert(p.ident.to_string());
        }
    }
    fn visit_expr_async(&mut self, _: &'a syn::ExprAsync) {}
}
/// which of them a block mentions, in order
struct Captured<'b> {
    bound: &'b BTreeSet<String>,
    names: Vec<String>,
}
impl<'a, 'b> Visit<'a> for Captured<'b> {
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            let n = i.to_string();
            if self.bound.contains(&n) && !self.names.contains(&n) {
                self.names.push(n);
            }
        }
    }
}
struct Tasks<'a> {
    of: &'a str,
    bound: BTreeSet<String>,
    wanted: &'a [(String, String)],
    n: usize,
    found: Vec<(String, Vec<String>, syn::Block)>,
}
impl<'a> VisitMut for Tasks<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        let syn::Expr::Call(c) = e else { return };
        let f = c.func.to_token_stream().to_string().replace(' ', "");
        if f != "tokio::spawn" && f != "tokio::task::spawn" {
            return;
        }
        let Some(syn::Expr::Async(a)) = c.args.first().map(unparen) else { return };
        let key = format!("{}#{}", self.of, self.n);
        self.n += 1;
        if !self.wanted.iter().any(|(k, _)| *k == key) {
            return;
        }
        let mut cap = Captured { bound: &self.bound, names: vec![] };
        cap.visit_block(&a.block);
        let args: Vec<syn::Ident> = cap.names.iter().map(|n| format_ident!("{}", n)).collect();
        self.found.push((key.clone(), cap.names, a.block.clone()));
        let shim = format_ident!("spawn_{}", key.rsplit("::").next().unwrap().replace('#', "_"));
        *e = parse_quote!(#shim(#(#args),*));
    }
}
pub fn lift(src: &mut Sources, unit: &Unit) -> Res<()> {
    let of: BTreeSet<&str> = unit.tasks.iter().filter_map(|(k, _)| k.split('#').next()).collect();
    for of in of {
        let f = src.fns.get_mut(of).ok_or_else(|| format!("lost anchor: function {} not found", of))?;
        let mut b = Bound { names: BTreeSet::new(), muts: BTreeSet::new() };
        b.visit_block(&f.block);
        f.sig.inputs.iter().for_each(|a| b.visit_fn_arg(a));
        let mut t = Tasks { of, bound: b.names, wanted: &unit.tasks, n: 0, found: vec![] };
        t.visit_block_mut(&mut f.block);
        let (uses, found) = (f.uses.clone(), t.found);
        for (key, types) in unit.tasks.iter().filter(|(k, _)| k.split('#').next() == Some(of)) {
            let (_, names, block) = found.iter().find(|x| x.0 == *key).ok_or_else(|| format!("lost anchor: task {}", key))?;
            let types: Vec<&str> = types.split(';').map(str::trim).collect();
            if names.len() != types.len() {
                return Err(format!("lost anchor: task {} captures {:?}", key, names));
            }
            let name = key.replace("::", "__").replace('#', "__task");
            let params: Vec<String> = names.iter().zip(&types).map(|(n, t)| format!("{}{}: {}", if b.muts.contains(n) { "mut " } else { "" }, n, t)).collect();
            let sig: syn::Signature = syn::parse_str(&format!("fn {}({})", name, params.join(", "))).map_err(|e| format!("@task {}: {}", key, e))?;
            let item = FnItem { key: key.clone(), self_ty: None, sig, block: block.clone(), vis: syn::Visibility::Inherited, is_drop: false, trait_name: None, uses: uses.clone() };
            src.fns.insert(key.clone(), item);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the world

struct World<'a> {
    timed: &'a BTreeSet<String>,
}
impl<'a> VisitMut for World<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            syn::Expr::MethodCall(m) if self.timed.contains(&format!(".{}", m.method)) => m.args.push(parse_quote!(&mut *w)),
            syn::Expr::Call(c) if self.timed.contains(&c.func.to_token_stream().to_string().replace(' ', "")) => c.args.push(parse_quote!(&mut *w)),
            _ => {}
        }
    }
}
pub fn timed(unit: &Unit) -> BTreeSet<String> {
    let mut s: BTreeSet<String> = unit.timed.iter().cloned().collect();
    for f in &unit.fns {
        if f.params.last().map_or(false, |p| p == "w") {
            let name = f.key.rsplit("::").next().unwrap().to_string();
            if f.key.contains("::") {
                s.insert(format!(".{}", name));
                s.insert(format!("Self::{}", name));
            }
            s.insert(name);
            s.insert(f.key.clone());
        }
    }
    s
}
pub fn thread(f: &mut FnItem, fs: &FnSpec, timed: &BTreeSet<String>) {
    if fs.params.last().map_or(false, |p| p == "w") {
        f.sig.inputs.push(parse_quote!(w: &mut World));
        World { timed }.visit_block_mut(&mut f.block);
    }
}

// ---------------------------------------------------------------- lazily

/// opt lazily: an Option method that takes a closure without parameters becomes the match it stands for
/// (`x.unwrap_or_else(|| e)` is `match x { Some(v) => v, None => e }`, and likewise or_else and ok_or_else),
/// and so does a Result method that takes one for the error (unwrap_or_else, or_else, map_err)
pub struct Lazily;
struct Escapes(bool);
impl<'a> Visit<'a> for Escapes {
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
impl VisitMut for Lazily {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // x.map(|p| a).unwrap_or_else(|| b), x.map_or_else(|| b, |p| a): x is an Option
        if let syn::Expr::MethodCall(m) = e {
            let two: Option<(syn::Expr, syn::ExprClosure, syn::ExprClosure)> = match (m.method.to_string().as_str(), m.args.first().map(unparen), m.args.get(1).map(unparen), unparen(&m.receiver)) {
                ("unwrap_or_else", Some(syn::Expr::Closure(b)), None, syn::Expr::MethodCall(x)) if x.method == "map" && x.args.len() == 1 => match unparen(&x.args[0]) {
                    syn::Expr::Closure(a) => Some(((*x.receiver).clone(), a.clone(), b.clone())),
                    _ => None,
                },
                ("map_or_else", Some(syn::Expr::Closure(b)), Some(syn::Expr::Closure(a)), x) => Some((x.clone(), a.clone(), b.clone())),
                _ => None,
            };
            if let Some((x, a, b)) = two {
                let mut esc = Escapes(false);
                esc.visit_expr(&a.body);
                esc.visit_expr(&b.body);
                if a.inputs.len() == 1 && b.inputs.is_empty() && !esc.0 {
                    let (p, a, b) = (&a.inputs[0], &a.body, &b.body);
                    *e = parse_quote!((match #x { Some(#p) => #a, None => #b }));
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let syn::Expr::MethodCall(m) = e else { return };
        let Some(syn::Expr::Closure(c)) = m.args.last().map(unparen) else { return };
        let mut esc = Escapes(false);
        esc.visit_expr(&c.body);
        if m.args.len() != 1 || c.inputs.len() > 1 || esc.0 {
            return;
        }
        let (x, body) = (&m.receiver, &c.body);
        let name = m.method.to_string();
        *e = match (name.as_str(), c.inputs.first()) {
            ("unwrap_or_else", None) => parse_quote!((match #x { Some(__v) => __v, None => #body })),
            ("or_else", None) => parse_quote!((match #x { Some(__v) => Some(__v), None => #body })),
            ("ok_or_else", None) => parse_quote!((match #x { Some(__v) => Ok(__v), None => Err(#body) })),
            ("unwrap_or_else", Some(p)) => parse_quote!((match #x { Ok(__v) => __v, Err(#p) => #body })),
            ("or_else", Some(p)) => parse_quote!((match #x { Ok(__v) => Ok(__v), Err(#p) => #body })),
            ("map_err", Some(p)) => parse_quote!((match #x { Ok(__v) => Ok(__v), Err(#p) => Err(#body) })),
            _ => return,
        };
    }
}
