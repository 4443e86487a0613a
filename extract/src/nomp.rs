//! Parser combinators (nom 7.1.0), desugared by their definitions: `preceded(a, b)(i)` becomes the two
//! applications it stands for, and so on. The leaves (tag, take, numbers, position splits) become calls of
//! functions whose contracts are in verus/nom.rs. Error payloads are dropped: PErr keeps only which of
//! Incomplete(needed) / Error / Failure it is.
use crate::{FnItem, Res};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::parse_quote;
use syn::visit_mut::{self, VisitMut};

pub type Uses = BTreeMap<String, String>;

pub fn collect_uses(t: &syn::UseTree, prefix: &str, out: &mut Uses) {
    let j = |a: &str, b: &str| if a.is_empty() { b.to_string() } else { format!("{}::{}", a, b) };
    match t {
        syn::UseTree::Path(p) => collect_uses(&p.tree, &j(prefix, &p.ident.to_string()), out),
        syn::UseTree::Name(n) => {
            if n.ident == "self" {
                if let Some(l) = prefix.rsplit("::").next() {
                    out.insert(l.to_string(), prefix.to_string());
                }
            } else {
                out.insert(n.ident.to_string(), j(prefix, &n.ident.to_string()));
            }
        }
        syn::UseTree::Rename(n) => {
            out.insert(n.rename.to_string(), j(prefix, &n.ident.to_string()));
        }
        syn::UseTree::Group(g) => {
            for x in &g.items {
                collect_uses(x, prefix, out);
            }
        }
        syn::UseTree::Glob(_) => {}
    }
}

/// functions that build a parser: parameters, the parser
pub type Builders = BTreeMap<String, (Vec<String>, syn::Expr)>;
pub fn builders(fns: &BTreeMap<String, FnItem>) -> Builders {
    let mut out = Builders::new();
    for f in fns.values() {
        let syn::ReturnType::Type(_, t) = &f.sig.output else { continue };
        if f.self_ty.is_some() || !matches!(**t, syn::Type::ImplTrait(_)) || f.block.stmts.len() != 1 {
            continue;
        }
        let syn::Stmt::Expr(e, None) = &f.block.stmts[0] else { continue };
        let mut ps = vec![];
        for a in &f.sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                if let syn::Pat::Ident(i) = &*t.pat {
                    ps.push(i.ident.to_string());
                }
            }
        }
        if ps.len() == f.sig.inputs.len() {
            out.insert(f.key.clone(), (ps, e.clone()));
        }
    }
    out
}

pub struct Nom<'a> {
    pub builders: &'a Builders,
    pub uses: &'a Uses,
    pub n: usize,
    loops: usize,
    pub err: Option<String>,
}

fn unparen(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Paren(p) => unparen(&p.expr),
        syn::Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

/// a closure's body without early exits
fn level(b: &syn::Expr) -> Res<syn::Expr> {
    if !crate::straight::early(b) {
        return Ok(b.clone());
    }
    let blk: syn::Block = match unparen(b) {
        syn::Expr::Block(b) => b.block.clone(),
        e => parse_quote!({ #e }),
    };
    let blk = crate::straight::Straight::new(crate::straight::Kind::Res).block(&blk).ok_or("early exit from a closure")?;
    Ok(parse_quote!(#blk))
}

/// uses of an identifier bound to a reference, as uses of the place it refers to
struct DerefIdents {
    names: Vec<String>,
}
impl VisitMut for DerefIdents {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) {
                if let syn::Expr::Path(_) = unparen(&u.expr) {
                    return;
                }
            }
        }
        if let syn::Expr::Path(p) = e {
            if let Some(id) = p.path.get_ident() {
                if self.names.contains(&id.to_string()) {
                    *e = parse_quote!((*#id));
                    return;
                }
            }
        }
        // &blocks[..] of a place behind a reference stays as it is after the substitution
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> Nom<'a> {
    fn resolve(&self, p: &syn::Path) -> String {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some(full) = self.uses.get(&segs[0]) {
            let mut v = vec![full.clone()];
            v.extend(segs[1..].iter().cloned());
            return v.join("::");
        }
        segs.join("::")
    }
    /// nom function name without the crate: "bytes::streaming::tag"
    fn nom_fn(&self, e: &syn::Expr) -> Option<String> {
        if let syn::Expr::Path(p) = unparen(e) {
            let f = self.resolve(&p.path);
            return f.strip_prefix("nom::").map(|s| s.to_string());
        }
        None
    }
    fn is_parser(&self, e: &syn::Expr) -> bool {
        match unparen(e) {
            syn::Expr::Call(c) => self.nom_fn(&c.func).is_some() || self.built(c).is_some(),
            syn::Expr::MethodCall(m) => ["map", "or", "and"].contains(&m.method.to_string().as_str()) && m.args.len() == 1 && self.is_parser(&m.receiver),
            syn::Expr::Path(_) => self.nom_fn(e).is_some(),
            _ => false,
        }
    }
    /// a call of a function of this crate that builds a parser: the parser it builds
    fn built(&self, c: &syn::ExprCall) -> Option<syn::Expr> {
        let syn::Expr::Path(p) = &*c.func else { return None };
        let (ps, e) = self.builders.get(&p.path.get_ident()?.to_string())?;
        if ps.len() != c.args.len() {
            return None;
        }
        let mut e = e.clone();
        for (name, a) in ps.iter().zip(&c.args) {
            if !matches!(unparen(a), syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::Closure(_)) {
                return None;
            }
            let mut s = Subst { name: name.clone(), with: a.clone(), hits: 0, shadowed: false, outside: false };
            s.visit_expr_mut(&mut e);
            if s.shadowed || s.outside {
                return None;
            }
        }
        Some(e)
    }
    fn id(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    /// apply a closure or a path to an owned value
    fn apply(&mut self, f: &syn::Expr, x: &syn::Expr) -> Res<syn::Expr> {
        match unparen(f) {
            syn::Expr::Closure(c) => {
                if c.inputs.len() != 1 {
                    return Err("closure with other than one parameter".into());
                }
                let pat = &c.inputs[0];
                let body = level(&c.body)?;
                Ok(match pat {
                    syn::Pat::Type(t) => {
                        let (p, ty) = (&t.pat, &t.ty);
                        parse_quote!({ let #p: #ty = #x; #body })
                    }
                    _ => parse_quote!({ let #pat = #x; #body }),
                })
            }
            syn::Expr::Path(p) => {
                if let Some(n) = self.nom_fn(f) {
                    let id = format_ident!("nom_{}", n.rsplit("::").next().unwrap());
                    return Ok(parse_quote!(#id(#x)));
                }
                Ok(parse_quote!(#p(#x)))
            }
            _ => Err("function argument that is neither a closure nor a path".into()),
        }
    }
    /// apply a predicate to a reference to the value in `x`
    fn apply_ref(&mut self, f: &syn::Expr, x: &syn::Ident) -> Res<syn::Expr> {
        if let syn::Expr::Closure(c) = unparen(f) {
            if c.inputs.len() != 1 {
                return Err("closure with other than one parameter".into());
            }
            let mut pat = c.inputs[0].clone();
            if let syn::Pat::Type(t) = &pat {
                pat = (*t.pat).clone();
            }
            let mut body = level(&c.body)?;
            match &pat {
                syn::Pat::Reference(r) => {
                    let p = &r.pat;
                    return Ok(parse_quote!({ let #p = #x; #body }));
                }
                syn::Pat::Ident(i) => {
                    let id = &i.ident;
                    return Ok(parse_quote!({ let #id = &#x; #body }));
                }
                syn::Pat::Tuple(t) => {
                    let mut lets: Vec<syn::Stmt> = vec![];
                    let mut names = vec![];
                    for (k, e) in t.elems.iter().enumerate() {
                        let ix = syn::Index::from(k);
                        match e {
                            syn::Pat::Ident(i) if i.subpat.is_none() => {
                                let id = &i.ident;
                                names.push(id.to_string());
                                lets.push(parse_quote!(let #id = &#x.#ix;));
                            }
                            syn::Pat::Wild(_) => {}
                            _ => return Err("nested pattern in a predicate".into()),
                        }
                    }
                    DerefIdents { names }.visit_expr_mut(&mut body);
                    return Ok(parse_quote!({ #(#lets)* #body }));
                }
                _ => return Err("pattern of a predicate".into()),
            }
        }
        self.apply(f, &parse_quote!(&#x))
    }

    fn bytes_lit(&self, e: &syn::Expr) -> Res<syn::Expr> {
        let arr = |b: &[u8]| -> syn::Expr {
            let v: Vec<proc_macro2::Literal> = b.iter().map(|x| proc_macro2::Literal::u8_suffixed(*x)).collect();
            parse_quote!([#(#v),*])
        };
        match unparen(e) {
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Str(s) => Ok(arr(s.value().as_bytes())),
                syn::Lit::ByteStr(s) => Ok(arr(&s.value())),
                _ => Err("tag literal".into()),
            },
            syn::Expr::Reference(r) => self.bytes_lit(&r.expr),
            syn::Expr::Index(ix) => match &*ix.index {
                syn::Expr::Range(r) if r.start.is_none() && r.end.is_none() => self.bytes_lit(&ix.expr),
                _ => Err("tag literal".into()),
            },
            syn::Expr::Array(a) => {
                let mut v = vec![];
                for x in &a.elems {
                    match x {
                        syn::Expr::Lit(l) => match &l.lit {
                            syn::Lit::Int(i) => v.push(i.base10_parse::<u8>().map_err(|e| e.to_string())?),
                            syn::Lit::Byte(b) => v.push(b.value()),
                            _ => return Err("tag literal".into()),
                        },
                        _ => return Err("tag literal".into()),
                    }
                }
                Ok(arr(&v))
            }
            _ => Err("tag that is not a literal".into()),
        }
    }

    /// a loop counting the leading bytes of `i` that satisfy `pred`; `tail` uses the count
    fn count(&mut self, pred: &syn::Expr, negate: bool, i: &syn::Ident, tail: impl FnOnce(&syn::Ident, &syn::Ident) -> syn::Expr) -> Res<syn::Expr> {
        self.loops += 1;
        let k = self.loops;
        let (t, kk, c) = (format_ident!("__t{}", k), format_ident!("__k{}", k), format_ident!("__b{}", k));
        let cond = self.apply(pred, &parse_quote!(#c))?;
        let stop: syn::Expr = if negate { cond } else { parse_quote!(!(#cond)) };
        let e = tail(&t, &kk);
        Ok(parse_quote!({
            let #t = #i;
            let mut #kk: usize = 0;
            while #kk < #t.len() {
                let #c = #t[#kk];
                if #stop { break; }
                #kk = #kk + 1;
            }
            #e
        }))
    }

    /// P applied to the input in identifier `i`
    fn comp(&mut self, p: &syn::Expr, i: &syn::Ident) -> Res<syn::Expr> {
        let p = unparen(p).clone();
        match &p {
            syn::Expr::Path(path) => {
                if let Some(n) = self.nom_fn(&p) {
                    let mode = if n.contains("complete") { "c" } else { "s" };
                    let last = n.rsplit("::").next().unwrap().to_string();
                    if n.starts_with("number::") && ["be_u8", "le_u8", "u8", "le_u16", "le_u32", "be_u16", "be_u32"].contains(&last.as_str()) {
                        let f = format_ident!("nom_{}_{}", last, mode);
                        return Ok(parse_quote!(#f(#i)));
                    }
                    // runs of a kind of byte
                    if n.starts_with("character::") && (last == "digit0" || last == "digit1") {
                        let f = format_ident!("nom_take_while{}_{}", last.trim_start_matches("digit").trim_start_matches('0'), mode);
                        return self.count(&parse_quote!(|__d: u8| nom_is_digit(__d)), false, i, |t, kk| parse_quote!(#f(#t, #kk)));
                    }
                    if n == "combinator::rest" {
                        return Ok(parse_quote!(nom_take_c(#i, #i.len())));
                    }
                    if n == "combinator::eof" {
                        return Ok(parse_quote!(if #i.len() == 0 { Ok((#i, #i)) } else { Err(PErr::Error) }));
                    }
                    return Err(format!("nom parser {} is not modelled", n));
                }
                Ok(parse_quote!(#path(#i)))
            }
            syn::Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => {
                let (a, b) = ((*m.receiver).clone(), m.args[0].clone());
                self.map(&a, &b, i)
            }
            syn::Expr::MethodCall(m) if m.method == "or" && m.args.len() == 1 => {
                let (a, b) = ((*m.receiver).clone(), m.args[0].clone());
                self.comp(&parse_quote!(nom::branch::alt((#a, #b))), i)
            }
            syn::Expr::MethodCall(m) if m.method == "and" && m.args.len() == 1 => {
                let (a, b) = ((*m.receiver).clone(), m.args[0].clone());
                self.seq(&[a, b], i)
            }
            syn::Expr::Call(c) => {
                if let Some(b) = self.built(c) {
                    return self.comp(&b, i);
                }
                let Some(n) = self.nom_fn(&c.func) else { return Err("parser built by a function that is not nom's".into()) };
                let args: Vec<syn::Expr> = c.args.iter().cloned().collect();
                let last = n.rsplit("::").next().unwrap().to_string();
                let stream = n.contains("streaming");
                let mode = if stream { "s" } else { "c" };
                let k = self.id();
                let (r, o) = (format_ident!("__r{}", k), format_ident!("__o{}", k));
                let want = |n: usize| if args.len() == n { Ok(()) } else { Err(format!("{} with {} arguments", last, args.len())) };
                match (n.split("::").next().unwrap(), last.as_str()) {
                    ("bytes", "tag") | ("bytes", "tag_no_case") => {
                        want(1)?;
                        let f = format_ident!("nom_{}_{}", last, mode);
                        let l = self.bytes_lit(&args[0])?;
                        Ok(parse_quote!(#f(#i, #l)))
                    }
                    ("bytes", "take_until1") | ("bytes", "take_until") => {
                        want(1)?;
                        let f = format_ident!("nom_{}_{}", last, mode);
                        let l = self.bytes_lit(&args[0])?;
                        Ok(parse_quote!(#f(#i, #l)))
                    }
                    ("bytes", "take") => {
                        want(1)?;
                        let f = format_ident!("nom_take_{}", mode);
                        let a = &args[0];
                        Ok(parse_quote!(#f(#i, (#a) as usize)))
                    }
                    ("bytes", "take_while_m_n") => {
                        want(3)?;
                        let f = format_ident!("nom_take_while_m_n_{}", mode);
                        let (a, b) = (args[0].clone(), args[1].clone());
                        self.count(&args[2], false, i, |t, kk| parse_quote!(#f(#t, #a, #b, #kk)))
                    }
                    ("bytes", "take_while") | ("bytes", "take_while1") => {
                        want(1)?;
                        let f = format_ident!("nom_{}_{}", last, mode);
                        self.count(&args[0], false, i, |t, kk| parse_quote!(#f(#t, #kk)))
                    }
                    ("bytes", "take_till") | ("bytes", "take_till1") => {
                        want(1)?;
                        let f = format_ident!("nom_{}_{}", last.replace("till", "while"), mode);
                        self.count(&args[0], true, i, |t, kk| parse_quote!(#f(#t, #kk)))
                    }
                    // one character: as the word of one byte
                    ("character", "char") => {
                        want(1)?;
                        let b = match unparen(&args[0]) {
                            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(ch), .. }) if (ch.value() as u32) < 0x80 => ch.value(),
                            _ => return Err("character that is not a literal".into()),
                        };
                        let f = format_ident!("nom_tag_{}", mode);
                        let t = proc_macro2::Literal::u8_suffixed(b as u8);
                        Ok(parse_quote!(match #f(#i, [#t]) { Ok((#r, _)) => Ok((#r, #b)), Err(__e) => Err(__e) }))
                    }
                    ("combinator", "map") => {
                        want(2)?;
                        self.map(&args[0], &args[1], i)
                    }
                    ("combinator", "map_res") | ("combinator", "map_opt") => {
                        want(2)?;
                        let a = self.comp(&args[0], i)?;
                        let v = self.apply(&args[1], &parse_quote!(#o))?;
                        Ok(if last == "map_res" {
                            parse_quote!(match #a { Ok((#r, #o)) => match #v { Ok(__v) => Ok((#r, __v)), Err(_) => Err(PErr::Error) }, Err(__e) => Err(__e) })
                        } else {
                            parse_quote!(match #a { Ok((#r, #o)) => match #v { Some(__v) => Ok((#r, __v)), None => Err(PErr::Error) }, Err(__e) => Err(__e) })
                        })
                    }
                    ("combinator", "verify") => {
                        want(2)?;
                        let a = self.comp(&args[0], i)?;
                        let v = self.apply_ref(&args[1], &o)?;
                        Ok(parse_quote!(match #a { Ok((#r, #o)) => { let __ok = #v; if __ok { Ok((#r, #o)) } else { Err(PErr::Error) } } Err(__e) => Err(__e) }))
                    }
                    ("combinator", "value") => {
                        want(2)?;
                        let a = self.comp(&args[1], i)?;
                        let v = &args[0];
                        Ok(parse_quote!(match #a { Ok((#r, _)) => Ok((#r, #v)), Err(__e) => Err(__e) }))
                    }
                    ("combinator", "opt") => {
                        want(1)?;
                        let a = self.comp(&args[0], i)?;
                        Ok(parse_quote!(match #a { Ok((#r, #o)) => Ok((#r, Some(#o))), Err(PErr::Error) => Ok((#i, None)), Err(__e) => Err(__e) }))
                    }
                    ("combinator", "all_consuming") => {
                        want(1)?;
                        let a = self.comp(&args[0], i)?;
                        Ok(parse_quote!(match #a { Ok((#r, #o)) => if #r.len() == 0 { Ok((#r, #o)) } else { Err(PErr::Error) }, Err(__e) => Err(__e) }))
                    }
                    ("combinator", "complete") => {
                        want(1)?;
                        let a = self.comp(&args[0], i)?;
                        Ok(parse_quote!(match #a { Ok((#r, #o)) => Ok((#r, #o)), Err(PErr::Incomplete(_)) => Err(PErr::Error), Err(__e) => Err(__e) }))
                    }
                    ("combinator", "cut") => {
                        want(1)?;
                        let a = self.comp(&args[0], i)?;
                        Ok(parse_quote!(match #a { Ok((#r, #o)) => Ok((#r, #o)), Err(PErr::Error) => Err(PErr::Failure), Err(__e) => Err(__e) }))
                    }
                    ("combinator", "not") => {
                        want(1)?;
                        let a = self.comp(&args[0], i)?;
                        Ok(parse_quote!(match #a { Ok((#r, #o)) => Err(PErr::Error), Err(PErr::Error) => Ok((#i, ())), Err(__e) => Err(__e) }))
                    }
                    ("combinator", "peek") => {
                        want(1)?;
                        let a = self.comp(&args[0], i)?;
                        Ok(parse_quote!(match #a { Ok((#r, #o)) => Ok((#i, #o)), Err(__e) => Err(__e) }))
                    }
                    ("error", "context") => {
                        want(2)?;
                        self.comp(&args[1], i)
                    }
                    ("sequence", "preceded") => {
                        want(2)?;
                        let a = self.comp(&args[0], i)?;
                        let b = self.comp(&args[1], &r)?;
                        Ok(parse_quote!(match #a { Ok((#r, _)) => #b, Err(__e) => Err(__e) }))
                    }
                    ("sequence", "terminated") => {
                        want(2)?;
                        let a = self.comp(&args[0], i)?;
                        let b = self.comp(&args[1], &r)?;
                        Ok(parse_quote!(match #a { Ok((#r, #o)) => match #b { Ok((__q, _)) => Ok((__q, #o)), Err(__e) => Err(__e) }, Err(__e) => Err(__e) }))
                    }
                    ("sequence", "delimited") => {
                        want(3)?;
                        let k2 = self.id();
                        let r2 = format_ident!("__r{}", k2);
                        let a = self.comp(&args[0], i)?;
                        let b = self.comp(&args[1], &r)?;
                        let c = self.comp(&args[2], &r2)?;
                        Ok(parse_quote!(match #a { Ok((#r, _)) => match #b { Ok((#r2, #o)) => match #c { Ok((__q, _)) => Ok((__q, #o)), Err(__e) => Err(__e) }, Err(__e) => Err(__e) }, Err(__e) => Err(__e) }))
                    }
                    ("sequence", "separated_pair") => {
                        want(3)?;
                        let k2 = self.id();
                        let (r2, o2) = (format_ident!("__r{}", k2), format_ident!("__o{}", k2));
                        let a = self.comp(&args[0], i)?;
                        let b = self.comp(&args[1], &r)?;
                        let c = self.comp(&args[2], &r2)?;
                        Ok(parse_quote!(match #a { Ok((#r, #o)) => match #b { Ok((#r2, _)) => match #c { Ok((__q, #o2)) => Ok((__q, (#o, #o2))), Err(__e) => Err(__e) }, Err(__e) => Err(__e) }, Err(__e) => Err(__e) }))
                    }
                    ("sequence", "pair") => {
                        want(2)?;
                        self.seq(&args, i)
                    }
                    ("sequence", "tuple") => {
                        want(1)?;
                        match unparen(&args[0]) {
                            syn::Expr::Tuple(t) => {
                                let v: Vec<syn::Expr> = t.elems.iter().cloned().collect();
                                self.seq(&v, i)
                            }
                            _ => Err("tuple of something else".into()),
                        }
                    }
                    ("branch", "alt") => {
                        want(1)?;
                        match unparen(&args[0]) {
                            syn::Expr::Tuple(t) => {
                                let mut out: syn::Expr = parse_quote!(Err(PErr::Error));
                                let n = t.elems.len();
                                for (ix, e) in t.elems.iter().enumerate().rev() {
                                    let a = self.comp(e, i)?;
                                    out = if ix + 1 == n { a } else { parse_quote!(match #a { Err(PErr::Error) => #out, __x => __x }) };
                                }
                                Ok(out)
                            }
                            _ => Err("alt of something else".into()),
                        }
                    }
                    ("multi", "many_till") => {
                        want(2)?;
                        self.loops += 1;
                        let l = self.loops;
                        let (v, t, res) = (format_ident!("__v{}", l), format_ident!("__t{}", l), format_ident!("__res{}", l));
                        let a = self.comp(&args[0], &t)?;
                        let b = self.comp(&args[1], &t)?;
                        Ok(parse_quote!({
                            let mut #v = Vec::new();
                            let mut #t = #i;
                            let mut #res = None;
                            loop {
                                match #b {
                                    Ok((#r, #o)) => { #res = Some(Ok((#r, #o))); break; }
                                    Err(PErr::Error) => {
                                        match #a {
                                            Ok((#r, #o)) => {
                                                if #r.len() == #t.len() { #res = Some(Err(PErr::Error)); break; }
                                                #v.push(#o);
                                                #t = #r;
                                            }
                                            Err(__e) => { #res = Some(Err(__e)); break; }
                                        }
                                    }
                                    Err(__e) => { #res = Some(Err(__e)); break; }
                                }
                            }
                            match #res {
                                Some(Ok((#r, #o))) => Ok((#r, (#v, #o))),
                                Some(Err(__e)) => Err(__e),
                                None => Err(PErr::Error),
                            }
                        }))
                    }
                    _ => Err(format!("nom combinator {} is not modelled", n)),
                }
            }
            // a closure over the input
            syn::Expr::Closure(_) => self.apply(&p, &parse_quote!(#i)),
            _ => Err("parser expression not understood".into()),
        }
    }
    fn map(&mut self, p: &syn::Expr, f: &syn::Expr, i: &syn::Ident) -> Res<syn::Expr> {
        let k = self.id();
        let (r, o) = (format_ident!("__r{}", k), format_ident!("__o{}", k));
        let a = self.comp(p, i)?;
        let v = self.apply(f, &parse_quote!(#o))?;
        Ok(parse_quote!(match #a { Ok((#r, #o)) => Ok((#r, #v)), Err(__e) => Err(__e) }))
    }
    fn seq(&mut self, v: &[syn::Expr], i: &syn::Ident) -> Res<syn::Expr> {
        let mut names = vec![];
        let mut parts = vec![];
        let mut cur = i.clone();
        for e in v {
            let a = self.comp(e, &cur)?;
            let k = self.id();
            let (r, o) = (format_ident!("__r{}", k), format_ident!("__o{}", k));
            parts.push((a, r.clone(), o.clone()));
            names.push(o);
            cur = r;
        }
        let mut out: syn::Expr = parse_quote!(Ok((#cur, (#(#names),*))));
        for (a, r, o) in parts.into_iter().rev() {
            out = parse_quote!(match #a { Ok((#r, #o)) => #out, Err(__e) => Err(__e) });
        }
        Ok(out)
    }
}

impl<'a> VisitMut for Nom<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // parser.parse(data)
        if let syn::Expr::MethodCall(m) = e {
            if m.method == "parse" && m.args.len() == 1 && self.is_parser(&m.receiver) {
                let (f, a) = (&m.receiver, &m.args[0]);
                *e = parse_quote!((#f)(#a));
            }
        }
        if let syn::Expr::Call(c) = e {
            if c.args.len() == 1 && self.is_parser(&c.func) && (!matches!(unparen(&c.func), syn::Expr::Path(_)) || self.nom_fn(&c.func).map(|n| n.starts_with("number::")).unwrap_or(false)) {
                let k = self.id();
                let d = format_ident!("__d{}", k);
                match self.comp(&c.func.clone(), &d) {
                    Ok(x) => {
                        let a = &c.args[0];
                        *e = parse_quote!({ let #d = #a; #x });
                    }
                    Err(m) => {
                        self.err.get_or_insert(m);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// IResult<I, O, ..> in a signature
struct Ires;
impl VisitMut for Ires {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            let s = p.path.segments.last().unwrap();
            if s.ident == "IResult" {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    let v: Vec<&syn::GenericArgument> = a.args.iter().collect();
                    if v.len() >= 2 {
                        let (i, o) = (v[0], v[1]);
                        *t = syn::parse2(quote!(Result<(#i, #o), PErr>)).unwrap();
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// nom::Err and nom::Needed; what an error carries is dropped
struct Errs<'a, 'b> {
    n: &'b Nom<'a>,
}
impl Errs<'_, '_> {
    fn known(&self, p: &syn::Path) -> Option<syn::Path> {
        Some(match self.n.resolve(p).as_str() {
            "nom::Err::Incomplete" => parse_quote!(PErr::Incomplete),
            "nom::Err::Error" => parse_quote!(PErr::Error),
            "nom::Err::Failure" => parse_quote!(PErr::Failure),
            "nom::Needed::Unknown" => parse_quote!(Needed::Unknown),
            "nom::Needed::Size" => parse_quote!(Needed::Size),
            "nom::Needed::new" => parse_quote!(needed_new),
            _ => return None,
        })
    }
}
impl VisitMut for Errs<'_, '_> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Call(c) = e {
            if let syn::Expr::Path(p) = &*c.func {
                if let Some(k) = self.known(&p.path) {
                    let t = k.to_token_stream().to_string().replace(' ', "");
                    if t == "PErr::Error" || t == "PErr::Failure" {
                        *e = parse_quote!(#k);
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        if let syn::Pat::TupleStruct(t) = p {
            if let Some(k) = self.known(&t.path) {
                let s = k.to_token_stream().to_string().replace(' ', "");
                if (s == "PErr::Error" || s == "PErr::Failure") && t.elems.iter().all(|e| matches!(e, syn::Pat::Wild(_) | syn::Pat::Rest(_))) {
                    *p = syn::Pat::Path(syn::ExprPath { attrs: vec![], qself: None, path: k });
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let Some(k) = self.known(p) {
            *p = k;
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// `let p = PARSER;` and `let f = |..| ..;` (used in a parser): the parser or closure stands where the name does
struct Named<'a, 'b> {
    n: &'b Nom<'a>,
    muts: std::collections::BTreeSet<String>,
}
struct Subst {
    name: String,
    with: syn::Expr,
    hits: usize,
    shadowed: bool,
    outside: bool, // used elsewhere than called or handed to a parser
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Path(p) = e {
            if p.path.is_ident(&self.name) {
                self.hits += 1;
                let w = &self.with;
                *e = parse_quote!(#w);
                return;
            }
        }
        // &mut p handed to a combinator
        if let syn::Expr::Reference(r) = e {
            if matches!(&*r.expr, syn::Expr::Path(p) if p.path.is_ident(&self.name)) {
                self.hits += 1;
                let w = &self.with;
                *e = parse_quote!(#w);
                return;
            }
        }
        if let syn::Expr::Macro(m) = e {
            if m.mac.tokens.to_string().contains(&self.name) {
                self.outside = true;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if p.ident == self.name {
            self.shadowed = true;
        }
    }
}
struct Muts(std::collections::BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Muts {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        if p.mutability.is_some() {
            self.0.insert(p.ident.to_string());
        }
    }
}
fn names(t: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for tt in t {
        match tt {
            proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
            proc_macro2::TokenTree::Group(g) => names(g.stream(), out),
            _ => {}
        }
    }
}
/// numbers read from text: s.parse::<T>() is T::from_str_radix(s, 10); what is done with the result is a match
struct Numbers;
fn is_radix(e: &syn::Expr) -> bool {
    match unparen(e) {
        syn::Expr::Call(c) => c.func.to_token_stream().to_string().ends_with("from_str_radix"),
        syn::Expr::Match(m) => is_radix(&m.expr),
        _ => false,
    }
}
impl VisitMut for Numbers {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Path(p) = e {
            let t = p.to_token_stream().to_string().replace(' ', "");
            if let Some(ty) = t.strip_prefix("str::parse::<").and_then(|t| t.strip_suffix('>')) {
                if ["u8", "u16", "u32", "u64", "usize"].contains(&ty) {
                    let ty = format_ident!("{}", ty);
                    *e = parse_quote!(|__s| #ty::from_str_radix(__s, 10));
                }
            }
            return;
        }
        let syn::Expr::MethodCall(m) = e else { return };
        if m.method == "parse" && m.args.is_empty() {
            if let Some(t) = &m.turbofish {
                if t.args.len() == 1 && ["u8", "u16", "u32", "u64", "usize"].contains(&t.args[0].to_token_stream().to_string().as_str()) {
                    let (ty, r) = (&t.args[0], &m.receiver);
                    *e = parse_quote!(#ty::from_str_radix(#r, 10));
                }
            }
            return;
        }
        if m.args.len() != 1 || !is_radix(&m.receiver) {
            return;
        }
        let syn::Expr::Closure(c) = unparen(&m.args[0]) else { return };
        if c.inputs.len() != 1 || crate::straight::early(&c.body) {
            return;
        }
        let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
        *e = match m.method.to_string().as_str() {
            "map" => parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) }),
            "and_then" => parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) }),
            "map_err" => parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }),
            _ => return,
        };
    }
}
/// a closure that is called on the spot
struct Beta;
impl VisitMut for Beta {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Call(c) = e {
            if let syn::Expr::Closure(f) = unparen(&c.func) {
                let t = f.body.to_token_stream().to_string();
                if f.inputs.len() == c.args.len() && f.asyncness.is_none() && !t.contains("return") && !t.contains('?') {
                    let body = &f.body;
                    let args: Vec<&syn::Expr> = c.args.iter().collect();
                    let pats: Vec<syn::Pat> = f.inputs.iter().cloned().collect();
                    // the arguments first: a parameter's name may occur in them
                    let tmp: Vec<syn::Ident> = (0..args.len()).map(|k| format_ident!("__beta{}", k)).collect();
                    *e = parse_quote!({ #(let #tmp = #args;)* #(let #pats = #tmp;)* #body });
                }
            }
        }
    }
}
impl VisitMut for Named<'_, '_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut k = 0;
        while k < b.stmts.len() {
            let bound = match &b.stmts[k] {
                syn::Stmt::Local(l) => match (&l.pat, &l.init) {
                    (syn::Pat::Ident(p), Some(i)) if i.diverge.is_none() && p.by_ref.is_none() && p.subpat.is_none() => {
                        let x = unparen(&i.expr).clone();
                        let parser = matches!(&x, syn::Expr::Call(_) | syn::Expr::MethodCall(_)) && self.n.is_parser(&x) && !matches!(&x, syn::Expr::Call(c) if self.n.nom_fn(&c.func).map_or(true, |n| n.starts_with("number::")));
                        let closure = matches!(&x, syn::Expr::Closure(_));
                        (parser || closure).then(|| (p.ident.to_string(), x, parser))
                    }
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, with, parser)) = bound {
                let mut free = vec![];
                names(with.to_token_stream(), &mut free);
                let mut rest = syn::Block { brace_token: b.brace_token, stmts: b.stmts[k + 1..].to_vec() };
                let mut s = Subst { name: name.clone(), with, hits: 0, shadowed: false, outside: false };
                s.visit_block_mut(&mut rest);
                let stable = free.iter().all(|f| *f == name || !self.muts.contains(f));
                if stable && !s.shadowed && !s.outside && s.hits > 0 && (parser || rest.to_token_stream().to_string().contains("nom")) {
                    if !parser {
                        Beta.visit_block_mut(&mut rest);
                    }
                    b.stmts.truncate(k);
                    b.stmts.extend(rest.stmts);
                    continue;
                }
            }
            k += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}

pub fn desugar(f: &mut FnItem, builders: &Builders) -> Res<()> {
    let uses = f.uses.clone();
    let mut n = Nom { builders, uses: &uses, n: 0, loops: 0, err: None };
    let mut m = Muts(Default::default());
    syn::visit::Visit::visit_block(&mut m, &f.block);
    Named { n: &n, muts: m.0 }.visit_block_mut(&mut f.block);
    Errs { n: &n }.visit_block_mut(&mut f.block);
    Numbers.visit_block_mut(&mut f.block);
    n.visit_block_mut(&mut f.block);
    if let Some(e) = n.err {
        return Err(format!("{}: {}", f.key, e));
    }
    Ires.visit_signature_mut(&mut f.sig);
    Ires.visit_block_mut(&mut f.block);
    let _ = f.sig.to_token_stream();
    Ok(())
}
