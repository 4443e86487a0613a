//! opt regex: a regular expression in the sources (`lazy_regex!("..")`, `regex!("..")`, `regex_is_match!("..", e)`,
//! `Lazy::new(|| Regex::new(".."))`, the pattern a literal or a constant) becomes a value of the specification type `Re`
//! (verus/re.rs), read by regex-syntax, the regex crate's own parser, and `X.is_match(e)` a call of `X__is_match(e)`,
//! of which it is assumed that it decides the textbook meaning of that value.
use crate::{Res, Sources};
use quote::{format_ident, ToTokens};
use regex_syntax::hir::{self, HirKind};
use std::collections::BTreeMap;
use syn::parse_quote;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};

fn read(l: &syn::LitStr) -> Res<hir::Hir> {
    let mut b = regex_syntax::ParserBuilder::new();
    for c in l.suffix().chars() {
        match c {
            'i' => { b.case_insensitive(true); }
            'm' => { b.multi_line(true); }
            's' => { b.dot_matches_new_line(true); }
            'x' => { b.ignore_whitespace(true); }
            'U' => { b.swap_greed(true); }
            _ => return Err(format!("regex: flag {}", c)),
        }
    }
    b.build().parse(&l.value()).map_err(|e| format!("regex: {}", e))
}

/// an expression with its groups gone; equal forms of it are made one: neighbours of the same class are added up
/// (`x x*` is `x+`), a choice between classes is their union, a choice with nothing is an option
#[derive(Clone, PartialEq)]
enum Tree {
    Class(Vec<(char, char)>),
    Start,
    End,
    Cat(Vec<Tree>),
    Alt(Vec<Tree>),
    Rep(Box<Tree>, u32, Option<u32>),
}
fn tree(h: &hir::Hir) -> Res<Tree> {
    Ok(match h.kind() {
        HirKind::Empty => Tree::Cat(vec![]),
        HirKind::Literal(hir::Literal::Unicode(c)) => Tree::Class(vec![(*c, *c)]),
        HirKind::Class(hir::Class::Unicode(c)) => Tree::Class(c.iter().map(|r| (r.start(), r.end())).collect()),
        HirKind::Anchor(hir::Anchor::StartText) => Tree::Start,
        HirKind::Anchor(hir::Anchor::EndText) => Tree::End,
        HirKind::Repetition(r) => {
            let (a, b) = match &r.kind {
                hir::RepetitionKind::ZeroOrOne => (0, Some(1)),
                hir::RepetitionKind::ZeroOrMore => (0, None),
                hir::RepetitionKind::OneOrMore => (1, None),
                hir::RepetitionKind::Range(hir::RepetitionRange::Exactly(n)) => (*n, Some(*n)),
                hir::RepetitionKind::Range(hir::RepetitionRange::AtLeast(n)) => (*n, None),
                hir::RepetitionKind::Range(hir::RepetitionRange::Bounded(n, m)) => (*n, Some(*m)),
            };
            rep(tree(&r.hir)?, a, b)
        }
        HirKind::Group(g) => tree(&g.hir)?,
        HirKind::Concat(xs) => {
            let mut v: Vec<Tree> = vec![];
            for x in xs {
                match tree(x)? {
                    Tree::Cat(ys) => ys.into_iter().for_each(|y| follow(&mut v, y)),
                    y => follow(&mut v, y),
                }
            }
            if v.len() == 1 { v.pop().unwrap() } else { Tree::Cat(v) }
        }
        HirKind::Alternation(xs) => {
            let mut v: Vec<Tree> = vec![];
            let mut none = false;
            for x in xs {
                match tree(x)? {
                    Tree::Cat(ys) if ys.is_empty() => none = true,
                    Tree::Alt(ys) => v.extend(ys),
                    y => v.push(y),
                }
            }
            if v.iter().all(|x| matches!(x, Tree::Class(_))) && !v.is_empty() {
                let rs = v.iter().flat_map(|x| match x { Tree::Class(r) => r.clone(), _ => vec![] });
                let c = hir::ClassUnicode::new(rs.map(|(a, b)| hir::ClassUnicodeRange::new(a, b)));
                v = vec![Tree::Class(c.iter().map(|r| (r.start(), r.end())).collect())];
            }
            let x = if v.len() == 1 { v.pop().unwrap() } else { Tree::Alt(v) };
            if none { rep(x, 0, Some(1)) } else { x }
        }
        _ => return Err("regex: construct outside the specification type Re".into()),
    })
}
fn rep(x: Tree, a: u32, b: Option<u32>) -> Tree {
    if (a, b) == (1, Some(1)) { x } else { Tree::Rep(Box::new(x), a, b) }
}
fn follow(v: &mut Vec<Tree>, y: Tree) {
    fn times(t: &Tree) -> Option<(Tree, u32, Option<u32>)> {
        match t {
            Tree::Class(_) => Some((t.clone(), 1, Some(1))),
            Tree::Rep(x, a, b) if matches!(**x, Tree::Class(_)) => Some(((**x).clone(), *a, *b)),
            _ => None,
        }
    }
    if let (Some((x, a, b)), Some((z, c, d))) = (v.last().and_then(times), times(&y)) {
        if x == z {
            v.pop();
            v.push(rep(x, a + c, b.and_then(|b| d.map(|d| b + d))));
            return;
        }
    }
    if matches!(y, Tree::Start | Tree::End) && v.last() == Some(&y) {
        return;
    }
    v.push(y)
}

struct Out {
    name: String,
    classes: String,
    n: usize,
}
fn ch(c: char) -> String {
    format!("'\\u{{{:x}}}'", c as u32)
}
impl Out {
    fn class(&mut self, ranges: &[(char, char)]) -> String {
        let t: Vec<String> = ranges.iter().map(|(a, b)| format!("({} <= c && c <= {})", ch(*a), ch(*b))).collect();
        let k = self.n;
        self.n += 1;
        self.classes.push_str(&format!(
            "pub open spec fn {0}__class{1}() -> spec_fn(char) -> bool {{ |c: char| {2} }}\n",
            self.name,
            k,
            if t.is_empty() { "false".to_string() } else { t.join(" || ") }
        ));
        format!("Re::Class({}__class{}())", self.name, k)
    }
    fn re(&mut self, t: &Tree) -> String {
        match t {
            Tree::Class(r) => self.class(r),
            Tree::Start => "Re::Start".into(),
            Tree::End => "Re::End".into(),
            Tree::Rep(x, a, b) => {
                let x = self.re(x);
                let b = b.map_or("None".to_string(), |b| format!("Some({}nat)", b));
                format!("Re::Rep(Box::new({}), {}nat, {})", x, a, b)
            }
            Tree::Cat(xs) => self.fold("Cat", xs),
            Tree::Alt(xs) => self.fold("Alt", xs),
        }
    }
    fn fold(&mut self, op: &str, xs: &[Tree]) -> String {
        let mut v: Vec<String> = xs.iter().map(|x| self.re(x)).collect();
        let mut e = v.pop().unwrap_or("Re::Empty".into());
        while let Some(x) = v.pop() {
            e = format!("Re::{}(Box::new({}), Box::new({}))", op, x, e);
        }
        e
    }
}

fn emit(name: &str, l: &syn::LitStr) -> Res<String> {
    let h = read(l)?;
    let mut o = Out { name: name.into(), classes: String::new(), n: 0 };
    let e = o.re(&tree(&h)?);
    Ok(format!(
        "{1}pub open spec fn {0}__re() -> Re {{ {2} }}\n#[verifier::external_body] fn {0}__is_match(s: &str) -> (ret: bool) ensures ret == found({0}__re(), s@) {{ unimplemented!() }}\n",
        name, o.classes, e
    ))
}

/// the pattern in the initialiser of a static
struct Find<'a> {
    src: &'a Sources,
    found: Vec<syn::LitStr>,
}
impl Find<'_> {
    fn lit(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) => self.found.push(l.clone()),
            syn::Expr::Reference(r) => self.lit(&r.expr),
            syn::Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                match self.src.consts.get(&n) {
                    Some(syn::Item::Const(c)) => self.lit(&c.expr.clone()),
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
impl<'a> Visit<'a> for Find<'_> {
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if let Some(l) = macro_lit(m) {
            self.found.push(l)
        }
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if s.ends_with(&["Regex".to_string(), "new".to_string()]) && c.args.len() == 1 {
                self.lit(&c.args[0]);
            }
        }
        visit::visit_expr_call(self, c);
    }
}
fn macro_lit(m: &syn::Macro) -> Option<syn::LitStr> {
    let n = m.path.segments.last()?.ident.to_string();
    if n == "lazy_regex" || n == "regex" {
        m.parse_body::<syn::LitStr>().ok()
    } else {
        None
    }
}

struct Rewrite {
    known: BTreeMap<String, String>, // static -> emitted text
    bad: BTreeMap<String, String>,
    out: String,
    used: Vec<String>,
    n: usize,
    err: Option<String>,
}
impl Rewrite {
    fn inline(&mut self, l: &syn::LitStr) -> syn::Ident {
        let name = format!("RE_{}", self.n);
        self.n += 1;
        match emit(&name, l) {
            Ok(t) => self.out.push_str(&t),
            Err(e) => self.err = Some(e),
        }
        format_ident!("{}__is_match", name)
    }
}
impl VisitMut for Rewrite {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            syn::Expr::MethodCall(m) if m.method == "is_match" && m.args.len() == 1 => {
                let arg = m.args[0].clone();
                let mut r = &*m.receiver;
                while let syn::Expr::Reference(syn::ExprReference { expr, .. }) | syn::Expr::Paren(syn::ExprParen { expr, .. }) = r {
                    r = expr;
                }
                match r {
                    syn::Expr::Path(p) => {
                        let n = p.path.segments.last().unwrap().ident.to_string();
                        if let Some(t) = self.known.get(&n) {
                            if !self.used.contains(&n) {
                                self.used.push(n.clone());
                                let t = t.clone();
                                self.out.push_str(&t);
                            }
                            let f = format_ident!("{}__is_match", n);
                            *e = parse_quote!(#f(#arg));
                        } else if let Some(b) = self.bad.get(&n) {
                            self.err = Some(b.clone());
                        }
                    }
                    syn::Expr::Macro(mm) => {
                        if let Some(l) = macro_lit(&mm.mac) {
                            let f = self.inline(&l);
                            *e = parse_quote!(#f(#arg));
                        }
                    }
                    _ => {}
                }
            }
            syn::Expr::Macro(m) if m.mac.path.segments.last().map_or(false, |s| s.ident == "regex_is_match") => {
                let a = m.mac.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
                if let Ok(a) = a {
                    if let (2, Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }))) = (a.len(), a.first()) {
                        let f = self.inline(l);
                        let arg = &a[1];
                        *e = parse_quote!(#f(#arg));
                    }
                }
            }
            _ => {}
        }
    }
}

/// returns the specification text of the expressions used
pub fn rewrite(src: &mut Sources) -> Res<String> {
    let mut known = BTreeMap::new();
    let mut bad = BTreeMap::new();
    for (n, it) in &src.consts {
        if let syn::Item::Static(s) = it {
            if !s.ty.to_token_stream().to_string().contains("Regex") {
                continue;
            }
            let mut f = Find { src, found: vec![] };
            f.visit_expr(&s.expr);
            let r = match f.found.len() {
                1 => emit(n, &f.found[0]),
                _ => Err(format!("regex: no pattern found for {}", n)),
            };
            match r {
                Ok(t) => { known.insert(n.clone(), t); }
                Err(e) => { bad.insert(n.clone(), e); }
            }
        }
    }
    let mut rw = Rewrite { known, bad, out: String::new(), used: vec![], n: 0, err: None };
    for f in src.fns.values_mut() {
        rw.visit_block_mut(&mut f.block);
        if let Some(e) = rw.err.take() {
            src.bad.insert(f.key.clone(), e);
        }
    }
    Ok(rw.out)
}
