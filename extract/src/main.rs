//! Mechanical extractor: reads the Rust sources under a repository root, selects the functions a unit
//! spec names (and every const, struct and enum they mention), rewrites them into the subset Verus
//! accepts, splices the unit's contracts at structural anchors, and prints one Verus file.
//!
//! usage: plusendi-extract REPO UNIT.vspec OUT.rs
//! exit 0: written; exit 3: the sources no longer have the structure the unit is anchored to
//! (message on stderr).

mod asyncp;
mod nomp;
mod straight;
mod passes;
mod print;
mod regexp;
mod spec;
mod worldp;

use passes::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

pub type Res<T> = Result<T, String>;

#[derive(Clone)]
pub struct FnItem {
    pub key: String,
    pub self_ty: Option<syn::ItemImpl>, // impl header (items emptied)
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub vis: syn::Visibility,
    pub is_drop: bool,
    pub trait_name: Option<String>,
    pub uses: std::rc::Rc<nomp::Uses>,
}

#[derive(Default)]
pub struct Sources {
    pub fns: BTreeMap<String, FnItem>,
    pub order: Vec<String>,
    pub consts: BTreeMap<String, syn::Item>,
    pub types: BTreeMap<String, syn::Item>,
    pub item_order: Vec<String>,
    pub bad: BTreeMap<String, String>,
    pub drops: BTreeSet<String>, // type names with a Drop impl
    pub uses: std::rc::Rc<nomp::Uses>,
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

fn cfg_skip(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = a.meta.to_token_stream().to_string().replace(' ', "");
        s.contains("(test)") || s.contains("plusendi_verif")
    })
}

/// items inside a function's body stand beside it (a name already taken is left alone and will not be found)
fn nested(block: &syn::Block, s: &mut Sources) -> (syn::Block, std::rc::Rc<nomp::Uses>) {
    let mut b = block.clone();
    let mut inner = vec![];
    let mut uses: Option<nomp::Uses> = None;
    b.stmts.retain(|st| match st {
        syn::Stmt::Item(syn::Item::Use(u)) => {
            nomp::collect_uses(&u.tree, "", uses.get_or_insert_with(|| (*s.uses).clone()));
            false
        }
        syn::Stmt::Item(it) => {
            inner.push(it.clone());
            false
        }
        _ => true,
    });
    let old = s.uses.clone();
    if let Some(u) = uses {
        s.uses = std::rc::Rc::new(u);
    }
    if !inner.is_empty() {
        collect(&inner, s);
    }
    let r = (b, s.uses.clone());
    s.uses = old;
    r
}

fn collect(items: &[syn::Item], s: &mut Sources) {
    for it in items {
        match it {
            syn::Item::Const(c) if !cfg_skip(&c.attrs) => {
                s.item_order.push(c.ident.to_string());
                s.consts.insert(c.ident.to_string(), it.clone());
            }
            syn::Item::Static(c) if !cfg_skip(&c.attrs) => {
                s.item_order.push(c.ident.to_string());
                s.consts.insert(c.ident.to_string(), it.clone());
            }
            syn::Item::Struct(c) if !cfg_skip(&c.attrs) => {
                s.item_order.push(c.ident.to_string());
                s.types.insert(c.ident.to_string(), it.clone());
            }
            syn::Item::Enum(c) if !cfg_skip(&c.attrs) => {
                s.item_order.push(c.ident.to_string());
                s.types.insert(c.ident.to_string(), it.clone());
            }
            syn::Item::Type(c) if !cfg_skip(&c.attrs) => {
                s.item_order.push(c.ident.to_string());
                s.types.insert(c.ident.to_string(), it.clone());
            }
            syn::Item::Fn(f) if !cfg_skip(&f.attrs) => {
                let key = f.sig.ident.to_string();
                let (block, uses) = nested(&f.block, s);
                s.order.push(key.clone());
                s.fns.insert(
                    key.clone(),
                    FnItem {
                        key,
                        self_ty: None,
                        sig: f.sig.clone(),
                        block,
                        vis: f.vis.clone(),
                        is_drop: false,
                        trait_name: None,
                        uses,
                    },
                );
            }
            syn::Item::Impl(im) if !cfg_skip(&im.attrs) => {
                let tn = ty_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                let is_drop = tr.as_deref() == Some("Drop");
                if is_drop {
                    s.drops.insert(tn.clone());
                }
                let mut hdr = im.clone();
                hdr.items.clear();
                hdr.attrs.clear();
                for ii in &im.items {
                    match ii {
                        syn::ImplItem::Fn(m) if !cfg_skip(&m.attrs) => {
                            let key = match &tr {
                                None => format!("{}::{}", tn, m.sig.ident),
                                Some(t) => format!("{}::<{}>::{}", tn, t, m.sig.ident),
                            };
                            // impls of a generic trait for several arguments are told apart by the arguments
                            let key = match (s.fns.contains_key(&key), &im.trait_) {
                                (true, Some((_, p, _))) => match &p.segments.last().unwrap().arguments {
                                    syn::PathArguments::AngleBracketed(a) => format!("{}::<{}<{}>>::{}", tn, tr.as_ref().unwrap(), a.args.to_token_stream().to_string().replace(' ', ""), m.sig.ident),
                                    _ => key,
                                },
                                _ => key,
                            };
                            let (block, uses) = nested(&m.block, s);
                            s.order.push(key.clone());
                            s.fns.insert(
                                key.clone(),
                                FnItem {
                                    key,
                                    self_ty: Some(hdr.clone()),
                                    sig: m.sig.clone(),
                                    block,
                                    vis: m.vis.clone(),
                                    is_drop,
                                    trait_name: tr.clone(),
                                    uses,
                                },
                            );
                        }
                        syn::ImplItem::Const(c) => {
                            // associated constants are lifted to module constants by name Type__NAME
                            let name = format!("{}__{}", tn, c.ident);
                            let ci: syn::Item = syn::Item::Const(syn::ItemConst {
                                attrs: vec![],
                                vis: c.vis.clone(),
                                const_token: c.const_token,
                                ident: syn::Ident::new(&name, c.ident.span()),
                                generics: c.generics.clone(),
                                colon_token: c.colon_token,
                                ty: Box::new(c.ty.clone()),
                                eq_token: c.eq_token,
                                expr: Box::new(c.expr.clone()),
                                semi_token: c.semi_token,
                            });
                            s.item_order.push(name.clone());
                            s.consts.insert(name, ci);
                        }
                        _ => {}
                    }
                }
            }
            syn::Item::Mod(m) if !cfg_skip(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    collect(its, s);
                }
            }
            _ => {}
        }
    }
}

/// what the compiler makes of the macros of a module: the items that are not written in the sources read so far
fn expanded(repo: &std::path::Path, module: &str, s: &mut Sources) -> Res<()> {
    let dir = std::env::var("PLUSENDI_EXPAND_DIR").unwrap_or_else(|_| "/tmp/plusendi-expand".into());
    let o = std::process::Command::new("cargo")
        .args(["rustc", "--offline", "--locked", "--lib", "-q", "--", "-Zunpretty=expanded", "-Awarnings"])
        .current_dir(repo)
        .env("RUSTC_BOOTSTRAP", "1")
        .env("CARGO_TARGET_DIR", &dir)
        .env_remove("RUSTFLAGS")
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("macro expansion: {}", String::from_utf8_lossy(&o.stderr)));
    }
    let text = String::from_utf8_lossy(&o.stdout);
    let file = syn::parse_file(&text).map_err(|e| format!("expanded text: {}", e))?;
    let mut t = Sources { uses: s.uses.clone(), ..Default::default() };
    for it in &file.items {
        if let syn::Item::Mod(m) = it {
            if m.ident == module {
                collect(&m.content.as_ref().ok_or("module without content")?.1, &mut t);
            }
        }
    }
    for k in t.order {
        if !s.fns.contains_key(&k) {
            s.fns.insert(k.clone(), t.fns[&k].clone());
            s.order.push(k);
        }
    }
    for k in t.item_order {
        if let (Some(i), false) = (t.types.get(&k), s.consts.contains_key(&k)) {
            // a type a macro attribute rewrites is what it is rewritten to
            if s.types.insert(k.clone(), i.clone()).is_none() {
                s.item_order.push(k);
            }
        }
    }
    Ok(())
}

struct Idents(BTreeSet<String>);
impl Idents {
    fn tokens(&mut self, t: proc_macro2::TokenStream) {
        for tt in t {
            match tt {
                proc_macro2::TokenTree::Ident(i) => {
                    self.0.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()),
                _ => {}
            }
        }
    }
}

fn run() -> Res<()> {
    let args: Vec<String> = std::env::args().collect();
    if args.len() != 4 {
        return Err("usage: plusendi-extract REPO UNIT.vspec OUT.rs".into());
    }
    let repo = std::path::Path::new(&args[1]);
    let unit_path = std::path::Path::new(&args[2]);
    let unit = spec::parse(unit_path)?;
    let mut src = Sources::default();
    for f in &unit.sources {
        if let Some(module) = f.strip_prefix("expanded:") {
            expanded(repo, module, &mut src)?;
            continue;
        }
        let p = repo.join(f);
        let text = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?;
        let file = syn::parse_file(&text).map_err(|e| format!("{}: parse error: {}", p.display(), e))?;
        let mut uses = nomp::Uses::new();
        for it in &file.items {
            if let syn::Item::Use(u) = it {
                nomp::collect_uses(&u.tree, "", &mut uses);
            }
        }
        src.uses = std::rc::Rc::new(uses);
        collect(&file.items, &mut src);
    }

    for f in src.fns.values_mut() {
        Matches.visit_block_mut(&mut f.block);
    }
    let mut regexes = String::new();
    if unit.opts.contains("regex") {
        regexes = regexp::rewrite(&mut src)?;
        for f in &unit.fns {
            if let Some(e) = src.bad.get(&f.key) {
                return Err(e.clone());
            }
        }
    }
    worldp::lift(&mut src, &unit)?;
    if unit.opts.contains("pin") {
        for f in src.fns.values_mut() {
            worldp::unpin(f);
        }
    }
    if unit.opts.contains("lazily") {
        for f in src.fns.values_mut() {
            syn::visit_mut::VisitMut::visit_block_mut(&mut worldp::Lazily, &mut f.block);
        }
    }
    let (asyn, fmt) = (unit.opts.contains("async"), unit.opts.contains("fmt"));
    if asyn || fmt {
        for f in src.fns.values_mut() {
            if let Err(e) = asyncp::sequential(f, asyn, fmt) {
                src.bad.insert(f.key.clone(), e);
            }
        }
        for f in &unit.fns {
            if let Some(e) = src.bad.get(&f.key) {
                return Err(e.clone());
            }
        }
    }
    if unit.opts.contains("owned") {
        for fs in &unit.fns {
            if let (None, Some(f)) = (&fs.assumed, src.fns.get_mut(&fs.key)) {
                asyncp::lend(f);
            }
        }
    }
    if unit.opts.contains("nom") {
        // helpers too: they may be inlined. One that cannot be desugared only matters if it is needed.
        let builders = nomp::builders(&src.fns);
        for f in src.fns.values_mut() {
            if let Err(e) = nomp::desugar(f, &builders) {
                src.bad.insert(f.key.clone(), e);
            }
        }
        for f in &unit.fns {
            if let Some(e) = src.bad.get(&f.key) {
                return Err(e.clone());
            }
        }
    }
    // functions under contract
    let mut out_fns: Vec<(FnItem, &spec::FnSpec)> = vec![];
    for fs in &unit.fns {
        let f = src
            .fns
            .get(&fs.key)
            .ok_or_else(|| format!("lost anchor: function {} not found", fs.key))?
            .clone();
        out_fns.push((f, fs));
    }
    let contracted: BTreeSet<String> = unit.fns.iter().map(|f| f.key.clone()).collect();

    let mut ids = Idents(BTreeSet::new());
    let mut printed: Vec<(FnItem, &spec::FnSpec, print::Markers)> = vec![];
    for (mut f, fs) in out_fns {
        let mut m = print::Markers::default();
        transform_fn(&mut f, fs, &unit, &src, &contracted, &mut m).map_err(|e| format!("{}: {}", fs.key, e))?;
        ids.tokens(f.sig.to_token_stream());
        ids.tokens(f.block.to_token_stream());
        if let Some(h) = &f.self_ty {
            ids.tokens(h.self_ty.to_token_stream());
        }
        printed.push((f, fs, m));
    }
    for n in &unit.include {
        ids.0.insert(n.clone());
    }

    // transitive closure of consts and types
    let mut wanted: BTreeSet<String> = BTreeSet::new();
    let mut done: BTreeSet<String> = BTreeSet::new();
    loop {
        let next: Vec<String> = ids
            .0
            .iter()
            .filter(|n| !done.contains(*n) && !unit.exclude.contains(*n) && (src.consts.contains_key(*n) || src.types.contains_key(*n)))
            .cloned()
            .collect();
        if next.is_empty() {
            break;
        }
        for n in next {
            done.insert(n.clone());
            wanted.insert(n.clone());
            let it = src.consts.get(&n).or_else(|| src.types.get(&n)).unwrap();
            let mut it = it.clone();
            strip_item(&mut it, &unit, &src)?;
            ids.tokens(it.to_token_stream());
        }
    }

    let mut out = String::new();
    out.push_str("// GENERATED by plusendi-extract; do not edit.\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_upper_case_globals, unused_parens, unused_braces, unused_assignments, non_snake_case, unreachable_code, unused_must_use, mismatched_lifetime_syntaxes)]\nuse vstd::prelude::*;\nverus! {\n");
    for n in &src.item_order {
        if !wanted.contains(n) {
            continue;
        }
        let orig = src.consts.get(n).or_else(|| src.types.get(n)).unwrap();
        let mut it = orig.clone();
        strip_item(&mut it, &unit, &src)?;
        out.push_str(&print::item(&it, &unit));
        out.push_str(&derived_clone(orig, &it, &unit));
    }
    out.push_str("// ---- prelude ----\n");
    out.push_str(&unit.prelude());
    out.push_str(&unit.local);
    out.push_str(&regexes);
    out.push_str("\n// ---- extracted functions ----\n");
    let mut fns = String::new();
    for (f, fs, m) in &printed {
        fns.push_str(&print::function(f, fs, m, &unit)?);
    }
    if fns.contains("same__") {
        out.push_str(passes::SAME);
    }
    out.push_str(&fns);
    out.push_str("// ---- epilogue ----\n");
    out.push_str(&unit.epilogue);
    out.push_str("\n}\nfn main() {}\n");
    std::fs::write(&args[3], out).map_err(|e| e.to_string())?;
    Ok(())
}

fn main() {
    if let Err(e) = run() {
        eprintln!("EXTRACT: {}", e);
        std::process::exit(3);
    }
}

#[allow(dead_code)]
fn _unused(mut v: impl VisitMut, b: &mut syn::Block) {
    v.visit_block_mut(b);
}
#[allow(dead_code)]
fn _unused2<'a>(mut v: impl Visit<'a>, b: &'a syn::Block) {
    v.visit_block(b);
}
