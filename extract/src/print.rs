use crate::spec::{FnSpec, Unit};
use crate::{FnItem, Res};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;

/// marker id -> (is header of the enclosing brace group, text)
#[derive(Default)]
pub struct Markers(pub Vec<(bool, String)>);

impl Markers {
    pub fn add(&mut self, header: bool, text: String) -> syn::Stmt {
        let id = self.0.len();
        self.0.push((header, text));
        let lit = proc_macro2::Literal::usize_unsuffixed(id);
        syn::parse_quote!(__m!(#lit);)
    }
}

struct P<'a> {
    out: String,
    fresh: bool,
    indent: usize,
    m: &'a Markers,
}

fn marker_id(ts: &[TokenTree], i: usize) -> Option<usize> {
    if let (Some(TokenTree::Ident(a)), Some(TokenTree::Punct(b)), Some(TokenTree::Group(g))) = (ts.get(i), ts.get(i + 1), ts.get(i + 2)) {
        if a == "__m" && b.as_char() == '!' {
            return g.stream().to_string().trim().parse().ok();
        }
    }
    None
}

impl<'a> P<'a> {
    fn nl(&mut self) {
        if !self.fresh {
            self.out.push('\n');
            self.fresh = true;
        }
    }
    fn word(&mut self, s: &str, joint: bool, line: usize) {
        if self.fresh {
            for _ in 0..self.indent {
                self.out.push_str("  ");
            }
            if line > 1 {
                self.out.push_str(&format!("/*@L{}*/ ", line));
            }
            self.fresh = false;
        }
        self.out.push_str(s);
        if !joint {
            self.out.push(' ');
        }
    }
    fn stream(&mut self, t: TokenStream, in_brace: bool) {
        let ts: Vec<TokenTree> = t.into_iter().collect();
        let mut i = 0;
        while i < ts.len() {
            if let Some(id) = marker_id(&ts, i) {
                let (header, text) = &self.m.0[id];
                if !*header {
                    self.nl();
                    self.out.push_str(text);
                    if !text.ends_with('\n') {
                        self.out.push('\n');
                    }
                    self.fresh = true;
                }
                i += 3;
                if let Some(TokenTree::Punct(p)) = ts.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            match &ts[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        if let Some(id) = marker_id(&inner, 0) {
                            let (header, text) = &self.m.0[id];
                            if *header {
                                self.nl();
                                self.out.push_str(text);
                                if !text.ends_with('\n') {
                                    self.out.push('\n');
                                }
                                self.fresh = true;
                            }
                        }
                        self.word(o, false, 0);
                        self.indent += 1;
                        self.nl();
                        self.stream(g.stream(), true);
                        self.indent -= 1;
                        self.nl();
                        self.word(c, false, 0);
                        let keep = match ts.get(i + 1) {
                            Some(TokenTree::Punct(p)) => matches!(p.as_char(), ';' | ',' | '.' | '?' | ')'),
                            Some(TokenTree::Ident(d)) => d == "else" || d == "as",
                            None => false,
                            _ => false,
                        };
                        if !keep && in_brace {
                            self.nl();
                        }
                    } else {
                        self.word(o, true, g.span_open().start().line);
                        self.stream(g.stream(), false);
                        self.word(c, false, 0);
                    }
                }
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    self.word(&ch.to_string(), p.spacing() == Spacing::Joint, p.span().start().line);
                    if ch == ';' && in_brace {
                        self.nl();
                    }
                    if ch == ',' && in_brace {
                        self.nl();
                    }
                }
                TokenTree::Ident(id) => self.word(&id.to_string(), false, id.span().start().line),
                TokenTree::Literal(l) => self.word(&l.to_string(), false, l.span().start().line),
            }
            i += 1;
        }
    }
}

pub fn tokens(t: TokenStream, m: &Markers, indent: usize) -> String {
    let mut p = P { out: String::new(), fresh: true, indent, m };
    p.stream(t, true);
    p.nl();
    p.out
}

pub fn item(it: &syn::Item, _u: &Unit) -> String {
    let m = Markers::default();
    let mut p = P { out: String::new(), fresh: true, indent: 0, m: &m };
    p.stream(it.to_token_stream(), false);
    p.nl();
    p.out
}

pub fn function(f: &FnItem, fs: &FnSpec, m: &Markers, _u: &Unit) -> Res<String> {
    let mut out = String::new();
    match &fs.assumed {
        None => out.push_str(&format!("// @FN {}\n", f.key)),
        Some(u) => out.push_str(&format!("// @ASSUMED {} proved in {}\n", f.key, u)),
    }
    let mut sig = f.sig.clone();
    if f.key.contains(">>::") {
        // one of several impls of a generic trait: all become inherent functions of one type
        let a: String = f.key.split("::<").nth(1).unwrap_or("").chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        sig.ident = quote::format_ident!("{}__{}", sig.ident, a);
    }
    let block = &f.block;
    let body = quote::quote!(#sig #block);
    let text = tokens(body, m, if f.self_ty.is_some() { 1 } else { 0 });
    if let Some(h) = &f.self_ty {
        let (ig, _, w) = h.generics.split_for_impl();
        let st = match &*h.self_ty {
            syn::Type::Reference(r) => &r.elem,
            _ => &h.self_ty,
        };
        let hdr = quote::quote!(impl #ig #st #w).to_string();
        out.push_str(&hdr);
        out.push_str(" {\n");
        out.push_str(&if fs.assumed.is_some() { "#[verifier::external_body]\n" } else { &fs.attrs });
        out.push_str(&text);
        out.push_str("}\n");
    } else {
        out.push_str(&if fs.assumed.is_some() { "#[verifier::external_body]\n" } else { &fs.attrs });
        out.push_str(&text);
    }
    out.push_str(&format!("// @END {}\n\n", f.key));
    Ok(out)
}
