//! A body with early exits (`return`, `?`) as one expression without them, so that it can stand where it is called.
//! What follows an exit that may be taken moves into the arm that goes on; nothing is ever duplicated.
use quote::format_ident;
use syn::parse_quote;
use syn::visit::Visit;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Res,   // `?` passes an error on unchanged
    Opt,   // `?` passes None on
    Never, // no `?`
}

struct Has(bool);
impl<'a> Visit<'a> for Has {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
fn early_s(s: &syn::Stmt) -> bool {
    let mut h = Has(false);
    h.visit_stmt(s);
    h.0
}
pub fn early(e: &syn::Expr) -> bool {
    let mut h = Has(false);
    h.visit_expr(e);
    h.0
}
fn diverges(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Return(_) => true,
        syn::Expr::Block(b) => diverges_b(&b.block),
        syn::Expr::If(i) => diverges_b(&i.then_branch) && i.else_branch.as_ref().map_or(false, |(_, e)| diverges(e)),
        syn::Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges(&a.body)),
        syn::Expr::Macro(m) => m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable"),
        _ => false,
    }
}
fn diverges_b(b: &syn::Block) -> bool {
    b.stmts.last().map_or(false, |s| match s {
        syn::Stmt::Expr(e, _) => diverges(e),
        syn::Stmt::Macro(m) => m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable"),
        _ => false,
    })
}
fn stmts_of(e: &syn::Expr) -> Vec<syn::Stmt> {
    match e {
        syn::Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![syn::Stmt::Expr(e.clone(), None)],
    }
}
/// the `?` evaluated first, taken out of the expression; what it leaves behind
fn hoist<'a>(e: &'a mut syn::Expr) -> Option<&'a mut syn::Expr> {
    let pure = |e: &syn::Expr| matches!(e, syn::Expr::Path(_) | syn::Expr::Lit(_));
    if matches!(e, syn::Expr::Try(t) if !early(&t.expr)) {
        return Some(e);
    }
    match e {
        syn::Expr::Try(t) => hoist(&mut t.expr),
        syn::Expr::MethodCall(m) => {
            if early(&m.receiver) {
                return hoist(&mut m.receiver);
            }
            if !pure(&m.receiver) {
                return None;
            }
            for a in m.args.iter_mut() {
                if early(a) {
                    return hoist(a);
                }
                if !pure(a) {
                    return None;
                }
            }
            None
        }
        syn::Expr::Call(c) => {
            if !pure(&c.func) {
                return None;
            }
            for a in c.args.iter_mut() {
                if early(a) {
                    return hoist(a);
                }
                if !pure(a) {
                    return None;
                }
            }
            None
        }
        syn::Expr::Tuple(c) => {
            for a in c.elems.iter_mut() {
                if early(a) {
                    return hoist(a);
                }
                if !pure(a) {
                    return None;
                }
            }
            None
        }
        syn::Expr::Struct(c) => {
            for f in c.fields.iter_mut() {
                if early(&f.expr) {
                    return hoist(&mut f.expr);
                }
                if !pure(&f.expr) {
                    return None;
                }
            }
            None
        }
        syn::Expr::Field(f) => hoist(&mut f.base),
        syn::Expr::Paren(p) => hoist(&mut p.expr),
        syn::Expr::Cast(p) => hoist(&mut p.expr),
        syn::Expr::Unary(p) => hoist(&mut p.expr),
        syn::Expr::Reference(p) => hoist(&mut p.expr),
        syn::Expr::Binary(b) => {
            if early(&b.left) {
                hoist(&mut b.left)
            } else if pure(&b.left) && !matches!(b.op, syn::BinOp::And(_) | syn::BinOp::Or(_)) {
                hoist(&mut b.right)
            } else {
                None
            }
        }
        syn::Expr::Match(m) => hoist(&mut m.expr),
        syn::Expr::If(i) => match &mut *i.cond {
            syn::Expr::Let(l) => hoist(&mut l.expr),
            c => hoist(c),
        },
        syn::Expr::Assign(a) if pure(&a.left) => hoist(&mut a.right),
        _ => None,
    }
}

pub struct Straight {
    pub kind: Kind,
    n: usize,
}
impl Straight {
    pub fn new(kind: Kind) -> Self {
        Straight { kind, n: 0 }
    }
    pub fn block(&mut self, b: &syn::Block) -> Option<syn::Block> {
        Some(syn::Block { brace_token: b.brace_token, stmts: self.go(b.stmts.clone())? })
    }
    fn expr(&mut self, e: Vec<syn::Stmt>) -> Option<syn::Expr> {
        let s = self.go(e)?;
        Some(parse_quote!({ #(#s)* }))
    }
    /// match x { pat => rest, exit }
    fn try_(&mut self, x: &syn::Expr, pat: syn::Pat, rest: Vec<syn::Stmt>) -> Option<syn::Expr> {
        let r = self.expr(rest)?;
        Some(match self.kind {
            Kind::Res => parse_quote!(match #x { Ok(#pat) => #r, Err(__e) => Err(__e) }),
            Kind::Opt => parse_quote!(match #x { Some(#pat) => #r, None => None }),
            Kind::Never => return None,
        })
    }
    /// the arms of a match or branches of an if, the one that goes on followed by `rest`; `bind` names its value
    fn arms(&mut self, e: &syn::Expr, bind: Option<(&syn::Pat, Option<&syn::Type>)>, rest: &[syn::Stmt]) -> Option<syn::Expr> {
        let on = |b: &syn::Expr| -> Vec<syn::Stmt> {
            if diverges(b) {
                return stmts_of(b);
            }
            let mut v = match bind {
                Some((p, None)) => vec![parse_quote!(let #p = #b;)],
                Some((p, Some(t))) => vec![parse_quote!(let #p: #t = #b;)],
                None => {
                    if rest.is_empty() {
                        return stmts_of(b);
                    }
                    match b {
                        // names bound inside must not be seen by what follows
                        syn::Expr::Block(k) if k.block.stmts.iter().any(|s| matches!(s, syn::Stmt::Local(_))) => vec![syn::Stmt::Expr(b.clone(), Some(Default::default()))],
                        _ => {
                            let mut v = stmts_of(b);
                            if let Some(syn::Stmt::Expr(_, semi @ None)) = v.last_mut() {
                                *semi = Some(Default::default());
                            }
                            v
                        }
                    }
                }
            };
            v.extend(rest.iter().cloned());
            v
        };
        match e {
            syn::Expr::Match(m) => {
                let go = m.arms.iter().filter(|a| !diverges(&a.body)).count();
                if early(&m.expr) || (go > 1 && (bind.is_some() || !rest.is_empty())) || m.arms.iter().any(|a| a.guard.as_ref().map_or(false, |(_, g)| early(g))) {
                    return None;
                }
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let v = on(&a.body);
                    *a.body = self.expr(v)?;
                    a.comma = Some(Default::default());
                }
                Some(syn::Expr::Match(m))
            }
            syn::Expr::If(i) => {
                let els: syn::Expr = match &i.else_branch {
                    Some((_, e)) => (**e).clone(),
                    None => parse_quote!({}),
                };
                let then = &i.then_branch;
                let then: syn::Expr = parse_quote!(#then);
                let go = !diverges(&then) as usize + !diverges(&els) as usize;
                if early(&i.cond) || (go > 1 && (bind.is_some() || !rest.is_empty())) {
                    return None;
                }
                let (a, b) = (on(&then), on(&els));
                let (a, b) = (self.expr(a)?, self.expr(b)?);
                let c = &i.cond;
                Some(parse_quote!(if #c #a else #b))
            }
            syn::Expr::Block(_) if bind.is_none() && rest.is_empty() => {
                let v = stmts_of(e);
                self.expr(v)
            }
            _ => None,
        }
    }
    fn go(&mut self, stmts: Vec<syn::Stmt>) -> Option<Vec<syn::Stmt>> {
        let Some(k) = stmts.iter().position(early_s) else { return Some(stmts) };
        let mut out: Vec<syn::Stmt> = stmts[..k].to_vec();
        let rest = &stmts[k + 1..];
        let last: syn::Expr = match &stmts[k] {
            syn::Stmt::Local(l) => {
                let i = l.init.as_ref()?;
                if let Some((_, d)) = &i.diverge {
                    if early(&i.expr) {
                        return None;
                    }
                    let (p, x) = (&l.pat, &i.expr);
                    let d = self.expr(stmts_of(d))?;
                    let r = self.expr(rest.to_vec())?;
                    parse_quote!(match #x { #p => #r, _ => #d })
                } else {
                    let (pat, ty) = match &l.pat {
                        syn::Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        p => (p.clone(), None),
                    };
                    match &*i.expr {
                        syn::Expr::Try(t) if !early(&t.expr) => {
                            let mut r = rest.to_vec();
                            let pat = match ty {
                                Some(ty) => {
                                    self.n += 1;
                                    let v = format_ident!("__s{}", self.n);
                                    r.insert(0, parse_quote!(let #pat: #ty = #v;));
                                    parse_quote!(#v)
                                }
                                None => pat,
                            };
                            self.try_(&t.expr, pat, r)?
                        }
                        e => match self.arms(e, Some((&pat, ty.as_ref())), rest) {
                            Some(x) => x,
                            None => return self.hoisted(out, &stmts, k),
                        },
                    }
                }
            }
            syn::Stmt::Expr(syn::Expr::Return(r), _) => match &r.expr {
                Some(e) => self.expr(vec![syn::Stmt::Expr((**e).clone(), None)])?,
                None => parse_quote!(()),
            },
            syn::Stmt::Expr(syn::Expr::Try(t), Some(_)) if !early(&t.expr) => self.try_(&t.expr, parse_quote!(_), rest.to_vec())?,
            syn::Stmt::Expr(e, _) => match self.arms(e, None, rest) {
                Some(x) => x,
                None => return self.hoisted(out, &stmts, k),
            },
            _ => return None,
        };
        out.push(syn::Stmt::Expr(last, None));
        Some(out)
    }
    fn hoisted(&mut self, mut out: Vec<syn::Stmt>, stmts: &[syn::Stmt], k: usize) -> Option<Vec<syn::Stmt>> {
        let mut s = stmts[k].clone();
        let at = match &mut s {
            syn::Stmt::Local(l) => hoist(&mut l.init.as_mut()?.expr)?,
            syn::Stmt::Expr(e, _) => hoist(e)?,
            _ => return None,
        };
        self.n += 1;
        let v = format_ident!("__s{}", self.n);
        let syn::Expr::Try(t) = at.clone() else { return None };
        *at = parse_quote!(#v);
        let mut r = vec![s];
        r.extend(stmts[k + 1..].iter().cloned());
        let x = self.try_(&t.expr, parse_quote!(#v), r)?;
        out.push(syn::Stmt::Expr(x, None));
        Some(out)
    }
}
/// what `?` does in a function returning this
pub fn kind_of(out: &syn::ReturnType, nom: bool) -> Kind {
    if let syn::ReturnType::Type(_, t) = out {
        if let syn::Type::Path(p) = &**t {
            match p.path.segments.last().unwrap().ident.to_string().as_str() {
                "Option" => return Kind::Opt,
                "IResult" => return Kind::Res,
                "Result" if nom => return Kind::Res,
                _ => {}
            }
        }
    }
    Kind::Never
}
