//! Inlining of functions that have no contract, so that a helper which is moved out of a verified function
//! does not need one.

use crate::rules::path_str;
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Helper {
    pub key: String,
    pub ty: Option<String>,
    pub sig: Signature,
    pub block: Block,
}

impl Helper {
    pub fn sig_text(&self) -> String {
        let i = &self.sig.inputs;
        let o = &self.sig.output;
        format!("({}) {}", i.to_token_stream(), o.to_token_stream())
    }
}

#[derive(Default)]
pub struct Helpers {
    pub list: Vec<Helper>,
}

impl Helpers {
    pub fn add(&mut self, key: &str, ty: Option<String>, sig: &Signature, block: &Block, _public: bool) {
        self.list.push(Helper { key: key.into(), ty, sig: sig.clone(), block: block.clone() });
    }
}

pub struct Inliner<'a> {
    helpers: &'a Helpers,
    self_ty: String,
    depth: usize,
    pub done: Vec<String>,
    pub problems: Vec<String>,
}

struct HasReturn(bool);
impl VisitMut for HasReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn has_return(b: &Block) -> bool {
    let mut h = HasReturn(false);
    h.visit_block_mut(&mut b.clone());
    h.0
}

fn expr_has_return(e: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr_mut(&mut e.clone());
    h.0
}

fn stmt_has_return(s: &Stmt) -> bool {
    let mut h = HasReturn(false);
    h.visit_stmt_mut(&mut s.clone());
    h.0
}

/// Rewrites `if c { ...; return x; } rest` to `if c { ...; x } else { rest }`.
fn eliminate(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    for (i, s) in stmts.iter().enumerate() {
        if !stmt_has_return(s) {
            continue;
        }
        let rest = &stmts[i + 1..];
        let mut out: Vec<Stmt> = stmts[..i].to_vec();
        let e = match s {
            Stmt::Expr(e, _) => e,
            _ => return None,
        };
        match e {
            Expr::Return(r) => {
                match &r.expr {
                    Some(x) if !expr_has_return(x) => out.push(Stmt::Expr((**x).clone(), None)),
                    Some(_) => return None,
                    None => {}
                }
                return Some(out);
            }
            Expr::If(f) if !expr_has_return(&f.cond) => {
                let mut then = f.then_branch.stmts.clone();
                let mut els = match &f.else_branch {
                    None => vec![],
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => b.block.stmts.clone(),
                        o => vec![Stmt::Expr(o.clone(), None)],
                    },
                };
                for br in [&mut then, &mut els] {
                    if !ends_in_return(br) {
                        if !rest.is_empty() {
                            if let Some(Stmt::Expr(_, semi)) = br.last_mut() {
                                *semi = Some(Default::default());
                            }
                        }
                        br.extend(rest.iter().cloned());
                    }
                }
                let (then, els) = (eliminate(&then)?, eliminate(&els)?);
                let c = &f.cond;
                out.push(parse_quote_expr_stmt(parse_quote!(if #c { #(#then)* } else { #(#els)* })));
                return Some(out);
            }
            Expr::Match(m) if rest.is_empty() && !expr_has_return(&m.expr) => {
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let v = eliminate(&[Stmt::Expr((*a.body).clone(), None)])?;
                    let b: Expr = parse_quote!({ #(#v)* });
                    a.body = Box::new(b);
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            Expr::Block(b) if rest.is_empty() => {
                let v = eliminate(&b.block.stmts)?;
                out.push(parse_quote_expr_stmt(parse_quote!({ #(#v)* })));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(stmts.to_vec())
}

fn parse_quote_expr_stmt(e: Expr) -> Stmt {
    Stmt::Expr(e, None)
}

fn ends_in_return(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(f), _)) => {
            ends_in_return(&f.then_branch.stmts)
                && match &f.else_branch {
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => ends_in_return(&b.block.stmts),
                        o => ends_in_return(&[Stmt::Expr(o.clone(), None)]),
                    },
                    None => false,
                }
        }
        _ => false,
    }
}

struct SubstSelf(Expr);
impl VisitMut for SubstSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => simple_place(&f.base),
        Expr::Paren(p) => simple_place(&p.expr),
        _ => false,
    }
}

impl<'a> Inliner<'a> {
    pub fn new(helpers: &'a Helpers, key: &str) -> Self {
        let t = key.split('/').nth(1).unwrap_or(key);
        let t = t.split(" as ").next().unwrap().split("::").next().unwrap();
        Inliner { helpers, self_ty: t.to_string(), depth: 0, done: vec![], problems: vec![] }
    }

    pub fn run(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
    }

    fn expand(&mut self, h: &Helper, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        if h.sig.generics.params.iter().any(|p| matches!(p, GenericParam::Const(_))) || self.depth > 6 {
            return None;
        }
        let generic: Vec<String> = h
            .sig
            .generics
            .params
            .iter()
            .filter_map(|p| match p {
                GenericParam::Type(t) => Some(t.ident.to_string()),
                _ => None,
            })
            .collect();
        let mut block = h.block.clone();
        if has_return(&block) {
            block.stmts = eliminate(&block.stmts)?;
            if has_return(&block) {
                return None;
            }
        }
        let mut pats: Vec<Stmt> = vec![];
        let mut it = args.into_iter();
        let mut names = vec![];
        for i in &h.sig.inputs {
            match i {
                FnArg::Receiver(r) => {
                    r.reference.as_ref()?;
                    let x = match recv {
                        Some(x) => x.clone(),
                        None => match it.next()? {
                            Expr::Reference(r) => (*r.expr).clone(),
                            o => o,
                        },
                    };
                    if !simple_place(&x) {
                        return None;
                    }
                    // the receiver must mean the same inside the helper
                    let mut free = Idents(vec![]);
                    free.go(x.to_token_stream());
                    let mut binds = Binds(vec![]);
                    binds.visit_block_mut(&mut block);
                    for i in &h.sig.inputs {
                        if let FnArg::Typed(t) = i {
                            binds.visit_pat_mut(&mut (*t.pat).clone());
                        }
                    }
                    if binds.0.iter().any(|b| free.0.contains(b)) {
                        return None;
                    }
                    SubstSelf(x).visit_block_mut(&mut block);
                }
                FnArg::Typed(t) => {
                    let a = it.next()?;
                    let (p, ty) = (&t.pat, &t.ty);
                    let id = match &**p {
                        Pat::Ident(i) => i.ident.clone(),
                        _ => return None,
                    };
                    // evaluated under a fresh name first: an argument may mention a parameter's name
                    let tmp = quote::format_ident!("__arg{}_{}", self.done.len(), id);
                    let ty2 = elide(ty);
                    // the types of generic parameters are inferred
                    let open = ty.to_token_stream().into_iter().any(|t| mentions(&t, &generic));
                    pats.push(if open { parse_quote!(let #tmp = #a;) } else { parse_quote!(let #tmp: #ty2 = #a;) });
                    names.push((p.clone(), tmp));
                }
            }
        }
        let lets: Vec<Stmt> = names.iter().map(|(p, t)| parse_quote!(let #p = #t;)).collect();
        let stmts = &block.stmts;
        self.done.push(h.key.clone());
        let unit = matches!(h.sig.output, ReturnType::Default);
        let _ = unit;
        let unsf = h.sig.unsafety.is_some();
        let e: Expr = if unsf {
            parse_quote!({ #(#pats)* #(#lets)* unsafe { #(#stmts)* } })
        } else {
            parse_quote!({ #(#pats)* #(#lets)* #(#stmts)* })
        };
        Some(Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(e) }))
    }

    fn find(&self, name: &str, ty: Option<&str>) -> Option<&'a Helper> {
        let hs = self.helpers;
        let mut c = hs.list.iter().filter(|h| {
            h.sig.ident == name
                && match (&h.ty, ty) {
                    (Some(a), Some(b)) => a == b,
                    (None, None) => true,
                    _ => false,
                }
        });
        let r = c.next()?;
        if c.next().is_some() {
            return None;
        }
        Some(r)
    }
}

fn mentions(t: &proc_macro2::TokenTree, names: &[String]) -> bool {
    match t {
        proc_macro2::TokenTree::Ident(i) => i == "impl" || names.contains(&i.to_string()),
        proc_macro2::TokenTree::Group(g) => g.stream().into_iter().any(|t| mentions(&t, names)),
        _ => false,
    }
}

/// Replaces `let f = |a, b| E;` and the calls `f(x, y)` in the same block by E, if f is used in no other way and no
/// name that E mentions is bound again.
pub fn closures(b: &mut Block) -> usize {
    let mut c = Closures(0);
    c.visit_block_mut(b);
    c.0
}
struct Closures(usize);
struct Idents(Vec<String>);
impl Idents {
    fn go(&mut self, ts: proc_macro2::TokenStream) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => self.0.push(i.to_string()),
                proc_macro2::TokenTree::Group(g) => self.go(g.stream()),
                _ => {}
            }
        }
    }
}
struct Binds(Vec<String>);
impl VisitMut for Binds {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.0.push(p.ident.to_string());
        visit_mut::visit_pat_ident_mut(self, p);
    }
}
struct CallSub<'a> {
    name: &'a str,
    params: &'a [(Ident, Option<Type>)],
    body: &'a Expr,
    calls: usize,
}
impl VisitMut for CallSub<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) && c.args.len() == self.params.len() {
                self.calls += 1;
                let k = self.calls;
                let mut pre: Vec<Stmt> = vec![];
                let mut lets: Vec<Stmt> = vec![];
                for ((id, ty), a) in self.params.iter().zip(&c.args) {
                    let tmp = quote::format_ident!("__carg{}_{}", k, id);
                    pre.push(match ty {
                        Some(t) => parse_quote!(let #tmp: #t = #a;),
                        None => parse_quote!(let #tmp = #a;),
                    });
                    lets.push(parse_quote!(let #id = #tmp;));
                }
                let b = self.body;
                *e = parse_quote!(({ #(#pre)* #(#lets)* #b }));
            }
        }
    }
}
impl VisitMut for Closures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if let Some((name, params, body)) = closure_def(&b.stmts[i]) {
                let rest: Block = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() };
                let mut free = Idents(vec![]);
                free.go(body.to_token_stream());
                let mut binds = Binds(vec![]);
                binds.visit_block_mut(&mut rest.clone());
                let clash = binds.0.iter().any(|x| *x == name || (free.0.contains(x) && !params.iter().any(|p| p.0 == *x)));
                let mut uses = Idents(vec![]);
                uses.go(rest.to_token_stream());
                let n = uses.0.iter().filter(|x| **x == name).count();
                let mut sub = CallSub { name: &name, params: &params, body: &body, calls: 0 };
                let mut new = rest.clone();
                sub.visit_block_mut(&mut new);
                if !clash && sub.calls == n && n > 0 {
                    self.0 += 1;
                    b.stmts.truncate(i);
                    b.stmts.extend(new.stmts);
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
fn closure_def(s: &Stmt) -> Option<(String, Vec<(Ident, Option<Type>)>, Expr)> {
    let Stmt::Local(l) = s else { return None };
    let name = match &l.pat {
        Pat::Ident(i) if i.by_ref.is_none() => i.ident.to_string(),
        _ => return None,
    };
    let init = l.init.as_ref()?;
    let Expr::Closure(c) = &*init.expr else { return None };
    if c.capture.is_some() || c.asyncness.is_some() {
        return None;
    }
    let mut params = vec![];
    for p in &c.inputs {
        params.push(match p {
            Pat::Ident(i) => (i.ident.clone(), None),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) => (i.ident.clone(), Some((*t.ty).clone())),
                _ => return None,
            },
            _ => return None,
        });
    }
    let body = match &*c.body {
        Expr::Block(b) if has_return(&b.block) => {
            let v = eliminate(&b.block.stmts)?;
            let e: Expr = parse_quote!({ #(#v)* });
            if expr_has_return(&e) {
                return None;
            }
            e
        }
        e if expr_has_return(e) => return None,
        e => e.clone(),
    };
    Some((name, params, body))
}

fn elide(t: &Type) -> Type {
    struct L;
    impl VisitMut for L {
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            visit_mut::visit_type_reference_mut(self, r);
        }
    }
    let mut t = t.clone();
    L.visit_type_mut(&mut t);
    t
}

impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let hit: Option<(&Helper, Option<Expr>, Vec<Expr>)> = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let me = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let ty = self.self_ty.clone();
                if me || simple_place(&m.receiver) {
                    self.find(&name, Some(&ty))
                        .filter(|_| me || matches!(&*m.receiver, Expr::Path(_)))
                        .map(|h| (h, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
                } else {
                    None
                }
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let s = path_str(&p.path);
                    let name = p.path.segments.last().unwrap().ident.to_string();
                    let n = p.path.segments.len();
                    let h = if n >= 2 {
                        let t = p.path.segments[n - 2].ident.to_string();
                        let t = if t == "Self" { self.self_ty.clone() } else { t };
                        self.find(&name, Some(&t)).or_else(|| {
                            if s.starts_with("super::") || s.starts_with("crate::") || s.starts_with("self::") {
                                self.find(&name, None)
                            } else {
                                None
                            }
                        })
                    } else {
                        self.find(&name, None)
                    };
                    h.map(|h| (h, None, c.args.iter().cloned().collect()))
                }
                _ => None,
            },
            _ => None,
        };
        if let Some((h, recv, args)) = hit {
            match self.expand(h, recv.as_ref(), args) {
                Some(mut n) => {
                    self.depth += 1;
                    self.visit_expr_mut(&mut n);
                    self.depth -= 1;
                    *e = n;
                }
                None => self.problems.push(format!("cannot inline {}", h.key)),
            }
        }
    }
}
