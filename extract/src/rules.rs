//! The rewrite rules. Each one replaces a Rust construct that Verus does not accept by an equivalent one.

use proc_macro2::Span;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
pub struct Ctx {
    pub consts: BTreeMap<String, (i128, String)>,
    pub phantom_fields: Vec<String>,
    pub counts: BTreeMap<&'static str, usize>,
    pub unsupported: Vec<String>,
    /// self is a reference to a primitive integer
    pub receiver_prim: bool,
    /// the function writes to a formatter
    pub formatting: bool,
}

impl Ctx {
    pub fn hit(&mut self, r: &'static str) {
        *self.counts.entry(r).or_default() += 1;
    }
}

pub fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

/// Evaluates a constant integer expression; the suffix is the type of the result if it is known.
pub fn const_eval(e: &Expr, c: &BTreeMap<String, (i128, String)>) -> Option<(i128, String)> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => {
            Some((i.base10_parse::<i128>().ok()?, i.suffix().to_string()))
        }
        Expr::Paren(p) => const_eval(&p.expr, c),
        Expr::Group(p) => const_eval(&p.expr, c),
        Expr::Cast(x) => {
            let (v, _) = const_eval(&x.expr, c)?;
            let t = x.ty.to_token_stream().to_string();
            let max: i128 = match t.as_str() {
                "usize" | "u64" => u64::MAX as i128,
                "u32" => u32::MAX as i128,
                "u16" => u16::MAX as i128,
                "u8" => u8::MAX as i128,
                "u128" => i128::MAX,
                _ => return None,
            };
            if v < 0 || v > max {
                return None;
            }
            Some((v, t))
        }
        Expr::Path(p) if p.qself.is_none() => {
            let s = path_str(&p.path);
            let last = p.path.segments.last().unwrap().ident.to_string();
            if s.starts_with("Self::") {
                c.get(&s).cloned()
            } else if p.path.segments.len() == 1 || s.starts_with("super::") || s.starts_with("crate::") {
                c.get(&last).cloned()
            } else {
                None
            }
        }
        Expr::Binary(b) => {
            let (l, ls) = const_eval(&b.left, c)?;
            let (r, rs) = const_eval(&b.right, c)?;
            let shift = matches!(b.op, BinOp::Shl(_) | BinOp::Shr(_));
            let v = match b.op {
                BinOp::Add(_) => l.checked_add(r)?,
                BinOp::Sub(_) => l.checked_sub(r)?,
                BinOp::Mul(_) => l.checked_mul(r)?,
                BinOp::Div(_) if r > 0 && l >= 0 => l / r,
                BinOp::Rem(_) if r > 0 && l >= 0 => l % r,
                BinOp::BitAnd(_) if l >= 0 && r >= 0 => l & r,
                BinOp::BitOr(_) if l >= 0 && r >= 0 => l | r,
                BinOp::BitXor(_) if l >= 0 && r >= 0 => l ^ r,
                BinOp::Shl(_) if l >= 0 && (0..63).contains(&r) => l.checked_mul(1i128 << r)?,
                BinOp::Shr(_) if l >= 0 && (0..127).contains(&r) => l >> r,
                _ => return None,
            };
            // wrapping is never folded: the result has to be representable in 63 bits
            if !(0..(1i128 << 63)).contains(&v) {
                return None;
            }
            Some((v, if !ls.is_empty() || shift { ls } else { rs }))
        }
        _ => None,
    }
}

fn int_lit(v: i128, suffix: &str) -> Expr {
    let l = LitInt::new(&format!("{v}{suffix}"), Span::call_site());
    Expr::Lit(ExprLit { attrs: vec![], lit: Lit::Int(l) })
}

fn is_panic_call(e: &Expr) -> bool {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            let s = path_str(&p.path);
            return matches!(
                s.as_str(),
                "core::panicking::panic_fmt"
                    | "core::panicking::panic"
                    | "core::panicking::panic_display"
                    | "core::panicking::panic_explicit"
                    | "core::panicking::unreachable_display"
                    | "std::rt::begin_panic"
                    | "core::panicking::assert_failed"
            ) || s.starts_with("core::panicking::");
        }
    }
    false
}

fn is_vpanic(e: &Expr) -> bool {
    match e {
        Expr::Macro(m) => m.mac.path.is_ident("__vpanic"),
        Expr::Block(b) => b.block.stmts.len() == 1 && matches!(&b.block.stmts[0], Stmt::Expr(e, None) if is_vpanic(e)),
        _ => false,
    }
}

fn unit_vpanic(e: &mut Expr) {
    match e {
        Expr::Macro(m) => m.mac.tokens = quote!(unit),
        Expr::Block(b) => {
            if let Some(Stmt::Expr(e, None)) = b.block.stmts.last_mut() {
                unit_vpanic(e)
            }
        }
        _ => {}
    }
}

/// Rule panic: a call that raises a panic becomes `vpanic(Ghost(COND))`, where COND is the condition under
/// which the function's contract lets it panic. The message and its arguments are dropped.
struct Panic<'a>(&'a mut Ctx);
impl VisitMut for Panic<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if is_panic_call(e) {
            self.0.hit("panic");
            *e = parse_quote!(__vpanic!());
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if let Stmt::Expr(e, semi) = s {
                if is_vpanic(e) {
                    if i + 1 == n {
                        *semi = None;
                    } else {
                        unit_vpanic(e)
                    }
                }
            }
        }
    }
}

/// Rule expect: `E.expect("literal")` becomes a match that panics on None.
struct Expect<'a>(&'a mut Ctx);
impl VisitMut for Expect<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "expect" && m.args.len() == 1 {
                let r = &m.receiver;
                self.0.hit("expect");
                *e = parse_quote!(match #r { Some(__x) => __x, None => __vpanic!() });
            }
        }
    }
}

/// Rule lazy: `then_some`, `cmp::min` and `cmp::max` and closures given to `then`, `unwrap_or_else`, `is_some_and`, `map_or` and, on the result of a method that
/// returns an option, `map` and `and_then` are written out as the `if` or `match` that these functions are.
struct Lazy<'a>(&'a mut Ctx);
struct HasReturn(bool);
impl VisitMut for HasReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Return(_) | Expr::Try(_)) {
            self.0 = true;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn lazy_parts(e: &Expr) -> Option<(Option<Pat>, Expr)> {
    let Expr::Closure(c) = e else { return None };
    let mut h = HasReturn(false);
    h.visit_expr_mut(&mut c.body.clone());
    if h.0 || c.inputs.len() > 1 {
        return None;
    }
    let p = match c.inputs.first() {
        Some(Pat::Type(t)) => Some((*t.pat).clone()),
        p => p.cloned(),
    };
    Some((p, (*c.body).clone()))
}
fn is_option(e: &Expr) -> bool {
    const NAMES: [&str; 10] =
        ["get", "get_mut", "first", "last", "next", "checked_add", "checked_sub", "checked_mul", "select", "then_some"];
    match e {
        Expr::Paren(p) => is_option(&p.expr),
        Expr::MethodCall(m) => NAMES.iter().any(|n| m.method == n),
        _ => false,
    }
}
impl VisitMut for Lazy<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let f = if let Expr::Path(p) = &*c.func { path_str(&p.path) } else { String::new() };
            if c.args.len() == 2 && (f.ends_with("cmp::min") || f.ends_with("cmp::max")) {
                let (x, y) = (&c.args[0], &c.args[1]);
                let n: Expr = if f.ends_with("min") {
                    parse_quote!({ let (__x, __y) = (#x, #y); if __y < __x { __y } else { __x } })
                } else {
                    parse_quote!({ let (__x, __y) = (#x, #y); if __y < __x { __x } else { __y } })
                };
                self.0.hit("lazy");
                *e = n;
            }
            return;
        }
        let Expr::MethodCall(m) = e else { return };
        let r = &m.receiver;
        if m.method == "then_some" && m.args.len() == 1 {
            let x = &m.args[0];
            let n: Expr = parse_quote!({ let (__x, __y) = (#r, #x); if __x { Some(__y) } else { None } });
            self.0.hit("lazy");
            *e = n;
            return;
        }
        let last = m.args.last().and_then(lazy_parts);
        let n: Expr = match (m.method.to_string().as_str(), m.args.len(), last) {
            ("then", 1, Some((None, b))) => parse_quote!(if #r { Some(#b) } else { None }),
            ("unwrap_or_else", 1, Some((None, b))) => parse_quote!(match #r { Some(__x) => __x, None => #b }),
            ("is_some_and", 1, Some((Some(p), b))) => parse_quote!(match #r { Some(#p) => #b, None => false }),
            ("map_or", 2, Some((Some(p), b))) if matches!(m.args[0], Expr::Lit(_) | Expr::Path(_)) => {
                let d = &m.args[0];
                parse_quote!(match #r { Some(#p) => #b, None => #d })
            }
            ("map", 1, Some((Some(p), b))) if is_option(r) => parse_quote!(match #r { Some(#p) => Some(#b), None => None }),
            ("and_then", 1, Some((Some(p), b))) if is_option(r) => parse_quote!(match #r { Some(#p) => #b, None => None }),
            _ => return,
        };
        self.0.hit("lazy");
        *e = n;
    }
}

/// Rule refpat: a pattern `&x` in a match arm becomes `x` with `let x = *x;` in the arm (and its guard).
struct RefPat<'a>(&'a mut Ctx);
struct FindRef(Vec<Ident>);
impl VisitMut for FindRef {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::Reference(r) = p {
            if r.mutability.is_none() {
                if let Pat::Ident(i) = &*r.pat {
                    self.0.push(i.ident.clone());
                    let id = &i.ident;
                    *p = parse_quote!(#id);
                }
            }
        }
    }
}
impl VisitMut for RefPat<'_> {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        let mut f = FindRef(vec![]);
        f.visit_pat_mut(&mut a.pat);
        if !f.0.is_empty() {
            self.0.hit("refpat");
            let ids = f.0;
            let b = &a.body;
            let nb: Expr = parse_quote!({ #(let #ids = *#ids;)* #b });
            a.body = Box::new(nb);
            if let Some((_, g)) = &mut a.guard {
                let ng: Expr = parse_quote!({ #(let #ids = *#ids;)* #g });
                **g = ng;
            }
        }
    }
}

/// Rule const: integer constant expressions are replaced by their value.
struct Fold<'a>(&'a mut Ctx);
impl VisitMut for Fold<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if !matches!(e, Expr::Lit(_)) {
            let foldable = matches!(e, Expr::Binary(_) | Expr::Path(_) | Expr::Paren(_));
            if foldable {
                if let Some((v, s)) = const_eval(e, &self.0.consts) {
                    *e = int_lit(v, &s);
                    self.0.hit("const");
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn chain<'a>(e: &'a Expr, name: &str) -> Option<&'a ExprMethodCall> {
    match e {
        Expr::MethodCall(m) if m.method == name => Some(m),
        Expr::Paren(p) => chain(&p.expr, name),
        _ => None,
    }
}

/// If E is `usize::count_ones` or a closure that applies count_ones to its parameter, or the same with count_zeros:
/// which of the two, and the type of the closure's result.
fn is_popcount(f: &Expr) -> Option<(&'static str, &'static str)> {
    match f {
        Expr::Path(p) => {
            let s = path_str(&p.path);
            match s.as_str() {
                "usize::count_ones" | "u64::count_ones" => Some(("ones", "u32")),
                "usize::count_zeros" => Some(("zeros", "u32")),
                _ => None,
            }
        }
        Expr::Closure(c) if c.inputs.len() == 1 => {
            let id = match &c.inputs[0] {
                Pat::Ident(i) => i.ident.to_string(),
                Pat::Reference(r) => match &*r.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => return None,
                },
                _ => return None,
            };
            let mut b = &*c.body;
            while let Expr::Block(bl) = b {
                if bl.block.stmts.len() != 1 {
                    return None;
                }
                match &bl.block.stmts[0] {
                    Stmt::Expr(e, None) => b = e,
                    _ => return None,
                }
            }
            let (inner, ty) = match b {
                Expr::Cast(x) => {
                    let t = x.ty.to_token_stream().to_string();
                    (&*x.expr, if t == "usize" { "usize" } else { return None })
                }
                o => (o, "u32"),
            };
            let (what, m) = match chain(inner, "count_ones") {
                Some(m) => ("ones", m),
                None => ("zeros", chain(inner, "count_zeros")?),
            };
            match &*m.receiver {
                Expr::Path(p) if p.path.is_ident(&id) => Some((what, ty)),
                _ => None,
            }
        }
        _ => None,
    }
}

/// Rule sum: `S.iter().map(popcount).sum::<T>()` over a slice becomes a call of `vsum_ones_T(S)`, the
/// loop that the iteration stands for.
/// Rule eq: `Iterator::eq(A, B)` becomes the loop that is its definition.
struct Iters<'a>(&'a mut Ctx);
impl VisitMut for Iters<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(s) = chain(e, "sum") {
            if let Some(m) = chain(&s.receiver, "map") {
                let mut base = &*m.receiver;
                for a in ["copied", "cloned"] {
                    if let Some(c) = chain(base, a) {
                        base = &c.receiver;
                    }
                }
                if let (Some(it), Some((what, ty))) = (chain(base, "iter"), is_popcount(&m.args[0])) {
                    let r = &it.receiver;
                    let want = s
                        .turbofish
                        .as_ref()
                        .map(|t| t.args.to_token_stream().to_string())
                        .unwrap_or_else(|| ty.to_string());
                    if want == ty {
                        let f = format_ident!("vsum_{}_{}", what, ty);
                        self.0.hit("sum");
                        let mut r = &**r;
                        while let Expr::Paren(p) = r {
                            r = &p.expr;
                        }
                        *e = match r {
                            Expr::Index(i) => match &*i.index {
                                Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => {
                                    let x = &i.expr;
                                    parse_quote!(#f(slice_subrange(vslice(#x), #a, #b)))
                                }
                                _ => return,
                            },
                            _ => parse_quote!(#f(vslice(#r))),
                        };
                        return;
                    }
                }
            }
        }
        let pair = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if path_str(&p.path) == "Iterator::eq" && c.args.len() == 2 => {
                    Some((c.args[0].clone(), c.args[1].clone()))
                }
                _ => None,
            },
            Expr::MethodCall(m) if m.method == "eq" && m.args.len() == 1 && is_iter(&m.receiver) => {
                Some(((*m.receiver).clone(), m.args[0].clone()))
            }
            _ => None,
        };
        if let Some((a, b)) = pair {
            let b: Expr = if is_iter(&b) { b } else { parse_quote!((#b).into_iter()) };
            self.0.hit("eq");
            *e = parse_quote!({
                let mut __a = #a;
                let mut __b = #b;
                let mut __res = true;
                loop {
                    match __a.next() {
                        None => {
                            match __b.next() { None => {} Some(_) => { __res = false; } }
                            break;
                        }
                        Some(__x) => match __b.next() {
                            None => { __res = false; break; }
                            Some(__y) => { if __x != __y { __res = false; break; } }
                        },
                    }
                }
                __res
            });
            return;
        }
        if let Some(n) = self.all(e) {
            *e = n;
        }
    }
}
fn is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => (m.method == "iter" || m.method == "into_iter") && m.args.is_empty(),
        Expr::Paren(p) => is_iter(&p.expr),
        _ => false,
    }
}
impl Iters<'_> {
    /// Rule all: `A.zip(B).all(|(x, y)| E)` and `(a..b).all(|x| E)` become the loops that define them.
    fn all(&mut self, e: &Expr) -> Option<Expr> {
        let m = chain(e, "all").or_else(|| chain(e, "any"))?;
        let any = m.method == "any";
        let Some(Expr::Closure(c)) = m.args.first() else { return None };
        if c.inputs.len() != 1 {
            return None;
        }
        let body = &c.body;
        let stop: Expr = if any { parse_quote!(#body) } else { parse_quote!(!(#body)) };
        let first: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
        let last: Expr = if any { parse_quote!(true) } else { parse_quote!(false) };
        let res = if any { format_ident!("__any") } else { format_ident!("__res") };
        let mut r = &*m.receiver;
        while let Expr::Paren(p) = r {
            r = &p.expr;
        }
        if let (Some(z), Pat::Tuple(t)) = (chain(r, "zip"), &c.inputs[0]) {
            if t.elems.len() != 2 || z.args.len() != 1 || !is_iter(&z.receiver) {
                return None;
            }
            let (p, q, a, b) = (&t.elems[0], &t.elems[1], &z.receiver, &z.args[0]);
            let b: Expr = if is_iter(b) { b.clone() } else { parse_quote!((#b).into_iter()) };
            self.0.hit("all");
            return Some(parse_quote!({
                let mut __a = #a;
                let mut __b = #b;
                let mut #res = #first;
                loop {
                    match __a.next() {
                        None => { break; }
                        Some(#p) => match __b.next() {
                            None => { break; }
                            Some(#q) => { if #stop { #res = #last; break; } }
                        },
                    }
                }
                #res
            }));
        }
        if let (Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }), Pat::Ident(i)) =
            (r, &c.inputs[0])
        {
            self.0.hit("all");
            return Some(parse_quote!({
                let mut #i = #a;
                let __end = #b;
                let mut #res = #first;
                while #i < __end {
                    if #stop { #res = #last; break; }
                    #i += 1;
                }
                #res
            }));
        }
        None
    }
}

/// True if E is a write to a formatter or a chain of such writes.
fn is_write(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => is_write(&p.expr),
        Expr::MethodCall(m) => {
            m.method == "write_fmt" || m.method == "write_str" || m.method == "write_char" || (m.method == "and_then" && is_write(&m.receiver))
        }
        _ => false,
    }
}

/// The pieces of a format string: text or the number of an argument that is displayed without any option.
fn format_pieces(s: &str) -> Option<Vec<std::result::Result<String, usize>>> {
    let mut res = vec![];
    let mut text = String::new();
    let mut c = s.chars().peekable();
    let mut next = 0;
    while let Some(x) = c.next() {
        match x {
            '{' | '}' if c.peek() == Some(&x) => {
                c.next();
                text.push(x);
            }
            '{' => {
                let mut n = String::new();
                loop {
                    match c.next()? {
                        '}' => break,
                        d => n.push(d),
                    }
                }
                let k = if n.is_empty() {
                    next += 1;
                    next - 1
                } else {
                    n.parse().ok()?
                };
                if !text.is_empty() {
                    res.push(Ok(std::mem::take(&mut text)));
                }
                res.push(Err(k));
            }
            '}' => return None,
            x => text.push(x),
        }
    }
    if !text.is_empty() {
        res.push(Ok(text));
    }
    Some(res)
}

/// Rule fmt: `F.write_fmt(format_args!("..{}..", A))` becomes the writes of the pieces in order, stopping at the
/// first that fails; `W.and_then(|_| E)` on a write becomes the match that defines it; an iteration over bits that
/// is mapped, interspersed or joined with a separator and collected into a string becomes the loop that appends the
/// pieces.
struct Fmt<'a>(&'a mut Ctx);
impl Fmt<'_> {
    fn pieces(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let Some(Expr::Macro(mac)) = m.args.first() else { return None };
        if !mac.mac.path.segments.last().is_some_and(|s| s.ident == "format_args") {
            return None;
        }
        let args = mac.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = args.first() else { return None };
        let pieces = format_pieces(&f.value())?;
        let f = &m.receiver;
        let vals: Vec<&Expr> = args.iter().skip(1).collect();
        let ids: Vec<Ident> = (0..vals.len()).map(|k| format_ident!("__f{k}")).collect();
        let mut res: Option<Expr> = None;
        for p in pieces.iter().rev() {
            let w: Expr = match p {
                Ok(t) => parse_quote!(#f.write_str(#t)),
                Err(k) => {
                    let id = ids.get(*k)?;
                    parse_quote!(vdisplay(&#id, #f))
                }
            };
            res = Some(match res {
                None => w,
                Some(r) => parse_quote!(match #w { Ok(_) => #r, Err(__e) => Err(__e) }),
            });
        }
        let res = res.unwrap_or_else(|| parse_quote!(Ok(())));
        self.0.hit("fmt");
        Some(if ids.is_empty() { res } else { parse_quote!({ #(let #ids = #vals;)* #res }) })
    }
    fn collect(&mut self, e: &Expr) -> Option<Expr> {
        let (body, sep) = if let Some(j) = chain(e, "join") {
            let r = chain(&j.receiver, "collect").map(|c| &c.receiver).unwrap_or(&j.receiver);
            (&**r, Some(j.args.first()?.clone()))
        } else {
            let c = chain(e, "collect")?;
            match chain(&c.receiver, "intersperse") {
                Some(i) => (&*i.receiver, Some(i.args.first()?.clone())),
                None => (&*c.receiver, None),
            }
        };
        let m = chain(body, "map")?;
        let Some(Expr::Closure(c)) = m.args.first() else { return None };
        if c.inputs.len() != 1 || !is_iter(&m.receiver) {
            return None;
        }
        let (p, b, it) = (&c.inputs[0], &c.body, &m.receiver);
        let push: Option<Stmt> = sep.map(|x| parse_quote!(if __more { vpush(&mut __s, #x); } else { __more = true; }));
        self.0.hit("fmt");
        Some(parse_quote!({
            let mut __it = #it;
            let mut __s = vstring_new();
            let mut __more = false;
            loop {
                match __it.next() {
                    None => { break; }
                    Some(#p) => {
                        #push
                        vpush(&mut __s, #b);
                    }
                }
            }
            __s
        }))
    }
}
impl VisitMut for Fmt<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            let n = if m.method == "and_then" && is_write(&m.receiver) {
                match m.args.first() {
                    Some(Expr::Closure(c)) if c.inputs.len() == 1 => {
                        let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                        self.0.hit("fmt");
                        Some(parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) }))
                    }
                    _ => None,
                }
            } else if m.method == "write_fmt" {
                self.pieces(m)
            } else if m.method == "to_string" && m.args.is_empty() {
                let r = &m.receiver;
                Some(parse_quote!(vto_string(&(#r))))
            } else if (m.method == "push" || m.method == "push_str") && m.args.len() == 1 {
                let (r, x) = (&m.receiver, &m.args[0]);
                self.0.hit("fmt");
                Some(parse_quote!(vpush(&mut #r, #x)))
            } else {
                self.collect(e)
            };
            if let Some(n) = n {
                *e = n;
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = path_str(&p.path);
                if n == "String::new" || n == "String::with_capacity" {
                    self.0.hit("fmt");
                    *e = parse_quote!(vstring_new());
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// The string literals of a function.
pub fn strings(b: &Block) -> Vec<LitStr> {
    struct S(Vec<LitStr>);
    impl VisitMut for S {
        fn visit_lit_str_mut(&mut self, l: &mut LitStr) {
            if !self.0.iter().any(|x| x.value() == l.value()) {
                self.0.push(l.clone());
            }
        }
    }
    let mut s = S(vec![]);
    s.visit_block_mut(&mut b.clone());
    s.0
}

struct HasContinue(bool);
impl VisitMut for HasContinue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Continue(_)) {
            self.0 = true;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `&S[a..b]` in `for` loops over `&S[a..b]` and `S[a..b].iter()`
fn slice_source(e: &Expr) -> Option<Expr> {
    let x = match e {
        Expr::Reference(r) if r.mutability.is_none() => &*r.expr,
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => &*m.receiver,
        _ => return None,
    };
    match x {
        Expr::Index(i) if matches!(&*i.index, Expr::Range(_)) => Some(parse_quote!(&#x)),
        _ => None,
    }
}

/// Rule for: `for` loops over integer ranges, `chunks`, `enumerate`, `zip`, `filter`, parts of slices and this crate's iterators become loops that
/// step the iterator explicitly, as in the language's definition of `for`.
struct For<'a>(&'a mut Ctx, usize);
impl For<'_> {
    fn desugar(&mut self, f: &ExprForLoop) -> Option<Expr> {
        if f.label.is_some() {
            return None;
        }
        let k = self.1;
        self.1 += 1;
        let (it, end, sl, ck, src, n, v) = (
            format_ident!("__it{k}"),
            format_ident!("__end{k}"),
            format_ident!("__sl{k}"),
            format_ident!("__ck{k}"),
            format_ident!("__src{k}"),
            format_ident!("__n{k}"),
            format_ident!("__v{k}"),
        );
        let pat = &f.pat;
        let stmts = &f.body.stmts;
        let mut e = &*f.expr;
        while let Expr::Paren(p) = e {
            e = &p.expr;
        }
        self.0.hit("for");
        if let Some(m) = chain(e, "filter") {
            if let Some(Expr::Closure(c)) = m.args.first() {
                let x = format_ident!("__x{k}");
                let bind: Vec<Stmt> = match c.inputs.first()? {
                    Pat::Reference(r) => {
                        let q = &r.pat;
                        vec![parse_quote!(let #q = #x;)]
                    }
                    Pat::Tuple(t) => t
                        .elems
                        .iter()
                        .enumerate()
                        .filter(|(_, q)| !matches!(q, Pat::Wild(_)))
                        .map(|(j, q)| {
                            let j = Index::from(j);
                            parse_quote!(let #q = &#x.#j;)
                        })
                        .collect(),
                    q => vec![parse_quote!(let #q = &#x;)],
                };
                let cond = &c.body;
                let mut g = f.clone();
                *g.expr = (*m.receiver).clone();
                *g.pat = parse_quote!(#x);
                g.body = parse_quote!({ if { #(#bind)* #cond } { let #pat = #x; #(#stmts)* } });
                self.1 -= 1;
                return self.desugar(&g);
            }
        }
        if let (Some(m), Pat::Tuple(t)) = (chain(e, "zip"), &**pat) {
            if t.elems.len() == 2 && m.args.len() == 1 && is_iter(&m.receiver) {
                let (p, q, a, b) = (&t.elems[0], &t.elems[1], &m.receiver, &m.args[0]);
                let b: Expr = if is_iter(b) { b.clone() } else { parse_quote!((#b).into_iter()) };
                return Some(parse_quote!({
                    let mut __a = #a;
                    let mut __b = #b;
                    loop {
                        match __a.next() {
                            None => { break; }
                            Some(#p) => match __b.next() {
                                None => { break; }
                                Some(#q) => { #(#stmts)* }
                            },
                        }
                    }
                }));
            }
        }
        if let (Expr::Range(r), Pat::Ident(PatIdent { ident, mutability: None, by_ref: None, subpat: None, .. })) = (e, &**pat) {
            if let (Some(a), Some(b)) = (&r.start, &r.end) {
                let b: Option<Expr> = match (&r.limits, const_eval(b, &self.0.consts)) {
                    (_, Some((v, s))) => {
                        let v = if matches!(r.limits, RangeLimits::Closed(_)) { v + 1 } else { v };
                        Some(int_lit(v, &s))
                    }
                    (RangeLimits::HalfOpen(_), None) => Some((**b).clone()),
                    _ => None,
                };
                let mut c = HasContinue(false);
                c.visit_block_mut(&mut f.body.clone());
                let b = b?;
                if !c.0 {
                    let (pre, b): (Option<Stmt>, Expr) = match &b {
                        Expr::Lit(_) | Expr::Path(_) => (None, b),
                        _ => (Some(parse_quote!(let #end = #b;)), parse_quote!(#end)),
                    };
                    return Some(parse_quote!({
                        let mut #ident = #a;
                        #pre
                        while #ident < #b {
                            #(#stmts)*
                            #ident += 1;
                        }
                    }));
                }
            }
        }
        Some(match e {
            Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => {
                parse_quote!({
                    let mut #it = #a;
                    let #end = #b;
                    while #it < #end {
                        let #pat = #it;
                        #it = #it + 1;
                        #(#stmts)*
                    }
                })
            }
            Expr::Range(ExprRange { start: Some(a), end: Some(b), .. }) => {
                let (bv, s) = const_eval(b, &self.0.consts)?;
                let b = int_lit(bv + 1, &s);
                parse_quote!({
                    let mut #it = #a;
                    let #end = #b;
                    while #it < #end {
                        let #pat = #it;
                        #it = #it + 1;
                        #(#stmts)*
                    }
                })
            }
            Expr::MethodCall(m) if m.method == "chunks" && m.args.len() == 1 => {
                let (x, c) = (&m.receiver, &m.args[0]);
                parse_quote!({
                    let #sl = vslice(#x);
                    let #ck: usize = #c;
                    let mut #it: usize = 0;
                    while #it < #sl.len() {
                        let __q = if #sl.len() - #it > #ck { #it + #ck } else { #sl.len() };
                        let #pat = slice_subrange(#sl, #it, __q);
                        #it = __q;
                        #(#stmts)*
                    }
                })
            }
            Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => {
                let x = &m.receiver;
                let (p0, p1): (Pat, Pat) = match &**pat {
                    Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
                    Pat::Ident(i) => {
                        // the pair as a whole
                        let (a, b) = (format_ident!("__p{k}"), format_ident!("__q{k}"));
                        let mut g = f.clone();
                        g.pat = parse_quote!((#a, #b));
                        g.body.stmts.insert(0, parse_quote!(let #i = (#a, #b);));
                        self.1 -= 1;
                        return self.desugar(&g);
                    }
                    _ => return None,
                };
                if let Some(c) = chain(x, "chunks") {
                    let (y, c) = (&c.receiver, c.args.first()?);
                    return Some(parse_quote!({
                        let #sl = vslice(#y);
                        let #ck: usize = #c;
                        let mut #it: usize = 0;
                        let mut #n: usize = 0;
                        while #it < #sl.len() {
                            let __q = if #sl.len() - #it > #ck { #it + #ck } else { #sl.len() };
                            let #p0 = #n;
                            let #p1 = slice_subrange(#sl, #it, __q);
                            #n = #n + 1;
                            #it = __q;
                            #(#stmts)*
                        }
                    }));
                }
                parse_quote!({
                    let mut #src = #x;
                    let mut #n: usize = 0;
                    loop {
                        match #src.next() {
                            None => { break; }
                            Some(#v) => {
                                let #p0 = #n;
                                let #p1 = #v;
                                #n = #n + 1;
                                #(#stmts)*
                            }
                        }
                    }
                })
            }
            _ if slice_source(e).is_some() => {
                let x = slice_source(e);
                parse_quote!({
                    let #sl = #x;
                    let mut #it: usize = 0;
                    while #it < #sl.len() {
                        let #pat = &#sl[#it];
                        #it = #it + 1;
                        #(#stmts)*
                    }
                })
            }
            Expr::Reference(_) => return None,
            x => {
                let init: Expr = match x {
                    Expr::MethodCall(m) if m.method == "iter" || m.method == "into_iter" => x.clone(),
                    _ => parse_quote!((#x).into_iter()),
                };
                parse_quote!({
                    let mut #src = #init;
                    loop {
                        match #src.next() {
                            None => { break; }
                            Some(#v) => {
                                let #pat = #v;
                                #(#stmts)*
                            }
                        }
                    }
                })
            }
        })
    }
}
impl VisitMut for For<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            match self.desugar(f) {
                Some(n) => *e = n,
                None => {
                    self.0.unsupported.push(format!("for loop over {}", f.expr.to_token_stream()));
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Remaining small rules: vec (`from_elem` back to `vec!`), capacity (a floating point capacity hint becomes an
/// arbitrary value), rawptr (pointers used to duplicate a mutable borrow become opaque), phantom, path.
struct Small<'a>(&'a mut Ctx, Vec<String>);
struct HasFloat(bool);
impl VisitMut for HasFloat {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = t.to_token_stream().to_string();
        if s == "f64" || s == "f32" {
            self.0 = true;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_lit_float_mut(&mut self, _: &mut LitFloat) {
        self.0 = true;
    }
}
/// `X` in `(&X as *const u128 as *const T)` or `(&mut X as *mut u128 as *mut T)`
fn pointee<'a>(e: &'a Expr, target: &str) -> Option<&'a Expr> {
    match e {
        Expr::Paren(p) => pointee(&p.expr, target),
        Expr::Cast(c) => {
            let t = c.ty.to_token_stream().to_string();
            if t != format!("* const {target}") && t != format!("* mut {target}") {
                return None;
            }
            match &*c.expr {
                Expr::Cast(d) => {
                    let t = d.ty.to_token_stream().to_string();
                    match &*d.expr {
                        Expr::Reference(r) if t == "* const u128" || t == "* mut u128" => Some(&r.expr),
                        _ => None,
                    }
                }
                _ => None,
            }
        }
        _ => None,
    }
}
impl Small<'_> {
    /// Rule halves (little endian): `*(&mut X as *mut u128 as *mut u64).offset(N) OP= E` becomes
    /// `X = vput64(X, N, vget64(X, N) OP (E))`, and loading a SIMD register from `&X` becomes `vm_load(X)`.
    fn halves(&mut self, e: &mut Expr) {
        fn half(e: &Expr) -> Option<(Expr, Expr)> {
            if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
                if let Expr::MethodCall(m) = &**expr {
                    if (m.method == "offset" || m.method == "add") && m.args.len() == 1 {
                        return pointee(&m.receiver, "u64").map(|x| (x.clone(), m.args[0].clone()));
                    }
                }
                return pointee(expr, "u64").map(|x| (x.clone(), parse_quote!(0)));
            }
            None
        }
        match e {
            Expr::Binary(b) => {
                let op: BinOp = match b.op {
                    BinOp::BitAndAssign(_) => parse_quote!(&),
                    BinOp::BitOrAssign(_) => parse_quote!(|),
                    BinOp::BitXorAssign(_) => parse_quote!(^),
                    _ => return,
                };
                if let Some((x, n)) = half(&b.left) {
                    let r = &b.right;
                    self.0.hit("halves");
                    *e = parse_quote!(#x = vput64(#x, #n, vget64(#x, #n) #op (#r)));
                }
            }
            Expr::Assign(a) => {
                if let Some((x, n)) = half(&a.left) {
                    let r = &a.right;
                    self.0.hit("halves");
                    *e = parse_quote!(#x = vput64(#x, #n, #r));
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if path_str(&p.path).ends_with("_mm_loadu_si128") && c.args.len() == 1 {
                        if let Some(x) = pointee(&c.args[0], "__m128i").cloned() {
                            self.0.hit("halves");
                            *e = parse_quote!(vm_load(#x));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
impl VisitMut for Small<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let s = path_str(p);
        for (from, to) in [
            ("core::clone::Clone", "Clone"),
            ("std::clone::Clone", "Clone"),
            ("core::clone::Clone::clone", "Clone::clone"),
            ("std::mem::size_of", "vsize_of"),
            ("core::mem::size_of", "vsize_of"),
            ("mem::size_of", "vsize_of"),
            ("std::fmt::Result", "FmtResult"),
            ("core::fmt::Result", "FmtResult"),
            ("fmt::Result", "FmtResult"),
            ("std::fmt::Formatter", "Formatter"),
            ("core::fmt::Formatter", "Formatter"),
            ("fmt::Formatter", "Formatter"),
        ] {
            if s == from {
                self.0.hit("path");
                let args = p.segments.last().unwrap().arguments.clone();
                let mut np: Path = parse_str(to).unwrap();
                np.segments.last_mut().unwrap().arguments = args;
                *p = np;
                return;
            }
        }
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        let p = match &l.pat {
            Pat::Type(t) => &*t.pat,
            p => p,
        };
        if let (Pat::Ident(i), Some(init)) = (p, &l.init) {
            if matches!(&*init.expr, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vraw"))) {
                self.1.push(i.ident.to_string());
                l.pat = Pat::Ident(i.clone());
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if let Member::Named(n) = &f.member {
            if self.0.phantom_fields.contains(&n.to_string()) {
                self.0.hit("phantom");
                f.expr = parse_quote!(core::marker::PhantomData);
                return;
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.halves(e);
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = path_str(&p.path);
                    if s.ends_with("into_vec_unsafe") && c.args.len() == 1 {
                        if let Expr::Call(w) = &c.args[0] {
                            if let Some(Expr::Array(a)) = w.args.last() {
                                let v = a.elems.iter();
                                self.0.hit("vec");
                                *e = parse_quote!({ let mut __vec = Vec::new(); #(__vec.push(#v);)* __vec });
                                return;
                            }
                        }
                    }
                    if s.ends_with("vec::from_elem") && c.args.len() == 2 {
                        let (a, b) = (&c.args[0], &c.args[1]);
                        self.0.hit("vec");
                        *e = parse_quote!(vec![#a; #b]);
                    } else if s.ends_with("Vec::with_capacity") && c.args.len() == 1 {
                        let mut h = HasFloat(false);
                        h.visit_expr_mut(&mut c.args[0]);
                        if h.0 {
                            self.0.hit("capacity");
                            c.args[0] = parse_quote!(vany_usize());
                        }
                    }
                }
            }
            Expr::Cast(c) => {
                if let (Expr::Reference(r), Type::Ptr(t)) = (&*c.expr, &*c.ty) {
                    if r.mutability.is_some() && t.mutability.is_some() {
                        let x = &c.expr;
                        self.0.hit("rawptr");
                        *e = parse_quote!(vraw(#x));
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr {
                    if let Expr::Path(p) = &**expr {
                        if self.1.iter().any(|x| p.path.is_ident(x)) {
                            self.0.hit("rawptr");
                            *e = parse_quote!(valias(&#p));
                        }
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "unwrap" || m.method == "unwrap_unchecked" => {
                if let Some(a) = chain(&m.receiver, "as_mut") {
                    if a.args.is_empty() {
                        let r = &a.receiver;
                        self.0.hit("rawptr");
                        *e = parse_quote!(valias(&#r));
                    }
                }
            }
            _ => {}
        }
    }
}

/// Rule refop: an operand of a binary operator that is a reference to an integer is dereferenced.
/// Rule cfg: `if true {..}` without else comes from `cfg!(debug_assertions)`; both settings are covered.
struct RefOp<'a>(&'a mut Ctx, Vec<Ident>);
impl RefOp<'_> {
    fn fix(&mut self, e: &mut Expr) {
        let r = match e {
            Expr::Path(p) => p.path.is_ident("self") && self.0.receiver_prim,
            Expr::MethodCall(m) => m.method == "get_unchecked" && m.args.len() == 1,
            _ => false,
        } || matches!(e, Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.1.contains(i)));
        if r {
            self.0.hit("refop");
            *e = parse_quote!((*#e));
        }
    }
}
/// The variable that P binds to an element of a slice, if E is an access that gives a reference.
fn element_ref(p: &Pat, e: &Expr) -> Option<Ident> {
    match e {
        Expr::Paren(x) => return element_ref(p, &x.expr),
        Expr::Unsafe(u) if u.block.stmts.len() == 1 => {
            return match &u.block.stmts[0] {
                Stmt::Expr(x, None) => element_ref(p, x),
                _ => None,
            }
        }
        _ => {}
    }
    let Expr::MethodCall(m) = e else { return None };
    let bound = match p {
        Pat::Ident(i) if i.subpat.is_none() => {
            let slice = match &*m.receiver {
                Expr::Path(p) => !p.path.is_ident("self"),
                Expr::MethodCall(r) => r.method == "raw",
                _ => false,
            };
            return (slice && m.method == "get_unchecked" && m.args.len() == 1).then(|| i.ident.clone());
        }
        Pat::TupleStruct(t) if t.path.segments.last().is_some_and(|s| s.ident == "Some") && t.elems.len() == 1 => &t.elems[0],
        _ => return None,
    };
    let access = match m.method.to_string().as_str() {
        "get" => m.args.len() == 1,
        "first" | "last" => m.args.is_empty(),
        _ => false,
    };
    match bound {
        Pat::Ident(i) if access => Some(i.ident.clone()),
        _ => None,
    }
}
impl VisitMut for RefOp<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = self.1.len();
        for s in &mut b.stmts {
            self.visit_stmt_mut(s);
            if let Stmt::Local(l) = s {
                if let (Pat::Ident(i), true) = (&l.pat, l.init.is_some()) {
                    self.1.retain(|x| *x != i.ident);
                }
                if let Some(i) = l.init.as_ref().and_then(|x| element_ref(&l.pat, &x.expr)) {
                    self.1.push(i);
                }
            }
        }
        self.1.truncate(n);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let n = self.1.len();
        if let Expr::If(f) = e {
            if let Expr::Let(l) = &*f.cond {
                if let Some(i) = element_ref(&l.pat, &l.expr) {
                    self.visit_expr_mut(&mut f.cond);
                    self.1.push(i);
                    self.visit_block_mut(&mut f.then_branch);
                    self.1.truncate(n);
                    if let Some((_, x)) = &mut f.else_branch {
                        self.visit_expr_mut(x);
                    }
                    return;
                }
            }
        }
        if let Expr::Match(m) = e {
            self.visit_expr_mut(&mut m.expr);
            for a in &mut m.arms {
                self.1.extend(element_ref(&a.pat, &m.expr));
                if let Some((_, g)) = &mut a.guard {
                    self.visit_expr_mut(g);
                }
                self.visit_expr_mut(&mut a.body);
                self.1.truncate(n);
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Binary(b) => {
                self.fix(&mut b.left);
                self.fix(&mut b.right);
            }
            Expr::If(f) if f.else_branch.is_none() => {
                if let Expr::Lit(ExprLit { lit: Lit::Bool(_), .. }) = &*f.cond {
                    self.0.hit("cfg");
                    f.cond = parse_quote!(vany_bool());
                }
            }
            _ => {}
        }
    }
}

/// Marks every loop with its ordinal (in source order).
struct Mark(usize);
impl VisitMut for Mark {
    /// A loop that is a statement also gets markers before and after it.
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let count = stmts.len();
        for (i, mut s) in stmts.into_iter().enumerate() {
            let (is_loop, value) = match &s {
                Stmt::Expr(Expr::While(_), _) => (true, false),
                Stmt::Expr(Expr::Loop(_), semi) => (true, semi.is_none() && i + 1 == count),
                _ => (false, false),
            };
            let k = proc_macro2::Literal::usize_unsuffixed(self.0);
            self.visit_stmt_mut(&mut s);
            if is_loop {
                b.stmts.push(parse_quote!(__vbefore!(#k);));
            }
            b.stmts.push(s);
            if is_loop && !value {
                b.stmts.push(parse_quote!(__vafter!(#k);));
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let b = match e {
            Expr::While(w) => Some(&mut w.body),
            Expr::Loop(l) => Some(&mut l.body),
            _ => None,
        };
        if let Some(b) = b {
            let k = proc_macro2::Literal::usize_unsuffixed(self.0);
            self.0 += 1;
            let s: Stmt = parse_quote!(__vloop!(#k););
            b.stmts.insert(0, s);
            let t: Stmt = parse_quote!(__vloopend!(#k););
            let last_is_tail = matches!(b.stmts.last(), Some(Stmt::Expr(_, None)));
            if last_is_tail {
                if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
            }
            b.stmts.push(t);
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Puts the exit marker before every return and after the tail expression.
struct Exit {
    unit: bool,
}
impl VisitMut for Exit {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            *e = match &r.expr {
                Some(x) => parse_quote!({ let __r = #x; __vexit!(); return __r; }),
                None => parse_quote!({ __vexit!(); return; }),
            };
        }
    }
}

pub fn exit_markers(b: &mut Block, unit: bool) {
    let mut x = Exit { unit };
    x.visit_block_mut(b);
    let _ = x.unit;
    match b.stmts.last() {
        Some(Stmt::Expr(e, None)) if !unit => {
            if matches!(e, Expr::Block(bl) if matches!(bl.block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))) {
                return;
            }
            let e = e.clone();
            b.stmts.pop();
            let s: Block = parse_quote!({ let __r = #e; __vexit!(); __r });
            b.stmts.extend(s.stmts);
        }
        Some(Stmt::Expr(_, None)) => {
            if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
                *semi = Some(Default::default());
            }
            let s: Stmt = parse_quote!(__vexit!(););
            b.stmts.push(s);
        }
        _ if unit => {
            let s: Stmt = parse_quote!(__vexit!(););
            b.stmts.push(s);
        }
        _ => {}
    }
}

/// Rule local: macro definitions inside a function are dropped (they are expanded already), and integer constants
/// are treated like those outside.
struct Local<'a>(&'a mut Ctx);
impl VisitMut for Local<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in &b.stmts {
            if let Stmt::Item(Item::Const(k)) = s {
                if let Some((v, _)) = const_eval(&k.expr, &self.0.consts) {
                    let t = k.ty.to_token_stream().to_string();
                    self.0.consts.insert(k.ident.to_string(), (v, t));
                }
            }
        }
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Macro(_) | Item::Const(_))));
        visit_mut::visit_block_mut(self, b);
    }
}

/// All rules but the markers, in order.
pub fn apply(b: &mut Block, c: &mut Ctx) {
    let outer = c.consts.clone();
    Local(c).visit_block_mut(b);
    apply_rules(b, c);
    c.consts = outer;
}

fn apply_rules(b: &mut Block, c: &mut Ctx) {
    if c.formatting {
        Fmt(c).visit_block_mut(b);
    }
    Small(c, vec![]).visit_block_mut(b);
    Lazy(c).visit_block_mut(b);
    Panic(c).visit_block_mut(b);
    Expect(c).visit_block_mut(b);
    RefPat(c).visit_block_mut(b);
    Iters(c).visit_block_mut(b);
    For(c, 0).visit_block_mut(b);
    RefOp(c, vec![]).visit_block_mut(b);
    Fold(c).visit_block_mut(b);
}

pub fn mark(b: &mut Block) -> usize {
    let mut m = Mark(0);
    m.visit_block_mut(b);
    m.0
}

pub fn small_ty(t: &mut Type, c: &mut Ctx) {
    Small(c, vec![]).visit_type_mut(t);
}
pub fn small_item(t: &mut Item, c: &mut Ctx) {
    Small(c, vec![]).visit_item_mut(t);
}

/// The identifiers in a block
pub fn idents(b: &Block) -> BTreeSet<String> {
    fn go(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                proc_macro2::TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                _ => {}
            }
        }
    }
    let mut s = BTreeSet::new();
    go(b.to_token_stream(), &mut s);
    s
}

/// The tokens of each loop, in the order of their numbers.
pub fn loop_tokens(b: &Block) -> Vec<Vec<String>> {
    struct L(Vec<Vec<String>>);
    fn flat(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    if !a.is_empty() {
                        out.push(a.into());
                    }
                    flat(g.stream(), out);
                    if !b.is_empty() {
                        out.push(b.into());
                    }
                }
                t => out.push(t.to_string()),
            }
        }
    }
    impl VisitMut for L {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if matches!(e, Expr::While(_) | Expr::Loop(_)) {
                let mut v = vec![];
                flat(e.to_token_stream(), &mut v);
                self.0.push(v);
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut l = L(vec![]);
    l.visit_block_mut(&mut b.clone());
    l.0
}
