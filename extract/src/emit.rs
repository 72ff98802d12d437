//! Emission of the Verus text.

use crate::inline;
use crate::names;
use crate::overlay::{FnSpec, Overlay};
use crate::rules::{self, Ctx};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

/// Which half of "panics exactly when" is generated: in `Only`, callers have to exclude the panic condition
/// and no panic may be reachable; in `Must`, a function that returns guarantees that the condition was false.
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Only,
    Must,
}

pub struct FnOut {
    pub key: String,
    pub mode: &'static str,
    pub first: usize,
    pub last: usize,
    pub loops: usize,
    pub variants: usize,
}

pub struct Emitter {
    pub ov: Overlay,
    verify: Option<BTreeSet<String>>,
    mode: Mode,
    pub ctx: Ctx,
    out: String,
    pub fns: Vec<FnOut>,
    pub problems: Vec<(String, String)>,
    pub unknown: Vec<String>,
    pub dropped: Vec<String>,
    pub inlined: Vec<String>,
    /// loop counts that differ from the overlay's: a hint only, the verifier decides
    pub soft: Vec<(String, String)>,
    pub variants: BTreeMap<String, usize>,
    pub renamed: Vec<String>,
    seen: BTreeSet<String>,
    /// the functions of the contracts
    reserved: BTreeSet<String>,
    helpers: inline::Helpers,
}

pub fn type_key(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => {
            format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, type_key(&r.elem))
        }
        Type::Slice(s) => format!("[{}]", type_key(&s.elem)),
        Type::Paren(p) => type_key(&p.elem),
        Type::Group(p) => type_key(&p.elem),
        t => t.to_token_stream().to_string(),
    }
}

pub fn trait_key(p: &Path) -> String {
    let l = p.segments.last().unwrap();
    let n = l.ident.to_string();
    if n == "AsRef" || n == "AsMut" {
        if let PathArguments::AngleBracketed(a) = &l.arguments {
            if let Some(GenericArgument::Type(t)) = a.args.first() {
                return format!("{n}<{}>", type_key(t));
            }
        }
    }
    n
}

pub fn impl_key(top: &str, i: &ItemImpl) -> String {
    let t = type_key(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => format!("{top}/{t} as {}", trait_key(p)),
        None => format!("{top}/{t}"),
    }
}

const DROP_TRAITS: &[&str] = &["Debug", "BlockType"];

impl Emitter {
    pub fn new(ov: Overlay, verify: Option<BTreeSet<String>>, mode: Mode) -> Self {
        let w: Vec<&str> = ov.preamble.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|x| !x.is_empty()).collect();
        let mut reserved: BTreeSet<String> = w.windows(2).filter(|x| x[0] == "fn").map(|x| x[1].to_string()).collect();
        reserved.extend(["old", "choose", "spec", "proof", "exec", "open", "closed", "tracked", "ghost"].map(String::from));
        Emitter {
            ov,
            reserved,
            verify,
            mode,
            ctx: Ctx::default(),
            out: String::new(),
            fns: vec![],
            problems: vec![],
            unknown: vec![],
            dropped: vec![],
            inlined: vec![],
            soft: vec![],
            variants: BTreeMap::new(),
            renamed: vec![],
            seen: BTreeSet::new(),
            helpers: inline::Helpers::default(),
        }
    }

    fn verified(&self, key: &str) -> bool {
        match &self.verify {
            None => true,
            Some(v) => v.contains(key),
        }
    }

    pub fn run(&mut self, f: &File) {
        // constants, phantom fields and functions without a contract come first
        self.scan(&f.items, "", 0);
        self.rename_helpers();
        self.out.push_str(
            "#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_unsafe, unused_mut, unused_variables, unused_parens, \
             unused_braces, non_camel_case_types, unused_assignments, mismatched_lifetime_syntaxes)]\n",
        );
        self.out.push_str("\nuse vstd::prelude::*;\nfn main() {}\nverus! {\nglobal size_of usize == 8;\n");
        self.out.push_str("pub mod vspec {\n");
        let p = self.ov.preamble.clone();
        self.out.push_str(&p);
        self.out.push_str("}\n");
        for it in &f.items {
            self.item(it, "", 0);
        }
        if !self.ov.client.is_empty() {
            let c = self.ov.client.clone();
            self.out.push_str("pub mod client {\nuse vstd::prelude::*;\nuse vstd::slice::*;\nuse crate::vspec::*;\n");
            // theorems that are not wanted are left out
            let mut skip = false;
            for l in c.lines() {
                if let Some(r) = l.strip_prefix("pub fn c") {
                    let name = format!("client/c{}", &r[..r.find('(').unwrap_or(r.len())]);
                    skip = self.verify.as_ref().is_some_and(|v| !v.contains(&name));
                }
                if !skip {
                    self.out.push_str(l);
                    self.out.push('\n');
                } else if l == "}" {
                    skip = false;
                }
            }
            self.out.push_str("}\n");
        }
        self.out.push_str("}\n");
        let keys: Vec<String> = self.ov.fns.keys().cloned().collect();
        for k in keys {
            if !self.seen.contains(&k) && !self.ov.fns[&k].private {
                self.problems.push((k.clone(), "function not found".into()));
            }
        }
    }

    fn scan(&mut self, items: &[Item], top: &str, depth: usize) {
        for it in items {
            match it {
                Item::Const(c) if c.ident != "_" => {
                    if let Some((v, _)) = rules::const_eval(&c.expr, &self.ctx.consts) {
                        let t = c.ty.to_token_stream().to_string();
                        self.ctx.consts.insert(c.ident.to_string(), (v, t));
                    }
                }
                Item::Struct(s) => {
                    for f in &s.fields {
                        if type_key(&f.ty) == "PhantomData" {
                            if let Some(i) = &f.ident {
                                self.ctx.phantom_fields.push(i.to_string());
                            }
                        }
                    }
                }
                Item::Mod(m) => {
                    if let Some((_, items)) = &m.content {
                        if depth == 0 && m.ident == "traits" {
                            continue;
                        }
                        let t = if depth == 0 { m.ident.to_string() } else { top.to_string() };
                        self.scan(items, &t, depth + 1);
                    }
                }
                Item::Fn(f) => {
                    let key = format!("{top}/{}", f.sig.ident);
                    if !self.ov.fns.contains_key(&key) {
                        self.helpers.add(&key, None, &f.sig, &f.block, !matches!(f.vis, Visibility::Inherited));
                    }
                }
                Item::Impl(i) => {
                    let ik = impl_key(top, i);
                    if i.trait_.is_none() {
                        for x in &i.items {
                            if let ImplItem::Fn(f) = x {
                                let key = format!("{ik}::{}", f.sig.ident);
                                if !self.ov.fns.contains_key(&key) {
                                    self.helpers.add(
                                        &key,
                                        Some(type_key(&i.self_ty)),
                                        &f.sig,
                                        &f.block,
                                        matches!(f.vis, Visibility::Public(_)),
                                    );
                                } else {
                                    self.seen.insert(key);
                                }
                            }
                            if let ImplItem::Const(c) = x {
                                if let Some((v, _)) = rules::const_eval(&c.expr, &self.ctx.consts) {
                                    let t = c.ty.to_token_stream().to_string();
                                    self.ctx.consts.insert(format!("Self::{}", c.ident), (v, t));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    /// A private function that is missing is identified with the only new function of the same impl that has
    /// the same signature.
    fn rename_helpers(&mut self) {
        let missing: Vec<String> = self
            .ov
            .fns
            .iter()
            .filter(|(k, s)| s.private && s.sig.is_some() && !self.seen.contains(*k))
            .map(|(k, _)| k.clone())
            .collect();
        for k in missing {
            let spec = self.ov.fns[&k].clone();
            let prefix = k.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
            let c: Vec<String> = self
                .helpers
                .list
                .iter()
                .filter(|h| h.key.rsplit_once("::").map(|x| x.0) == Some(prefix.as_str()))
                .filter(|h| norm(&h.sig_text()) == norm(spec.sig.as_deref().unwrap()))
                .map(|h| h.key.clone())
                .collect();
            if c.len() == 1 {
                self.helpers.list.retain(|h| h.key != c[0]);
                self.ov.fns.insert(c[0].clone(), spec);
                if self.verified(&k) {
                    if let Some(v) = &mut self.verify {
                        v.insert(c[0].clone());
                    }
                }
            }
        }
    }

    fn line(&self) -> usize {
        self.out.bytes().filter(|b| *b == b'\n').count() + 1
    }

    fn item(&mut self, it: &Item, top: &str, depth: usize) {
        match it {
            Item::Mod(m) => {
                let Some((_, items)) = &m.content else { return };
                if depth == 0 && m.ident == "traits" {
                    self.dropped.push("mod traits".into());
                    return;
                }
                let t = if depth == 0 { m.ident.to_string() } else { top.to_string() };
                self.out.push_str(&format!(
                    "pub mod {} {{\nuse vstd::prelude::*;\nuse vstd::slice::*;\nuse crate::vspec::*;\nbroadcast use crate::vspec::shifts;\n",
                    m.ident
                ));
                for i in items {
                    self.item(i, &t, depth + 1);
                }
                self.out.push_str("}\n");
            }
            Item::Use(u) => {
                let s = u.tree.to_token_stream().to_string();
                for bad in ["itertools", "num ", "std :: fmt", "core :: fmt", "core :: panic", "std :: prelude", "std :: arch", "core :: arch"] {
                    if s.starts_with(bad) {
                        self.dropped.push(format!("use {s}"));
                        return;
                    }
                }
                let mut tree = u.tree.clone();
                if s.starts_with("std") || s.starts_with("core") || s.starts_with(":: std") {
                    match without_mirrored(tree) {
                        Some(t) => tree = t,
                        None => return,
                    }
                }
                let s = tree.to_token_stream().to_string();
                let vis = if matches!(u.vis, Visibility::Inherited) { "" } else { "pub " };
                self.out.push_str(&format!("{vis}use {s};\n"));
            }
            Item::ExternCrate(_) => {}
            Item::Macro(m) => self.dropped.push(format!(
                "macro {}",
                m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()
            )),
            Item::Const(c) => {
                if c.ident == "_" {
                    self.dropped.push("const _".into());
                    return;
                }
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                if let Some((v, t)) = self.ctx.consts.get(&c.ident.to_string()) {
                    let l = LitInt::new(&format!("{v}{t}"), proc_macro2::Span::call_site());
                    c.expr = parse_quote!(#l);
                } else {
                    self.dropped.push(format!("const {}", c.ident));
                    return;
                }
                self.print(c.to_token_stream(), None, "");
                self.out.push('\n');
            }
            Item::Static(s) => self.dropped.push(format!("static {}", s.ident)),
            Item::Type(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                self.print(t.to_token_stream(), None, "");
            }
            Item::Struct(s) => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                self.print(s.to_token_stream(), None, "");
                self.out.push('\n');
            }
            Item::Enum(e) => {
                let mut e = e.clone();
                e.attrs.clear();
                e.vis = parse_quote!(pub);
                self.print(e.to_token_stream(), None, "");
                self.out.push('\n');
            }
            Item::Trait(t) => self.item_trait(t),
            Item::Impl(i) => self.item_impl(i, top),
            Item::Fn(f) => {
                let key = format!("{top}/{}", f.sig.ident);
                if self.ov.fns.contains_key(&key) {
                    let spec = self.ov.fns[&key].clone();
                    self.function(&key, &f.sig, Some(&f.block), &spec, None, false);
                } else if matches!(f.vis, Visibility::Public(_)) {
                    self.unknown.push(key);
                }
            }
            other => self.unknown.push(format!("item {}", kind(other))),
        }
    }

    fn item_trait(&mut self, t: &ItemTrait) {
        let name = t.ident.to_string();
        let ts = self.ov.traits.get(&name).cloned();
        if ts.is_none() {
            self.unknown.push(format!("trait {name}"));
        }
        let ts = ts.unwrap_or_default();
        let mut sup: Vec<String> = t.supertraits.iter().map(|s| s.to_token_stream().to_string()).collect();
        if !ts.supers.is_empty() {
            sup.push(ts.supers.clone());
        }
        let g = &t.generics;
        let gs = quote!(#g).to_string();
        self.out.push_str(&format!(
            "pub trait {name}{gs}{}{} {{\n{}",
            if sup.is_empty() { "" } else { ": " },
            sup.join(" + "),
            ts.items
        ));
        for i in &t.items {
            match i {
                TraitItem::Fn(f) => {
                    let key = format!("trait {name}::{}", f.sig.ident);
                    self.seen.insert(key.clone());
                    let spec = self.ov.fns.get(&key).cloned();
                    if spec.is_none() {
                        self.unknown.push(key.clone());
                        if f.default.is_some() {
                            continue;
                        }
                    }
                    let spec = spec.unwrap_or_default();
                    self.function(&key, &f.sig, f.default.as_ref(), &spec, None, true);
                }
                TraitItem::Type(ty) => {
                    let id = &ty.ident;
                    self.out.push_str(&format!("type {id};\n"));
                }
                _ => self.unknown.push(format!("trait {name} item")),
            }
        }
        self.out.push_str("}\n");
    }

    fn item_impl(&mut self, i: &ItemImpl, top: &str) {
        let ik = impl_key(top, i);
        let tkey = i.trait_.as_ref().map(|(_, p, _)| trait_key(p));
        if let Some(t) = &tkey {
            if DROP_TRAITS.contains(&t.as_str()) && !self.ov.fns.keys().any(|k| k.starts_with(&format!("{ik}::"))) {
                self.dropped.push(format!("impl {ik}"));
                return;
            }
            let known = i.items.is_empty()
                || self.ov.impls.contains_key(&ik)
                || self.ov.fns.keys().any(|k| k.starts_with(&format!("{ik}::")));
            if !known {
                self.unknown.push(format!("impl {ik}"));
                return;
            }
        }
        let g = &i.generics;
        let (_, _, wh) = g.split_for_impl();
        let mut self_ty = (*i.self_ty).clone();
        rules::small_ty(&mut self_ty, &mut self.ctx);
        let params = {
            let mut g2 = g.clone();
            g2.where_clause = None;
            // the bounds may name core::clone::Clone
            let mut it: Item = parse_quote!(impl #g2 X {});
            rules::small_item(&mut it, &mut self.ctx);
            match it {
                Item::Impl(x) => x.generics.to_token_stream().to_string(),
                _ => unreachable!(),
            }
        };
        let unsf = if i.unsafety.is_some() { "unsafe " } else { "" };
        let head = match &i.trait_ {
            Some((_, p, _)) => {
                let last = p.segments.last().unwrap();
                let n = &last.ident;
                let a = &last.arguments;
                format!("{unsf}impl{params} {} for {} {}", quote!(#n #a), self_ty.to_token_stream(), wh.to_token_stream())
            }
            None => format!("impl{params} {} {}", self_ty.to_token_stream(), wh.to_token_stream()),
        };
        self.out.push_str(&format!("{head} {{\n"));
        if let Some(x) = self.ov.impls.get(&ik) {
            let x = x.clone();
            self.out.push_str(&x);
        }
        for x in &i.items {
            match x {
                ImplItem::Fn(f) => {
                    let key = format!("{ik}::{}", f.sig.ident);
                    self.seen.insert(key.clone());
                    let spec = self.ov.fns.get(&key).cloned();
                    let tspec = tkey
                        .as_ref()
                        .and_then(|t| self.ov.fns.get(&format!("trait {t}::{}", f.sig.ident)))
                        .cloned();
                    match (spec, tkey.is_some()) {
                        (Some(s), _) => self.function(&key, &f.sig, Some(&f.block), &s, tspec.as_ref().or(if tkey.is_some() { Some(&EMPTY) } else { None }), false),
                        (None, true) => {
                            self.unknown.push(key.clone());
                        }
                        (None, false) => {
                            if matches!(f.vis, Visibility::Public(_)) {
                                self.unknown.push(key);
                            }
                        }
                    }
                }
                ImplItem::Type(t) => {
                    let (id, ty) = (&t.ident, &t.ty);
                    self.out.push_str(&format!("type {id} = {};\n", ty.to_token_stream()));
                }
                ImplItem::Const(c) => {
                    if tkey.is_some() {
                        self.unknown.push(format!("{ik} const {}", c.ident));
                    } else {
                        self.dropped.push(format!("{ik} const {}", c.ident));
                    }
                }
                _ => self.unknown.push(format!("{ik} item")),
            }
        }
        self.out.push_str("}\n");
    }

    /// Emits one function. `tspec` is the trait's contract if this is a method of a trait impl.
    fn function(
        &mut self,
        key: &str,
        sig: &Signature,
        body: Option<&Block>,
        spec: &FnSpec,
        tspec: Option<&FnSpec>,
        is_trait: bool,
    ) {
        let ver = self.verified(key) && !spec.trusted && body.is_some();
        let nvar = spec.variants.len();
        let mut chosen = spec.with_variant(self.variants.get(key).copied().unwrap_or(0).min(nvar));
        let spec = &mut chosen;
        let panics = spec.panics.clone().or_else(|| tspec.and_then(|t| t.panics.clone()));
        let mut sig = sig.clone();
        sig.constness = None;
        let mut body = body.cloned();
        let r = names::rename_locals(key, &mut sig, body.as_mut(), &self.ov.names);
        self.renamed.extend(r);
        let body = body.as_ref();
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => r.attrs.clear(),
                FnArg::Typed(t) => {
                    t.attrs.clear();
                    rules::small_ty(&mut t.ty, &mut self.ctx);
                }
            }
        }
        let unit = matches!(sig.output, ReturnType::Default);
        let r = spec.ret.clone().unwrap_or_else(|| "r".into());
        let output = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                let mut t = (**t).clone();
                rules::small_ty(&mut t, &mut self.ctx);
                format!(" -> ({r}: {})", t.to_token_stream())
            }
        };
        let in_impl = tspec.is_some();
        let mut contract = String::new();
        let mut requires = if in_impl { String::new() } else { spec.requires.clone() };
        let mut ensures = spec.ensures.clone();
        // the panic condition belongs to the trait's contract for methods of a trait impl
        if let (Some(p), false) = (&spec.panics, in_impl) {
            match self.mode {
                Mode::Only => requires = format!("{},\n!({}),", requires.trim().trim_end_matches(','), p.trim()),
                Mode::Must => ensures = format!("{},\n!({}),", ensures.trim().trim_end_matches(','), p.trim()),
            }
        } else if let (Some(p), true) = (&spec.panics, in_impl) {
            // an implementation may state its own condition only if it implements a std trait
            if tspec.unwrap().panics.is_none() && self.mode == Mode::Must {
                ensures = format!("{},\n!({}),", ensures.trim().trim_end_matches(','), p.trim());
            }
        }
        for (k, v) in [("requires", requires), ("ensures", ensures)] {
            let v = v.trim().trim_start_matches(',').trim().to_string();
            if !v.is_empty() {
                contract.push_str(&format!("    {k}\n{v}\n"));
            }
        }
        if !spec.decreases.trim().is_empty() {
            contract.push_str(&format!("    decreases\n{}\n", spec.decreases));
        }
        sig.output = ReturnType::Default;
        let wh = sig.generics.where_clause.take();
        let vis = if is_trait || in_impl { "" } else { "pub " };
        self.out.push('\n');
        let first = self.line();
        let attrs = spec.attrs.clone();
        self.out.push_str(&attrs);
        if !ver && body.is_some() {
            self.out.push_str("#[verifier::external_body]\n");
        }
        self.out.push_str(&format!(
            "{vis}{}{output} {}\n{contract}",
            sig.to_token_stream(),
            wh.to_token_stream()
        ));
        let mut loops = 0;
        match body {
            None => self.out.push_str(";\n"),
            Some(_) if !ver => self.out.push_str("{ unimplemented!() }\n"),
            Some(b) => {
                let mut b = b.clone();
                let before = self.ctx.unsupported.len();
                let mut il = inline::Inliner::new(&self.helpers, key);
                il.run(&mut b);
                for _ in 0..inline::closures(&mut b) {
                    self.ctx.hit("closure");
                }
                self.inlined.extend(il.done.iter().map(|d| format!("{d} in {key}")));
                for p in il.problems {
                    self.problems.push((key.to_string(), p));
                }
                let r = names::rename_hiding(key, &sig, &mut b, &(&self.reserved | &spec.ghosts()), &self.ov.names);
                self.renamed.extend(r);
                self.ctx.receiver_prim = is_prim_receiver(key);
                self.ctx.formatting = key.ends_with(" as Debug::fmt");
                rules::apply(&mut b, &mut self.ctx);
                spec.choose_alts(&rules::loop_tokens(&b));
                spec.choose_lines(&rules::idents(&b));
                loops = rules::mark(&mut b);
                if !spec.exit.trim().is_empty() {
                    rules::exit_markers(&mut b, unit);
                }
                for p in self.ctx.unsupported.split_off(before) {
                    self.problems.push((key.to_string(), p));
                }
                let want = spec.loops.len();
                if want != loops {
                    self.soft.push((key.to_string(), format!("{loops} loops, expected {want}")));
                }
                let inner: TokenStream = b.stmts.iter().map(|s| s.to_token_stream()).collect();
                self.out.push_str("{\n");
                if self.ctx.formatting {
                    // the characters of the string literals
                    let mut t = String::new();
                    for l in rules::strings(&b) {
                        let s = l.to_token_stream();
                        let c: Vec<String> = l.value().chars().map(|c| format!("{c:?}")).collect();
                        t.push_str(&format!("proof {{ reveal_strlit({s}); assert({s}@ =~= seq![{}]); }}\n", c.join(", ")));
                    }
                    spec.entry.insert_str(0, &t);
                    for k in 0..loops {
                        spec.loop_start.entry(k).or_default().insert_str(0, &t);
                    }
                }
                self.out.push_str(&spec.entry);
                self.print(inner, Some(spec), panics.as_deref().unwrap_or("false"));
                self.out.push_str("\n}\n");
            }
        }
        let last = self.line();
        self.fns.push(FnOut {
            key: key.to_string(),
            mode: if body.is_none() {
                "declared"
            } else if ver {
                "verified"
            } else if spec.trusted {
                "trusted"
            } else {
                "assumed"
            },
            first,
            last,
            loops,
            variants: nvar,
        });
    }

    fn print(&mut self, ts: TokenStream, spec: Option<&FnSpec>, _p: &str) {
        let mut s = String::new();
        print_tokens(ts, spec, &mut s);
        self.out.push_str(&s);
    }

    pub fn text(&self) -> &str {
        &self.out
    }

    pub fn map_json(&self) -> String {
        let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "));
        let list = |v: &[String]| v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ");
        let fns: Vec<String> = self
            .fns
            .iter()
            .map(|f| {
                format!(
                    "{{\"key\": {}, \"mode\": \"{}\", \"first\": {}, \"last\": {}, \"loops\": {}, \"variants\": {}}}",
                    q(&f.key),
                    f.mode,
                    f.first,
                    f.last,
                    f.loops,
                    f.variants
                )
            })
            .collect();
        let counts: Vec<String> = self.ctx.counts.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
        let pairs = |v: &[(String, String)]| {
            v.iter().map(|(k, v)| format!("{{\"fn\": {}, \"what\": {}}}", q(k), q(v))).collect::<Vec<_>>().join(", ")
        };
        format!(
            "{{\n\"functions\": [\n{}\n],\n\"rules\": {{{}}},\n\"problems\": [{}],\n\"soft\": [{}],\n\"renamed\": [{}],\n\"unknown\": [{}],\n\"dropped\": [{}],\n\"inlined\": [{}]\n}}\n",
            fns.join(",\n"),
            counts.join(", "),
            pairs(&self.problems),
            pairs(&self.soft),
            list(&self.renamed),
            list(&self.unknown),
            list(&self.dropped),
            list(&self.inlined)
        )
    }
}

/// Traits of std that the specification module restates with contracts.
const MIRROR: &[&str] =
    &["RangeBounds", "Iterator", "IntoIterator", "ExactSizeIterator", "PartialEq", "Clone", "AsRef", "AsMut"];

fn without_mirrored(t: UseTree) -> Option<UseTree> {
    match t {
        UseTree::Name(n) => (!MIRROR.contains(&n.ident.to_string().as_str())).then_some(UseTree::Name(n)),
        UseTree::Path(mut p) => {
            p.tree = Box::new(without_mirrored(*p.tree)?);
            Some(UseTree::Path(p))
        }
        UseTree::Group(mut g) => {
            let items: Vec<UseTree> = g.items.into_iter().filter_map(without_mirrored).collect();
            if items.is_empty() {
                return None;
            }
            g.items = items.into_iter().collect();
            Some(UseTree::Group(g))
        }
        o => Some(o),
    }
}

static EMPTY: FnSpec = FnSpec::EMPTY;

fn is_prim_receiver(key: &str) -> bool {
    ["u8 as", "u16 as", "u32 as", "u64 as", "usize as"].iter().any(|p| key.contains(&format!("/{p} ")))
}

fn kind(i: &Item) -> &'static str {
    match i {
        Item::Union(_) => "union",
        Item::ForeignMod(_) => "foreign mod",
        _ => "other",
    }
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn marker(v: &[TokenTree], i: usize) -> Option<(String, TokenStream)> {
    match (&v[i], v.get(i + 1), v.get(i + 2)) {
        (TokenTree::Ident(id), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g)))
            if p.as_char() == '!' && id.to_string().starts_with("__v") =>
        {
            Some((id.to_string(), g.stream()))
        }
        _ => None,
    }
}

fn print_tokens(ts: TokenStream, spec: Option<&FnSpec>, out: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let empty = FnSpec::EMPTY;
    let spec_ref = spec.unwrap_or(&empty);
    let mut i = 0;
    while i < v.len() {
        if let Some((name, arg)) = marker(&v, i) {
            let n: usize = arg.to_string().parse().unwrap_or(0);
            match name.as_str() {
                "__vpanic" => out.push_str(if arg.is_empty() { "vpanic() " } else { "vpanic::<()>() " }),
                "__vexit" => out.push_str(&format!("\n{}\n", spec_ref.exit)),
                "__vloop" => {
                    if let Some(t) = spec_ref.loop_start.get(&n) {
                        out.push_str(&format!("\n{t}\n"));
                    }
                }
                "__vloopend" => {
                    if let Some(t) = spec_ref.loop_end.get(&n) {
                        out.push_str(&format!("\n{t}\n"));
                    }
                }
                "__vbefore" => {
                    if let Some(t) = spec_ref.loop_before.get(&n) {
                        out.push_str(&format!("\n{t}\n"));
                    }
                }
                "__vafter" => {
                    if let Some(t) = spec_ref.loop_after.get(&n) {
                        out.push_str(&format!("\n{t}\n"));
                    }
                }
                _ => crate::fail("MARKER", &name),
            }
            i += 3;
            if name != "__vpanic" {
                if let Some(TokenTree::Punct(p)) = v.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
            }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if o == "{" {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if !inner.is_empty() {
                        if let Some((name, arg)) = marker(&inner, 0) {
                            if name == "__vloop" {
                                let n: usize = arg.to_string().parse().unwrap();
                                if let Some(t) = spec_ref.loops.get(&n) {
                                    out.push_str(&format!("\n{t}\n"));
                                }
                            }
                        }
                    }
                    out.push_str("{\n");
                } else {
                    out.push_str(o);
                }
                print_tokens(g.stream(), spec, out);
                if o == "{" {
                    out.push_str("\n}\n");
                } else {
                    out.push_str(c);
                    out.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' {
                    out.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    out.push(' ');
                }
            }
            t => {
                out.push_str(&t.to_string());
                out.push(' ');
            }
        }
        i += 1;
    }
}
