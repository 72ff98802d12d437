//! Renaming. The contracts mention parameters, local variables and fields by name. The overlay lists the names they
//! use (`@names`, printed by `extract --names`); if the code uses other names, they are renamed consistently
//! before extraction. A wrong guess makes a proof fail or the text be rejected, it cannot make a proof succeed:
//! what is verified is always the code up to a consistent renaming.

use crate::emit::{impl_key, norm};
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Names = BTreeMap<String, Vec<String>>;

/// Names bound by patterns, in order of their first binding.
struct Bound(Vec<String>);
impl VisitMut for Bound {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        let s = p.ident.to_string();
        // an identifier in a pattern may be a constant or a variant
        if s.chars().next().is_some_and(|c| c.is_lowercase() || c == '_') && !self.0.contains(&s) {
            self.0.push(s);
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

fn params(sig: &Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .map(|a| match a {
            FnArg::Receiver(_) => "self".into(),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => "?".into(),
            },
        })
        .collect()
}

fn consts(sig: &Signature) -> Vec<String> {
    sig.generics
        .params
        .iter()
        .filter_map(|g| match g {
            GenericParam::Const(c) => Some(c.ident.to_string()),
            _ => None,
        })
        .collect()
}

fn locals(b: &Block) -> Vec<String> {
    let mut x = Bound(vec![]);
    x.visit_block_mut(&mut b.clone());
    x.0
}

struct Sub<'a>(&'a BTreeMap<String, String>);
impl Sub<'_> {
    fn id(&self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn tokens(&self, t: TokenStream) -> TokenStream {
        t.into_iter()
            .map(|t| match t {
                TokenTree::Ident(mut i) => {
                    self.id(&mut i);
                    TokenTree::Ident(i)
                }
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.tokens(g.stream()))),
                t => t,
            })
            .collect()
    }
}
impl VisitMut for Sub<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.id(&mut p.ident);
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
            let mut i = p.path.segments[0].ident.clone();
            self.id(&mut i);
            p.path.segments[0].ident = i;
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        // a const argument is parsed as a type
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_none() {
            let mut i = p.path.segments[0].ident.clone();
            self.id(&mut i);
            p.path.segments[0].ident = i;
        }
        visit_mut::visit_type_path_mut(self, p);
    }
    fn visit_const_param_mut(&mut self, p: &mut ConstParam) {
        self.id(&mut p.ident);
        visit_mut::visit_const_param_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Member::Named(n) = &f.member {
                if self.0.contains_key(&n.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            if let Member::Named(n) = &f.member {
                if self.0.contains_key(&n.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(std::mem::take(&mut m.tokens));
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// Renames local variables that hide a function of the contracts.
pub fn rename_hiding(key: &str, sig: &Signature, body: &mut Block, reserved: &BTreeSet<String>, n: &Names) -> Vec<String> {
    let mut keep = params(sig);
    keep.extend(n.get(&format!("locals {key}")).cloned().unwrap_or_default());
    let map: BTreeMap<String, String> = locals(body)
        .iter()
        .filter(|x| reserved.contains(*x) && !keep.contains(x))
        .map(|x| (x.clone(), format!("{x}__local")))
        .collect();
    if !map.is_empty() {
        Sub(&map).visit_block_mut(body);
    }
    map.iter().map(|(a, b)| format!("{a} to {b} in {key}")).collect()
}

/// Renames the parameters and local variables of one function.
pub fn rename_locals(key: &str, sig: &mut Signature, body: Option<&mut Block>, n: &Names) -> Vec<String> {
    let mut done = vec![];
    let mut map = BTreeMap::new();
    let have_p = params(sig);
    let have_c = consts(sig);
    let have_l = body.as_ref().map(|b| locals(b)).unwrap_or_default();
    let taken: BTreeSet<&String> = have_p.iter().chain(&have_l).chain(&have_c).collect();
    let mut pair = |have: &[String], want: &[String], map: &mut BTreeMap<String, String>| {
        for (a, b) in have.iter().zip(want) {
            if a != b && a != "self" && b != "self" && a != "?" && b != "?" && !map.contains_key(a) && !map.values().any(|x| x == b) && !taken.contains(b) {
                map.insert(a.clone(), b.clone());
                done.push(format!("{a} to {b} in {key}"));
            }
        }
    };
    for (kind, have) in [("params", &have_p), ("consts", &have_c)] {
        if let Some(want) = n.get(&format!("{kind} {key}")) {
            if want.len() == have.len() {
                pair(have, want, &mut map);
            }
        }
    }
    if let Some(want) = n.get(&format!("locals {key}")) {
        let new: Vec<String> = have_l.iter().filter(|x| !want.contains(x) && !have_p.contains(x)).cloned().collect();
        let old: Vec<String> = want.iter().filter(|x| !have_l.contains(x)).cloned().collect();
        if new.len() == old.len() {
            pair(&new, &old, &mut map);
        }
    }
    if !map.is_empty() {
        let mut s = Sub(&map);
        s.visit_signature_mut(sig);
        if let Some(b) = body {
            s.visit_block_mut(b);
        }
    }
    done
}

fn each_struct(items: &[Item], top: &str, depth: usize, f: &mut impl FnMut(String, &ItemStruct)) {
    for i in items {
        match i {
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    let t = if depth == 0 { m.ident.to_string() } else { top.to_string() };
                    each_struct(items, &t, depth + 1, f);
                }
            }
            Item::Struct(s) => f(format!("{top}/{}", s.ident), s),
            _ => {}
        }
    }
}

fn fields(s: &ItemStruct) -> Vec<String> {
    s.fields
        .iter()
        .filter_map(|f| f.ident.as_ref().map(|i| format!("{i}:{}", norm(&f.ty.to_token_stream().to_string()))))
        .collect()
}

struct Fields<'a>(&'a BTreeMap<String, String>);
impl Fields<'_> {
    fn id(&self, i: &mut Ident) -> bool {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
            return true;
        }
        false
    }
}
impl VisitMut for Fields<'_> {
    fn visit_field_mut(&mut self, f: &mut Field) {
        if let Some(i) = &mut f.ident {
            self.id(i);
        }
        visit_mut::visit_field_mut(self, f);
    }
    fn visit_expr_field_mut(&mut self, f: &mut ExprField) {
        if let Member::Named(i) = &mut f.member {
            self.id(i);
        }
        visit_mut::visit_expr_field_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if let Member::Named(i) = &mut f.member {
            if self.id(i) && f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if let Member::Named(i) = &mut f.member {
            if self.id(i) && f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
}

/// Renames fields, in the whole crate at once.
pub fn rename_fields(file: &mut File, n: &Names) -> Vec<String> {
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut all: Vec<Vec<String>> = vec![];
    let mut clash = false;
    each_struct(&file.items, "", 0, &mut |key, s| {
        let have = fields(s);
        let name = |x: &String| x.split(':').next().unwrap().to_string();
        let ty = |x: &String| x.split_once(':').unwrap().1.to_string();
        all.push(have.iter().map(name).collect());
        let Some(want) = n.get(&format!("fields {key}")) else { return };
        let hn: Vec<String> = have.iter().map(name).collect();
        let wn: Vec<String> = want.iter().map(name).collect();
        let new: Vec<&String> = have.iter().filter(|x| !wn.contains(&name(x))).collect();
        let old: Vec<&String> = want.iter().filter(|x| !hn.contains(&name(x))).collect();
        for t in old.iter().map(|x| ty(x)).collect::<BTreeSet<_>>() {
            let a: Vec<String> = new.iter().filter(|x| ty(x) == t).map(|x| name(x)).collect();
            let b: Vec<String> = old.iter().filter(|x| ty(x) == t).map(|x| name(x)).collect();
            if a.len() == b.len() {
                for (x, y) in a.into_iter().zip(b) {
                    if map.insert(x, y.clone()).is_some_and(|z| z != y) {
                        clash = true;
                    }
                }
            }
        }
    });
    // no struct may have the old and the new name
    let clash = clash || all.iter().any(|f| f.iter().any(|x| map.get(x).is_some_and(|y| f.contains(y))));
    if clash || map.is_empty() {
        return vec![];
    }
    Fields(&map).visit_file_mut(file);
    map.iter().map(|(a, b)| format!("field {a} to {b}")).collect()
}

pub fn dump(file: &File) -> String {
    let mut out = String::new();
    each_struct(&file.items, "", 0, &mut |k, s| {
        let f = fields(s);
        if !f.is_empty() {
            out.push_str(&format!("@names fields {k} := {}\n", f.join(" ")));
        }
    });
    fn go(items: &[Item], top: &str, depth: usize, out: &mut String) {
        let mut one = |key: String, sig: &Signature, b: Option<&Block>| {
            let p = params(sig);
            if p.iter().any(|x| x != "self") {
                out.push_str(&format!("@names params {key} := {}\n", p.join(" ")));
            }
            let c = consts(sig);
            if !c.is_empty() {
                out.push_str(&format!("@names consts {key} := {}\n", c.join(" ")));
            }
            let l = b.map(locals).unwrap_or_default();
            if !l.is_empty() {
                out.push_str(&format!("@names locals {key} := {}\n", l.join(" ")));
            }
        };
        for i in items {
            match i {
                Item::Fn(f) => one(format!("{top}/{}", f.sig.ident), &f.sig, Some(&f.block)),
                Item::Trait(t) => {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            one(format!("trait {}::{}", t.ident, f.sig.ident), &f.sig, f.default.as_ref());
                        }
                    }
                }
                Item::Impl(x) => {
                    let k = impl_key(top, x);
                    for y in &x.items {
                        if let ImplItem::Fn(f) = y {
                            one(format!("{k}::{}", f.sig.ident), &f.sig, Some(&f.block));
                        }
                    }
                }
                _ => {}
            }
        }
        for i in items {
            if let Item::Mod(m) = i {
                if let Some((_, items)) = &m.content {
                    let t = if depth == 0 { m.ident.to_string() } else { top.to_string() };
                    go(items, &t, depth + 1, out);
                }
            }
        }
    }
    go(&file.items, "", 0, &mut out);
    out
}
