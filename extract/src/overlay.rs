//! The overlay: contracts and proof text, kept apart from the code.
//!
//! ```text
//! @preamble            raw text of the specification module
//! @trait NAME          @super S   @items raw
//! @impl KEY            @items raw            ghost members of an impl
//! @client              raw text of the module of client theorems
//! @names KEY           names of the parameters, local variables and fields the contracts use (see names.rs)
//! @fn KEY              @variant starts another proof of the same contract
//!                      @ret r @requires @ensures @panics @decreases @attrs
//!                      @alt N PATTERN: the following @loop N sections apply if loop N matches the pattern
//!                      (tokens; $x is an identifier, to be used in the sections; ... is anything); ends with
//!                      @endalt
//!                      @entry @exit @loop N @loop N start|end|before|after
//! ```
//! `#` in column 0 starts a comment.

use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub requires: String,
    pub ensures: String,
    pub panics: Option<String>,
    pub decreases: String,
    pub attrs: String,
    pub entry: String,
    pub exit: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    /// trusted: never emitted with a body
    pub trusted: bool,
    /// private: not part of the interface, may be missing
    pub private: bool,
    /// signature of a private function, by which a renamed function is recognised
    pub sig: Option<String>,
    /// other proofs of the same contract
    pub variants: Vec<FnSpec>,
    /// other annotations of a loop: number, pattern, sections
    pub alts: Vec<(usize, String, FnSpec)>,
    in_alt: bool,
}

impl FnSpec {
    /// Puts the annotations in that fit the loops. `loops` has the tokens of each loop.
    pub fn choose_alts(&mut self, loops: &[Vec<String>]) {
        let alts = std::mem::take(&mut self.alts);
        let mut done = vec![];
        for (n, pat, a) in &alts {
            if done.contains(n) || *n >= loops.len() {
                continue;
            }
            let p: Vec<&str> = pat.split_whitespace().collect();
            let mut b = vec![];
            if !matches(&p, &loops[*n], &mut b) {
                continue;
            }
            done.push(*n);
            let sub = |t: &String| {
                let mut t = t.clone();
                for (k, v) in &b {
                    t = t.replace(k.as_str(), v);
                }
                t
            };
            for (mine, other) in [
                (&mut self.loops, &a.loops),
                (&mut self.loop_start, &a.loop_start),
                (&mut self.loop_end, &a.loop_end),
                (&mut self.loop_before, &a.loop_before),
                (&mut self.loop_after, &a.loop_after),
            ] {
                mine.remove(n);
                if let Some(t) = other.get(n) {
                    mine.insert(*n, sub(t));
                }
            }
        }
    }
    /// The names of the specification variables and of the variables of quantifiers, which must not capture a
    /// variable of the code
    pub fn ghosts(&self) -> BTreeSet<String> {
        let alts = self.alts.iter().map(|(_, _, a)| a);
        let (mut s, mut q) = (BTreeSet::new(), BTreeSet::new());
        for f in std::iter::once(self).chain(alts) {
            let maps = [&f.loop_start, &f.loop_end, &f.loop_before, &f.loop_after];
            for t in maps.iter().flat_map(|m| m.values()).chain([&f.entry, &f.exit]) {
                for l in t.lines() {
                    if let Some(x) = l.trim_start().strip_prefix("let ghost ") {
                        let x = x.strip_prefix("mut ").unwrap_or(x);
                        s.insert(x.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect());
                    }
                }
            }
            for t in maps.iter().flat_map(|m| m.values()).chain(f.loops.values()).chain([&f.entry, &f.exit]) {
                for x in ["forall|", "exists|", "choose|"].iter().flat_map(|q| t.split(*q).skip(1)) {
                    for v in x.split('|').next().unwrap_or("").split(',') {
                        q.insert(v.split(':').next().unwrap_or("").trim().to_string());
                    }
                }
            }
        }
        // the contracts mean the variable of the code by a name that a pattern spells out
        for (_, p, _) in &self.alts {
            for x in p.split_whitespace() {
                q.remove(x);
            }
        }
        &s | &q
    }
    /// Lines that start with `?name` are for functions in which this name occurs, those with `?!name` for others.
    pub fn choose_lines(&mut self, idents: &BTreeSet<String>) {
        let pick = |t: &mut String| {
            let mut out = String::new();
            for l in t.lines() {
                let mut line = l;
                while let Some(x) = line.trim_start().strip_prefix('?') {
                    let (name, tail) = x.split_once(' ').unwrap_or((x, ""));
                    let keep = match name.strip_prefix('!') {
                        Some(n) => !idents.contains(n),
                        None => idents.contains(name),
                    };
                    line = if keep { tail } else { "" };
                }
                out.push_str(line);
                out.push('\n');
            }
            *t = out;
        };
        pick(&mut self.entry);
        pick(&mut self.exit);
        for m in [&mut self.loops, &mut self.loop_start, &mut self.loop_end, &mut self.loop_before, &mut self.loop_after] {
            m.values_mut().for_each(pick);
        }
    }
    /// The contract with the n-th proof
    pub fn with_variant(&self, n: usize) -> FnSpec {
        if n == 0 {
            return self.clone();
        }
        let mut v = self.variants[n - 1].clone();
        v.ret = self.ret.clone();
        v.requires = self.requires.clone();
        v.ensures = self.ensures.clone();
        v.panics = self.panics.clone();
        v.decreases = self.decreases.clone();
        v.trusted = self.trusted;
        v.private = self.private;
        v.sig = self.sig.clone();
        if v.attrs.is_empty() {
            v.attrs = self.attrs.clone();
        }
        v
    }

    pub const EMPTY: FnSpec = FnSpec {
        ret: None,
        requires: String::new(),
        ensures: String::new(),
        panics: None,
        decreases: String::new(),
        attrs: String::new(),
        entry: String::new(),
        exit: String::new(),
        loops: BTreeMap::new(),
        loop_start: BTreeMap::new(),
        loop_end: BTreeMap::new(),
        loop_before: BTreeMap::new(),
        loop_after: BTreeMap::new(),
        trusted: false,
        private: false,
        sig: None,
        variants: vec![],
        alts: vec![],
        in_alt: false,
    };
}

#[derive(Default, Debug, Clone)]
pub struct TraitSpec {
    pub supers: String,
    pub items: String,
}

#[derive(Default, Debug)]
pub struct Overlay {
    pub preamble: String,
    pub traits: BTreeMap<String, TraitSpec>,
    pub impls: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnSpec>,
    pub client: String,
    pub names: BTreeMap<String, Vec<String>>,
}

impl Overlay {
    pub fn parse(text: &str) -> Overlay {
        let mut o = Overlay::default();
        #[derive(Clone)]
        enum Ctx {
            None,
            Pre,
            Client,
            Trait(String),
            Impl(String),
            Fn(String),
        }
        let mut ctx = Ctx::None;
        let mut sub = String::new();
        for (ln, line) in text.lines().enumerate() {
            if line.starts_with('#') && !line.starts_with("#[") && !line.starts_with("#!") {
                continue;
            }
            if let Some(rest) = line.strip_prefix('@') {
                let (head, arg) = match rest.find(' ') {
                    Some(i) => (&rest[..i], rest[i + 1..].trim()),
                    None => (rest.trim(), ""),
                };
                match head {
                    "preamble" => {
                        ctx = Ctx::Pre;
                        sub.clear();
                        continue;
                    }
                    "client" => {
                        ctx = Ctx::Client;
                        sub.clear();
                        continue;
                    }
                    "names" => {
                        if let Some((k, v)) = arg.split_once(" := ") {
                            o.names.insert(k.to_string(), v.split(' ').filter(|x| !x.is_empty()).map(str::to_string).collect());
                        }
                        continue;
                    }
                    "trait" => {
                        ctx = Ctx::Trait(arg.to_string());
                        o.traits.entry(arg.to_string()).or_default();
                        sub.clear();
                        continue;
                    }
                    "impl" => {
                        ctx = Ctx::Impl(arg.to_string());
                        o.impls.entry(arg.to_string()).or_default();
                        sub.clear();
                        continue;
                    }
                    "fn" => {
                        ctx = Ctx::Fn(arg.to_string());
                        if o.fns.contains_key(arg) {
                            crate::fail("OVERLAY", &format!("line {}: duplicate {arg}", ln + 1));
                        }
                        o.fns.entry(arg.to_string()).or_default();
                        sub.clear();
                        continue;
                    }
                    _ => {}
                }
                match &ctx {
                    Ctx::Fn(k) => {
                        let f = o.fns.get_mut(k).unwrap();
                        if head == "variant" {
                            f.variants.push(FnSpec::EMPTY);
                            sub.clear();
                            continue;
                        }
                        let f = if f.variants.is_empty() { f } else { f.variants.last_mut().unwrap() };
                        if head == "alt" {
                            let (n, pat) = arg.split_once(' ').unwrap_or((arg, ""));
                            let n = n.parse().unwrap_or_else(|_| crate::fail("OVERLAY", line));
                            f.alts.push((n, pat.to_string(), FnSpec::EMPTY));
                            f.in_alt = true;
                            sub.clear();
                            continue;
                        }
                        if head == "endalt" {
                            f.in_alt = false;
                            sub.clear();
                            continue;
                        }
                        let f = if f.in_alt { &mut f.alts.last_mut().unwrap().2 } else { f };
                        match head {
                            "ret" => f.ret = Some(arg.to_string()),
                            "trusted" => f.trusted = true,
                            "private" => {
                                f.private = true;
                                if !arg.is_empty() {
                                    f.sig = Some(arg.to_string());
                                }
                            }
                            "requires" | "ensures" | "panics" | "decreases" | "attrs" | "entry"
                            | "exit" => {
                                sub = head.to_string();
                                push(f, &sub, arg);
                            }
                            "loop" => {
                                sub = format!("loop {arg}");
                                push(f, &sub, "");
                            }
                            _ => crate::fail("OVERLAY", &format!("line {}: {line}", ln + 1)),
                        }
                    }
                    Ctx::Trait(k) => {
                        let t = o.traits.get_mut(k).unwrap();
                        match head {
                            "super" => t.supers = arg.to_string(),
                            "items" => sub = "items".to_string(),
                            _ => crate::fail("OVERLAY", &format!("line {}: {line}", ln + 1)),
                        }
                    }
                    _ => crate::fail("OVERLAY", &format!("line {}: {line}", ln + 1)),
                }
                continue;
            }
            match &ctx {
                Ctx::Pre => {
                    o.preamble.push_str(line);
                    o.preamble.push('\n');
                }
                Ctx::Client => {
                    o.client.push_str(line);
                    o.client.push('\n');
                }
                Ctx::Trait(k) => {
                    let t = o.traits.get_mut(k).unwrap();
                    t.items.push_str(line);
                    t.items.push('\n');
                }
                Ctx::Impl(k) => {
                    let t = o.impls.get_mut(k).unwrap();
                    t.push_str(line);
                    t.push('\n');
                }
                Ctx::Fn(k) => {
                    if line.trim().is_empty() {
                        continue;
                    }
                    let f = o.fns.get_mut(k).unwrap();
                    let f = if f.variants.is_empty() { f } else { f.variants.last_mut().unwrap() };
                    let f = if f.in_alt { &mut f.alts.last_mut().unwrap().2 } else { f };
                    push(f, &sub, line);
                }
                Ctx::None => {
                    if !line.trim().is_empty() {
                        crate::fail("OVERLAY", &format!("line {}: {line}", ln + 1));
                    }
                }
            }
        }
        o
    }
}

fn push(f: &mut FnSpec, sub: &str, text: &str) {
    let add = |s: &mut String| {
        if !text.is_empty() {
            s.push_str(text);
            s.push('\n');
        }
    };
    match sub {
        "requires" => add(&mut f.requires),
        "ensures" => add(&mut f.ensures),
        "panics" => add(f.panics.get_or_insert_with(String::new)),
        "decreases" => add(&mut f.decreases),
        "attrs" => add(&mut f.attrs),
        "entry" => add(&mut f.entry),
        "exit" => add(&mut f.exit),
        _ => {
            let parts: Vec<&str> = sub.split_whitespace().collect();
            if parts.len() < 2 || parts[0] != "loop" {
                if text.trim().is_empty() {
                    return;
                }
                crate::fail("OVERLAY", &format!("text outside a section: {text}"));
            }
            let n: usize = parts[1].parse().unwrap();
            match parts.get(2) {
                None => add(f.loops.entry(n).or_default()),
                Some(&"start") => add(f.loop_start.entry(n).or_default()),
                Some(&"end") => add(f.loop_end.entry(n).or_default()),
                Some(&"before") => add(f.loop_before.entry(n).or_default()),
                Some(&"after") => add(f.loop_after.entry(n).or_default()),
                _ => crate::fail("OVERLAY", sub),
            }
        }
    }
}

/// Matches a prefix of the tokens.
fn matches(p: &[&str], t: &[String], b: &mut Vec<(String, String)>) -> bool {
    let Some(h) = p.first() else { return true };
    if *h == "..." {
        return (0..=t.len()).any(|i| {
            let mut c = b.clone();
            let ok = matches(&p[1..], &t[i..], &mut c);
            if ok {
                *b = c;
            }
            ok
        });
    }
    let Some(x) = t.first() else { return false };
    if *h == "$str" {
        if !x.starts_with('"') {
            return false;
        }
    } else if h.starts_with('$') {
        if !x.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_') {
            return false;
        }
        if let Some((_, v)) = b.iter().find(|(k, _)| k == h) {
            if v != x {
                return false;
            }
        } else {
            b.push((h.to_string(), x.clone()));
        }
    } else if h != x {
        return false;
    }
    matches(&p[1..], &t[1..], b)
}
