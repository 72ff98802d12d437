//! Mechanical extraction of the crate's functions into Verus.
//!
//! usage: extract EXPANDED.rs OVERLAY OUT.rs MAP.json only|must [VERIFY_LIST|- [VARIANTS]]
//!        extract --names EXPANDED.rs      prints the names used by the functions (for @names)
//!
//! EXPANDED.rs is the crate after macro expansion by rustc. OVERLAY holds contracts, invariants and
//! lemmas. Function bodies are taken from EXPANDED.rs; the rewrite rules that are applied to them are the
//! `rule_*` functions in this crate and nothing else (each application is counted in MAP.json).
//! VERIFY_LIST names the functions whose bodies are emitted; all others are emitted as
//! `external_body` with their contract, or dropped if they have none. VARIANTS has a line `KEY<TAB>n` for each
//! function for which the n-th alternative proof is to be used.

mod emit;
mod inline;
mod names;
mod overlay;
mod rules;

use std::collections::{BTreeMap, BTreeSet};
use std::fs;

pub fn fail(kind: &str, msg: &str) -> ! {
    eprintln!("EXTRACT-{kind}: {msg}");
    std::process::exit(3)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--names" {
        let src = fs::read_to_string(&args[2]).unwrap_or_else(|e| fail("IO", &e.to_string()));
        let file = syn::parse_file(&src).unwrap_or_else(|e| fail("PARSE", &e.to_string()));
        print!("{}", names::dump(&file));
        return;
    }
    if args.len() < 6 {
        fail("USAGE", "extract EXPANDED.rs OVERLAY OUT.rs MAP.json only|must [VERIFY_LIST]");
    }
    let src = fs::read_to_string(&args[1]).unwrap_or_else(|e| fail("IO", &e.to_string()));
    let ov = overlay::Overlay::parse(&fs::read_to_string(&args[2]).unwrap_or_else(|e| fail("IO", &e.to_string())));
    let mode = if args[5] == "must" { emit::Mode::Must } else { emit::Mode::Only };
    let verify: Option<BTreeSet<String>> = args.get(6).filter(|p| *p != "-").map(|p| {
        fs::read_to_string(p)
            .unwrap_or_else(|e| fail("IO", &e.to_string()))
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty())
            .collect()
    });
    let variants: BTreeMap<String, usize> = args
        .get(7)
        .map(|p| {
            fs::read_to_string(p)
                .unwrap_or_else(|e| fail("IO", &e.to_string()))
                .lines()
                .filter_map(|l| l.split_once('\t').and_then(|(k, n)| Some((k.to_string(), n.parse().ok()?))))
                .collect()
        })
        .unwrap_or_default();
    let mut file = syn::parse_file(&src).unwrap_or_else(|e| fail("PARSE", &e.to_string()));
    let renamed = names::rename_fields(&mut file, &ov.names);
    let mut em = emit::Emitter::new(ov, verify, mode);
    em.variants = variants;
    em.renamed = renamed;
    em.run(&file);
    fs::write(&args[3], em.text()).unwrap_or_else(|e| fail("IO", &e.to_string()));
    fs::write(&args[4], em.map_json()).unwrap_or_else(|e| fail("IO", &e.to_string()));
}
