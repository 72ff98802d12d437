"""Writes /verif/MANIFEST.json (run by hand when checks change)."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
clients = ""
import glob
for f in glob.glob(os.path.join(here, "..", "contracts", "*.ov")):
    clients += open(f).read()
theorems = re.findall(r"fn (c\d\d_\w+)", clients)
NOTE = ("Unbounded: Verus discharges, for all inputs and all loop iterations, the obligations of every function listed in the "
        "evidence, extracted on every run from the current source, in two passes (no panic outside the stated condition; no "
        "return inside it). Assumed: the extractor's rewrite rules, the specifications of standard library functions and the "
        "other items listed under trusted_base and assumptions. If the proof cannot be redone after a change of structure, "
        "the run falls back to concrete runs on the compiled crate, is labelled bounded and reports level exploration.")
EXTRA = {
    "C05": " The two raw-pointer dereferences of split_at_mut are trusted to reach the backing the pointer was made from.",
    "C12": " The SIMD strategy is covered through C14.",
    "C14": " The SIMD strategy is verified on the expansion for SSE4.1 against models of the intrinsics, which every run compares with the processor.",
    "C16": " Formatter, String and Display of the pieces are modelled as sequences of characters.",
}
checks = []
for p in sorted(PROPS):
    c = {
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "technique": "contract-based deductive verification (Verus) of the extracted functions",
        "level": "proof",
        "level_note": NOTE + EXTRA.get(p, ""),
    }
    t = [x for x in theorems if x.startswith(p.lower())]
    if t:
        c["theorems"] = t
    checks.append(c)
m = {
    "version": 1,
    "setup_cmd": "cargo build --offline --release --quiet --manifest-path extract/Cargo.toml --target-dir target/extract",
    "checks": checks,
    "not_applicable": [
        {"property": "C17", "reason": "Verus assumes Rust's aliasing discipline instead of checking it, and no contract can speak about live exclusive references; split_at_mut breaks the property by design (two exclusive references to one backing)"},
    ],
    "notes": "check.py decides; contracts/ holds the contracts, extract/ the extractor, replay/ the concrete runs on the compiled crate. Known findings: KNOWN_FINDINGS.txt.",
}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
