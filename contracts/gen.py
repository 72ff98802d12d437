#!/usr/bin/env python3
"""Concatenates the contract files. The contracts of the primitive integers are one text, instantiated for the
five integer types (as the code itself is, by a macro)."""
import sys, os, glob
here = os.path.dirname(os.path.abspath(__file__))
mode = sys.argv[1]
out = ""
for f in sorted(glob.glob(os.path.join(here, "*.ov"))):
    out += open(f).read().rstrip("\n") + "\n"
if "simd" in sys.argv[2:]:
    simd = open(os.path.join(here, "simd.tmpl")).read().rstrip("\n") + "\n"
    order = [-1, -1, 0, 1, 1, 2, 3, 4, 4, 5, 6, 7, 7, 8, 9, 10]
    simd = simd.replace("SIMDMASK", "seq![" + ", ".join("(%d) as i8" % x for x in order) + "]")
    lanes = "if i == 0 { assert(0u128 | (0u128 << 8) == 0 && 0u128 >> 4 == 0 && 0u128 & 4095 == 0) by (bit_vector); }\n"
    for k in range(1, 8):
        l = "(((e >> %d) & 0xff) | (((e >> %d) & 0xff) << 8))" % (8 * order[2 * k], 8 * order[2 * k + 1])
        lanes += "    if i == %d { assert(%s & 4095 == (e >> %d) & 0xfff) by (bit_vector); }\n" % (k, l if k % 2 else "(" + l + " >> 4)", 12 * (k - 1))
    out += simd.replace("SIMDLANES", lanes)
names = open(os.path.join(here, "names.txt")).read()
prims = [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", 64)]
view = """impl BitView for {t} {{
    open spec fn all(&self) -> Seq<bool> {{ Seq::new({n}, |i: int| (*self >> (i as {t})) & 1 == 1) }}
    open spec fn lo(&self) -> int {{ 0 }}
    open spec fn blen(&self) -> int {{ {n} }}
    open spec fn own(&self) -> bool {{ true }}
    #[verifier::prophetic] open spec fn fut(&self) -> Seq<(Seq<bool>, int, int, bool)> {{ nofut() }}
}}
"""
out = out.replace("PRIMVIEWS", "".join(view.format(t=t, n=n) for t, n in prims))
ext = "".join("assert(wbit(a, %d) == wbit(b, %d));\n    " % (i, i) for i in range(64))
ext += "assert(a == b) by (bit_vector)\n        requires\n"
ext += "".join("            (a >> %d) & 1 == (b >> %d) & 1,\n" % (i, i) for i in range(64)) + "    ;"
bit01 = "".join("    assert((a >> %d) & 1 == 0 || (a >> %d) & 1 == 1) by (bit_vector);\n    assert((b >> %d) & 1 == 0 || (b >> %d) & 1 == 1) by (bit_vector);\n" % (i, i, i, i) for i in range(64))
out = out.replace("EXT64", bit01 + ext)
tmpl = open(os.path.join(here, "prim.tmpl")).read()
out += "".join(tmpl.replace("{T}", t).replace("{N}", str(n)) for t, n in prims)
out += names
out = out.replace("VPANIC_ALLOWED", "true" if mode == "must" else "false")
sys.stdout.write(out)
