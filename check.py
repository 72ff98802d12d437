#!/usr/bin/env python3
"""Decides one property: extracts the functions of /repo's current source, has Verus discharge every obligation of
their contracts, and, where that fails, looks for an input that shows the violation on the compiled crate.

usage: check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE
exit 0: held; exit 1: violated (VIOLATION line on stdout); anything else: the check itself failed.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CRATE = os.path.join(REPO, "succinct_neo")
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS  # noqa: E402

SIMD_FLAGS = "-C target-feature=+sse2,+ssse3,+sse4.1"
BASE_ENV = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET")}
BASE_ENV["CARGO_NET_OFFLINE"] = "true"
T0 = time.time()
RETRY_UNTIL = 360  # seconds after the start


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout, env=None, cwd=None):
    e = dict(BASE_ENV)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        dec = lambda b: b if isinstance(b, str) else (b or b"").decode(errors="replace")
        return -999, dec(x.stdout), dec(x.stderr) + "\n(time limit of %d s reached)" % timeout


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ building


def build_extractor():
    t = os.path.join(HERE, "target", "extract")
    rc, out, err = run(["cargo", "build", "--offline", "--release", "--quiet"], 600, {"CARGO_TARGET_DIR": t}, os.path.join(HERE, "extract"))
    if rc != 0:
        raise CheckError("the extractor does not build:\n" + err[-3000:])
    return os.path.join(t, "release", "extract")


def expand(scratch, flags, tag):
    """The crate after macro expansion by rustc."""
    env = {"CARGO_TARGET_DIR": os.path.join(scratch, "expand" + tag), "RUSTUP_TOOLCHAIN": "nightly"}
    if flags:
        env["RUSTFLAGS"] = flags
    rc, out, err = run(["cargo", "rustc", "--offline", "--lib", "--quiet", "--", "-Zunpretty=expanded"], 600, env, CRATE)
    if rc != 0 or not out.strip():
        raise CheckError("the crate does not compile:\n" + err[-3000:])
    p = os.path.join(scratch, "expanded%s.rs" % tag)
    with open(p, "w") as f:
        f.write(out)
    return p


def build_replay(scratch, kind, bins):
    """kind: debug, release or simd. Returns a map from program name to path or None, and what failed."""
    t = os.path.join(scratch, "replay-" + kind)
    src = os.path.join(HERE, "replay")
    if REPO != "/repo":
        src = os.path.join(scratch, "replay-src-" + kind)
        shutil.copytree(os.path.join(HERE, "replay"), src, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(src, "Cargo.toml")
        s = open(p).read().replace("/repo/succinct_neo", CRATE)
        open(p, "w").write(s)
    env = {"CARGO_TARGET_DIR": t}
    if kind == "simd":
        env["RUSTFLAGS"] = SIMD_FLAGS
    res, errs = {}, []
    for b in bins:
        cmd = ["cargo", "build", "--offline", "--quiet", "--bin", b] + (["--release"] if kind == "release" else [])
        rc, out, err = run(cmd, 600, env, src)
        if rc == 0:
            res[b] = os.path.join(t, "release" if kind == "release" else "debug", b)
        else:
            errs.append("%s (%s): %s" % (b, kind, err[-1500:]))
    return res, errs


# ------------------------------------------------------------------ deduction


class Pass:
    """One run of extraction and Verus ("only" or "must")."""

    def __init__(self, mode):
        self.mode = mode
        self.failed = {}  # function key -> messages
        self.lost = {}  # function key -> why its body is not verified
        self.problems = []
        self.unknown = []
        self.keys = {}
        self.obl = {}  # function key -> number of obligations
        self.lemma_obl = 0
        self.lemma_failed = []
        self.queries = 0
        self.smt_us = 0
        self.rlimit = {}
        self.cmds = []
        self.output = ""
        self.ok = False
        self.why = ""
        self.info = {}


def fn_ranges(mapj, out_text):
    """Line ranges of the functions in the verified text, including the client theorems."""
    r = [(f["first"], f["last"], f["key"]) for f in mapj["functions"]]
    lines = out_text.split("\n")
    inside = False
    cur = None
    for i, l in enumerate(lines, 1):
        if l.startswith("pub mod client"):
            inside = True
        if inside:
            m = re.match(r"\s*(?:pub )?(?:proof |exec )?fn (c\d\d_\w+)", l)
            if m:
                if cur:
                    r.append((cur[0], i - 1, cur[1]))
                cur = (i, "client/" + m.group(1))
    if cur:
        r.append((cur[0], len(lines), cur[1]))
    return sorted(r)


def key_at(ranges, line):
    for a, b, k in ranges:
        if a <= line <= b:
            return k
    return None


def verus_once(p, path, extra, scratch, tag, timeout):
    """Runs Verus; returns (rc, json result or None, [(level, message, [(line, primary, label)])], text)."""
    logd = os.path.join(scratch, "air-" + tag)
    cmd = ["verus", path, "--output-json", "--time-expanded", "--error-format=json", "--log", "air", "--log-dir", logd, "--num-threads", "4"] + extra
    p.cmds.append(" ".join(cmd))
    rc, out, err = run(cmd, timeout, cwd=scratch)
    msgs, text = [], ""
    for l in err.split("\n"):
        if not l.strip():
            continue
        try:
            m = json.loads(l)
        except ValueError:
            text += l + "\n"
            continue
        if not isinstance(m, dict) or "message" not in m:
            continue
        text += m.get("rendered") or m["message"]
        sp = []
        for s in m.get("spans", []):
            while True:
                if s["file_name"].endswith(os.path.basename(path)):
                    sp.append((s["line_start"], s["is_primary"], s.get("label") or ""))
                    break
                e = s.get("expansion")
                if not e:
                    break
                s = dict(e["span"], is_primary=s["is_primary"], label=s.get("label"))
        msgs.append((m["level"], m["message"], sp))
    try:
        j = json.loads(out)
    except ValueError:
        j = None
    return rc, j, msgs, text, logd


def count_obligations(logd, ranges, base):
    per, other, q = {}, 0, 0
    for f in glob.glob(os.path.join(logd, "*.air")):
        key, on = None, False
        for l in open(f, errors="replace"):
            if l.startswith(";; "):
                m = re.match(r";; (\S+\.rs):(\d+):", l)
                if m and m.group(1).endswith(base):
                    key = key_at(ranges, int(m.group(2)))
                    on = False
            elif l.startswith("(check-valid"):
                on = True
                q += 1
            elif on and l.lstrip().startswith("(assert"):
                if key:
                    per[key] = per.get(key, 0) + 1
                else:
                    other += 1
    return per, other, q


def mapj_problem_keys(mapj, keys):
    return [x["fn"] for x in mapj["problems"] if x["fn"] in keys]


def deduce(mode, extractor, expanded, scratch, seed, tag=""):
    p = Pass(mode + tag)
    rc, ov, err = run([sys.executable, os.path.join(HERE, "contracts", "gen.py"), mode] + (["simd"] if tag else []), 60)
    if rc != 0:
        raise CheckError("contracts cannot be generated: " + err)
    ovp = os.path.join(scratch, "contracts_%s%s.ov" % (mode, tag))
    open(ovp, "w").write(ov)
    outp = os.path.join(scratch, "verified_%s%s.rs" % (mode, tag))
    mapp = os.path.join(scratch, "map_%s%s.json" % (mode, tag))
    verify, short = None, False
    variant, first_failed, first_lost = {}, {}, {}

    def bump(k):
        """Is there another proof of the contract of k?"""
        if variant.get(k, 0) < p.keys.get(k, {}).get("variants", 0):
            variant[k] = variant.get(k, 0) + 1
            return True
        return False

    for attempt in range(16):
        args = [extractor, expanded, ovp, outp, mapp, mode]
        lp = os.path.join(scratch, "verify_%s%s.txt" % (mode, tag))
        vp = os.path.join(scratch, "variants_%s%s.txt" % (mode, tag))
        if verify is not None:
            open(lp, "w").write("\n".join(sorted(verify)) + "\n")
        open(vp, "w").write("".join("%s\t%d\n" % x for x in sorted(variant.items())))
        args += [lp if verify is not None else "-", vp]
        rc, out, err = run(args, 120)
        if rc != 0:
            p.why = "the extractor gives up: " + err.strip()[-1500:]
            return p
        mapj = json.load(open(mapp))
        text = open(outp).read()
        ranges = fn_ranges(mapj, text)
        p.keys = {f["key"]: f for f in mapj["functions"]}
        for _, _, k in ranges:
            p.keys.setdefault(k, {"key": k, "mode": "verified", "loops": 0})
        p.unknown = mapj["unknown"]
        p.info = {k: mapj[k] for k in ("rules", "dropped", "inlined", "renamed")}
        p.lost = {x["fn"]: x["what"] for x in mapj["problems"]}
        p.lost.update(first_lost)
        soft = {x["fn"]: x["what"] for x in mapj["soft"]}
        if any([bump(k) for k in mapj_problem_keys(mapj, p.keys) if k not in first_lost]):
            continue
        rc, j, msgs, vtext, logd = verus_once(p, outp, ["--rlimit", "10" if short else "60", "--smt-option", "smt.random_seed=%d" % seed], scratch, mode + tag + str(attempt), 240)
        if rc == -999 and not short:
            # a proof that fails slowly must not cost the results of the other functions
            short = True
            rc, j, msgs, vtext, logd = verus_once(p, outp, ["--rlimit", "10", "--smt-option", "smt.random_seed=%d" % seed], scratch, mode + tag + str(attempt) + "s", 240)
        vr = (j or {}).get("verification-results") or {}
        p.output = vtext[-6000:]
        if j is None or vr.get("encountered-vir-error") or "verified" not in vr or (vr.get("encountered-error") and not vr.get("errors")):
            # not accepted as a program: try another proof of the functions the messages point to, or take them out
            # of the verified text
            bad = {}
            for lev, m, sp in msgs:
                if lev == "error":
                    ks = [key_at(ranges, l) for l, prim, _ in sp if prim] or [key_at(ranges, l) for l, _, _ in sp]
                    for k in ks:
                        if k:
                            bad[k] = "not accepted by the verifier: " + m
            bad = {k: m for k, m in bad.items() if p.keys.get(k, {}).get("mode") == "verified"}
            if verify is None:
                verify = {k for k, f in p.keys.items() if f["mode"] == "verified"}
            if not bad or rc == -999:
                p.why = "no result within the time limit" if rc == -999 else "the extracted text is not accepted by the verifier"
                return p
            for k, m in bad.items():
                if k in first_failed:
                    # the first proof is accepted as a program
                    variant.pop(k, None)
                    p.keys[k]["variants"] = 0
                    first_failed[k]["final"] = True
                elif not bump(k):
                    verify.discard(k)
                    first_lost[k] = m
            continue

        def errors(msgs):
            res, general = {}, []
            for lev, m, sp in msgs:
                if lev != "error" or m.startswith("aborting due to"):
                    continue
                # the clause that failed may stand in another function (a trait's contract, a callee's precondition);
                # the function at fault is the one whose body the message points into
                at = [(key_at(ranges, l), l, lab) for l, prim, lab in sp if not re.match(r"failed (this |pre|post)", lab)]
                ks = at + [(key_at(ranges, l), l, lab) for l, prim, lab in sp]
                ks = [x for x in ks if x[0] and p.keys[x[0]]["mode"] == "verified"] or [x for x in ks if x[0]]
                lines = text.split("\n")
                about = "; ".join("%s%s" % (lines[l - 1].strip()[:160] if l <= len(lines) else "?", " (%s)" % lab if lab else "") for l, _, lab in sp)
                if ks:
                    for k, l, lab in ks[:1]:
                        res.setdefault(k, []).append("%s: %s" % (m, about))
                else:
                    general.append("%s: %s" % (m, about))
            return res, general

        p.failed, p.lemma_failed = errors(msgs)
        if vr.get("errors") and not p.failed and not p.lemma_failed:
            p.lemma_failed = ["%d errors that name no function" % vr["errors"]]
        more = False
        for k in p.failed:
            if not first_failed.get(k, {}).get("final") and p.keys[k].get("variants", 0):
                first_failed.setdefault(k, {"messages": p.failed[k]})
                if bump(k):
                    more = True
        if not more:
            break
    else:
        p.why = "the extracted text is not accepted by the verifier"
        return p
    # a proof that fails by a whim of the solver is tried again
    if p.failed or p.lemma_failed:
        for s in (seed + 17, seed + 101):
            left = RETRY_UNTIL - (time.time() - T0)
            if short or left < 60:
                break
            rc2, j2, msgs2, t2, _ = verus_once(p, outp, ["--rlimit", "120", "--smt-option", "smt.random_seed=%d" % s], scratch, mode + tag + "r%d" % s, min(400, left))
            if j2 is None or "verified" not in ((j2 or {}).get("verification-results") or {}):
                continue
            f2, g2 = errors(msgs2)
            p.failed = {k: v for k, v in p.failed.items() if k in f2}
            p.lemma_failed = [x for x in p.lemma_failed if x in g2]
            if not p.failed and not p.lemma_failed:
                break
    if short:
        # with the low limit, running out of it decides nothing
        for k in [k for k, v in p.failed.items() if all("Resource limit" in m for m in v)]:
            p.lost[k] = "undecided within the solver's limit"
    for k in list(p.failed):
        if k in first_failed:
            p.failed[k] = first_failed[k]["messages"]
        if k in soft:
            p.lost[k] = soft[k]
    p.obl, p.lemma_obl, p.queries = count_obligations(logd, ranges, os.path.basename(outp))
    smt = ((j.get("times-ms") or {}).get("smt") or {})
    for mod in smt.get("smt-run-module-times", []):
        for f in mod.get("function-breakdown", []):
            p.smt_us += f.get("time-micros", 0)
            p.rlimit[f["function"].split("::", 1)[-1]] = f.get("rlimit", 0)
    p.ok = not p.failed and not p.lemma_failed and not p.lost
    return p


# ------------------------------------------------------------------ inputs


def search(binp, prop, secs, seed, heavy, kind):
    env = {"REPLAY_HEAVY": "1"} if heavy else {}
    rc, out, err = run([binp, prop, str(secs), str(seed)], secs + 330, env)
    line = (out.strip().split("\n") or [""])[-1]
    for l in out.split("\n"):
        if l.startswith("FAIL"):
            return "FAIL", l
    if rc == 0 and line.startswith("OK"):
        return "OK", line
    if rc == -999:
        return "ERR", "no result within the time limit"
    return "FAIL", "FAIL sub=? k=0 seed=%d :: program ended with status %d: %s" % (seed, rc, (out + err)[-300:].replace("\n", " "))


def test_assumed(bins, seed):
    """Runs the assumed contracts of library functions against those functions."""
    b = bins.pop("assumed", None)
    if not b:
        return []
    rc, out, err = run([b, str(seed)], 120)
    if rc != 0:
        raise CheckError("an assumed contract is wrong: " + (out + err)[-500:])
    return [l[3:] for l in out.split("\n") if l.startswith("OK ")]


def confirm(binp, prop, line, heavy):
    m = re.match(r"FAIL sub=(\S+) k=(\d+) seed=(\d+)", line)
    if not m or m.group(1) == "?":
        return True
    for _ in range(2):
        rc, out, err = run([binp, "--one", prop, m.group(1), m.group(2), m.group(3)], 200)
        if rc != 0:
            return True
    return False


# ------------------------------------------------------------------ the check


def matches(pats, key):
    return any(re.fullmatch(x, key) for x in pats)


def known_findings(prop):
    res = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for l in open(p):
        m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            res.append(m.group(2))
    return res


def trusted_base(scratch, tag=""):
    s = open(os.path.join(scratch, "verified_only%s.rs" % tag)).read()
    res = []
    for m in re.finditer(r"assume_specification\s*(?:<.*?>)?\s*\[\s*(.*?)\s*\]\s*\(", s):
        res.append("assumed specification of " + m.group(1))
    for m in re.finditer(r"axiom fn (\w+)", s):
        res.append("axiom " + m.group(1))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:unsafe )?(?:const )?fn (\w+)", s):
        res.append("trusted (body not verified) " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", s):
        res.append("unproved " + m.group(1))
    seen = []
    for x in res:
        if x not in seen:
            seen.append(x)
    return seen


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return check(prop, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, scratch):
    spec = PROPS[prop]
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    simd = spec.get("simd")
    pool = cf.ThreadPoolExecutor(8)
    f_ext = pool.submit(build_extractor)
    f_exp = pool.submit(expand, scratch, None, "")
    f_exps = pool.submit(expand, scratch, SIMD_FLAGS, "simd") if simd else None
    f_dbg = pool.submit(build_replay, scratch, "debug", spec["bins"] + ["assumed"])
    f_simd = pool.submit(build_replay, scratch, "simd", spec["bins"] + ["assumed"]) if simd else None
    expanded = f_exp.result()
    extractor = f_ext.result()
    log("source expanded, extractor built")
    todo = [pool.submit(deduce, m, extractor, expanded, scratch, seed) for m in ("only", "must")]
    simd_err = ""
    if simd:
        try:
            todo += [pool.submit(deduce, m, extractor, f_exps.result(), scratch, seed, "simd") for m in ("only", "must")]
        except CheckError as e:
            simd_err = str(e)
    passes = [f.result() for f in todo]
    for p in passes:
        log("verus (%s): %s" % (p.mode, p.why or "%d queries, %d functions failed, %d not verified" % (p.queries, len(p.failed), len(p.lost))))

    own = sorted({k for p in passes for k, f in p.keys.items() if f["mode"] == "verified" or k in p.lost if matches(spec["own"], k)})
    deps = sorted({k for p in passes for k, f in p.keys.items() if f["mode"] == "verified" or k in p.lost if matches(spec["deps"], k)} - set(own))
    mine = set(own) | set(deps)
    failed, lost = {}, {}
    if simd_err:
        lost["(SIMD configuration)"] = simd_err
    for p in passes:
        if p.why:
            lost["(everything, pass %s)" % p.mode] = p.why
        for k, v in p.failed.items():
            if k in mine:
                failed.setdefault(k, []).extend("pass %s: %s" % (p.mode, x) for x in v)
        for k, v in p.lost.items():
            if k in mine or matches(spec["own"] + spec["deps"], k):
                lost[k] = v
        for x in p.lemma_failed:
            lost["(lemma)"] = x
        # a failure that no property claims concerns every property
        for k, v in p.failed.items():
            if k not in mine and not any(matches(q["own"] + q["deps"], k) for q in PROPS.values()):
                lost[k] = "; ".join(v)
    # functions of the same impl that have no contract
    impls = {k.rsplit("::", 1)[0] for k in own}
    unknown = sorted({u for p in passes for u in p.unknown if u.rsplit("::", 1)[0] in impls})
    proved = not failed and not lost and not unknown and own

    # -------------------------------------------------------------- concrete runs
    runs, found, build_errs = [], None, []

    def try_run(kind, bins, secs, heavy):
        nonlocal found
        for b, path in bins.items():
            if found:
                return
            st, line = search(path, prop, secs, seed, heavy, kind)
            runs.append({"program": b, "build": kind, "result": line})
            log("%s (%s): %s" % (b, kind, line))
            if st == "FAIL" and confirm(path, prop, line, heavy):
                found = (kind, b, line)

    secs = 3 if tier == "quick" else 30
    dbg, e = f_dbg.result()
    build_errs += e
    assumed = test_assumed(dbg, seed)
    try_run("debug", dbg, secs if proved else 12 if tier == "quick" else 60, False)
    if f_simd and not found:
        sb, e = f_simd.result()
        build_errs += e
        assumed += test_assumed(sb, seed)
        try_run("simd", sb, secs if proved else 12, False)
    if not found and (not proved or tier == "thorough"):
        rel, e = build_replay(scratch, "release", spec["bins"])
        build_errs += e
        try_run("release", rel, 20 if tier == "quick" else 60, True)
        if prop in ("C12", "C13") and not found:
            sb, e = build_replay(scratch, "simd", spec["bins"])
            build_errs += e
            try_run("simd", sb, 10, False)

    # -------------------------------------------------------------- verdict
    own_failed = {k: v for k, v in failed.items() if k in own}
    replay_path = os.path.join(evd, prop + ".replay.json")
    violation = None
    if found:
        json.dump({"property": prop, "build": found[0], "program": found[1], "failing_case": found[2], "seed": seed,
                   "failed_obligations": failed, "not_verified": lost,
                   "how": "python3 %s --replay %s" % (os.path.abspath(__file__), replay_path)}, open(replay_path, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s" % (prop, replay_path)
    elif own_failed and not any(k in lost for k in own_failed):
        json.dump({"property": prop, "failed_obligations": own_failed, "verifier_output": [p.output for p in passes],
                   "checker_cmd": [c for p in passes for c in p.cmds], "searched": runs,
                   "note": "no failing input was found"}, open(replay_path, "w"), indent=1)
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay_path)
    elif os.path.exists(replay_path):
        os.remove(replay_path)

    # -------------------------------------------------------------- evidence
    obl = sum(p.obl.get(k, 0) for p in passes for k in mine)
    bad = sum(p.obl.get(k, 0) for p in passes for k in mine if k in failed or k in lost)
    lem = sum(p.lemma_obl for p in passes)
    cases = sum(int(m.group(1)) for r in runs for m in [re.search(r"cases=(\d+)", r["result"])] if m)
    level = "proof" if proved else "exploration"
    cov = {
        "obligations": obl + lem,
        "discharged": (obl - bad + lem) if not any(k.startswith("(") for k in lost) else 0,
        "checker_cmd": passes[0].cmds[-1] if passes[0].cmds else "",
        "back_end": "Verus %s (Z3)" % verus_version(),
        "trusted_base": sorted({x for t in ("", "simd") if os.path.exists(os.path.join(scratch, "verified_only%s.rs" % t)) for x in trusted_base(scratch, t)}),
        "assumptions_tested": assumed,
        "functions_under_contract": own,
        "functions_relied_on": deps,
        "obligations_of_the_functions": obl,
        "obligations_of_lemmas_shared_by_all_properties": lem,
        "queries": {p.mode: p.queries for p in passes},
        "solver_seconds": round(sum(p.smt_us for p in passes) / 1e6, 2),
        "passes": "only: every call excludes the panic condition and no panic is reachable; must: the panic condition is false whenever the call returns",
        "failed_obligations": failed,
        "not_verified": lost,
        "functions_without_contract": unknown,
        "extraction": passes[0].info,
        "verdict": "proved" if proved else "bounded: decided by the concrete runs only" if not violation else "violated",
        "concrete_runs": runs,
        "concrete_build_errors": build_errs,
    }
    if level == "exploration":
        cov.update({
            "evaluations": cases,
            "distinct_nontrivial": cases,
            "rule": "random and boundary histories and inputs compared with a naive model, every case has its own seed (k)",
            "samples": runs[:3] or ["none"],
        })
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)
    for x in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, x))
    for k, v in sorted(failed.items()):
        for x in v[:4]:
            log("FAILED OBLIGATION %s: %s" % (k, x))
    for k, v in sorted(lost.items()):
        log("NOT VERIFIED %s: %s" % (k, v))
    if violation:
        print(violation, flush=True)
        return 1
    log("%s: %s, %d obligations" % (prop, cov["verdict"], cov["discharged"]))
    return 0


ASSUMPTIONS = [
    "64-bit usize, little or big endian; no allocation exceeds 2^57 bytes",
    "the rewrite rules of the extractor (counted under coverage.extraction.rules) keep the meaning of the code",
    "specifications of standard library functions listed in trusted_base",
    "Verus, Z3 and rustc are sound",
    "machine arithmetic is not idealised: absence of overflow is proved",
]


def verus_version():
    rc, out, err = run(["verus", "--version"], 30)
    m = re.search(r"Version: (\S+)", out)
    return m.group(1) if m else "?"


def replay(path):
    r = json.load(open(path))
    if "failing_case" not in r:
        print(json.dumps(r, indent=1))
        return 1
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        bins, errs = build_replay(scratch, r["build"], [r["program"]])
        if errs:
            print("\n".join(errs))
            return 2
        m = re.match(r"FAIL sub=(\S+) k=(\d+) seed=(\d+)", r["failing_case"])
        rc, out, err = run([bins[r["program"]], "--one", r["property"], m.group(1), m.group(2), m.group(3)], 300)
        print(out + err)
        return 1 if rc else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
