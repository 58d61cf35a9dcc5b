#!/usr/bin/env python3
"""Decides one property: run.py C01 [quick|thorough].  See DESIGN.md.

1. native contract execution: the contracts evaluated on the real code for drawn values (finds failing inputs fast; bounded, never counted as proved)
2. Verus: the annotated functions extracted from /repo's current source (unbounded)
3. Kani: the obligations on the public API, full symbolic inputs, unwinding assertions on (complete for the bounded-width types;
   the ones marked bounded below are stand-ins for small concrete depths)
exit 0: nothing violated; exit 1: VIOLATION line; exit 2: the check itself could not run (e.g. /repo does not build)."""
import json, os, re, subprocess, sys, time, threading

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import verus_layer

PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
NN = PROP[1:]
PREFIX = {"C01": ["c01::", "wrap::"], "C02": ["c02::", "wrap::"]}.get(PROP, ["c%s::" % NN])
SWEEP = PREFIX + ["x%s::" % NN]
B = os.path.join(V, "build")
K = os.path.join(V, "kani")
QUICK_CPU = 170.0     # estimated CPU seconds of model checking in the quick tier (8 jobs)
CAP = 800 if TIER == "quick" else 6 * 3600

def left(): return CAP - (time.time() - T0)

# ---- which obligations are only bounded stand-ins -------------------------------------------------------------------
BOUNDED = [r"^c02::dynamic::", r"^c03::(dynamic|some_lengths|arrays)::", r"^c06::to_grid_dynamic::", r"^c07::dynamic::", r"^c08::dynamic::",
           r"^c09::dynamic::", r"^c10::(dynamic|few|all)::", r"^c11::(static_dynamic|dynamic_others)::", r"^c13::dynamic::",
           r"^c15::", r"^c17::align::\w+_(low|top)$", r"^c19::dynamic::", r"^c20::(vectors::slices|bytes)"]
# library contracts that the Verus layer assumes, checked on the library itself; they never raise an alarm
ASSUMED = {"C07": ["ordering", "text"], "C12": ["text", "sized"], "C14": ["checked_shr", "checked_shl", "bytes"], "C15": ["checked_shr", "checked_shl", "sized"], "C20": ["bytes", "whole", "copy_into", "sized"]}
def bounded(h): return any(re.match(p, h) for p in BOUNDED)

def sh(cmd, timeout, cwd=V, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=max(5, timeout)); return p.returncode, o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        try: o, _ = p.communicate(timeout=10)
        except Exception: o = ""
        return 124, o or ""

ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": "proof", "coverage": {}, "assumptions": [], "wall_s": 0.0, "violations": 0}
cov = ev["coverage"]
notes = []

def finish(code):
    ev["wall_s"] = round(time.time() - T0, 2)
    cov["notes"] = notes
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", PROP + ".json"), "w") as f: json.dump(ev, f, indent=1)
    sys.stdout.flush()
    sys.exit(code)

def violation(name, text, found):
    """name: the failed obligation; found: (values, message) reproduced on the real code, or None"""
    os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    path = os.path.join(V, "replay", "%s-%s.txt" % (PROP, re.sub(r"\W+", "_", name)))
    with open(path, "w") as f:
        f.write("property %s\nfailed obligation %s\n" % (PROP, name))
        if found:
            f.write("failing input, reproduced on the real code (byte values of the drawn inputs, in order):\n%s\nobserved: %s\n" % found)
            f.write("replay: cd %s && CARGO_TARGET_DIR=%s/native cargo build --offline && %s/native/debug/replay replay %s %s\n" % (K, B, B, name, found[0]))
        else:
            f.write("no failing input was found; the verifier's output follows\n")
        f.write("\n" + text + "\n")
    print("VIOLATION property=%s replay=%s%s" % (PROP, path, "" if found else " no-failing-input-found"))
    ev["violations"] += 1

# ---- native build ----------------------------------------------------------------------------------------------------
def build_native():
    rc, o = sh(["cargo", "build", "--offline"], min(300, left()), cwd=K, env={"CARGO_TARGET_DIR": B + "/native"})
    if rc != 0:
        print(o[-4000:]); print("ERROR: /repo or the obligations do not build"); notes.append("build failed"); finish(2)
BIN = B + "/native/debug/replay"

def sweep(prefixes, secs, seed=SEED):
    rc, o = sh([BIN, "sweep", str(seed), str(secs)] + prefixes, min(secs * 4 + 120, max(20, left())))
    r = {}
    for l in o.splitlines():
        p = l.split("\t")
        if len(p) >= 5: r[p[0]] = {"tried": int(p[1]), "held": int(p[2]), "fail": None if p[3] == "-" else (p[3], p[4])}
    if rc != 0 and not r: notes.append("native sweep ended with %d: %s" % (rc, o[-300:]))
    elif rc < 0 or rc == 124: notes.append("native sweep ended with %d" % rc); r["_crash"] = {"tried": 0, "held": 0, "fail": None, "rc": rc, "out": o[-500:]}
    return r

# ---- Kani ------------------------------------------------------------------------------------------------------------
class R:  # result of one harness
    def __init__(s): s.verdict = None; s.time = None; s.covers = None; s.failed = []; s.text = ""
def kani(harnesses, htimeout, timeout, extra=()):
    cmd = ["cargo", "kani", "--target-dir", B + "/kani", "-j", str(min(8, len(harnesses))), "--output-format=terse", "-Z", "unstable-options", "--harness-timeout", "%ds" % htimeout, "--exact"]
    for h in harnesses: cmd += ["--harness", h]
    rc, o = sh(cmd + list(extra), timeout, cwd=K)
    cur, res, th = {}, {}, None
    if len(harnesses) == 1: # one job prints without thread numbers
        r = res[harnesses[0]] = R(); r.text = o
        blocks = {harnesses[0]: o}
    else:
        blocks = {}
        for l in o.splitlines():
            m = re.match(r"Thread (\d+): Checking harness (\S+)\.\.\.", l)
            if m: cur[m[1]] = m[2]; continue
            m = re.match(r"Thread (\d+): *$", l)
            if m: th = m[1]; blocks.setdefault(cur.get(th, "?"), ""); continue
            if re.match(r"(Manual Harness Summary|Complete - )", l): th = None
            if th and cur.get(th) in blocks: blocks[cur[th]] += l + "\n"
    for h, t in blocks.items():
        if h not in harnesses: continue
        r = res.setdefault(h, R()); r.text = t
        m = re.search(r"VERIFICATION:- (\w+)([^\n]*)", t); r.verdict = (m[1] + m[2]) if m else None
        m = re.search(r"Verification Time: ([\d.]+)s", t); r.time = float(m[1]) if m else None
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", t); r.covers = (int(m[1]), int(m[2])) if m else None
        r.failed = re.findall(r"Failed Checks: ([^\n]*)", t)
        if "CBMC timed out" in t or "timed out" in t: r.verdict = "TIMEOUT"
    return rc, o, res

UNSUPPORTED = ("unwinding assertion", "not currently supported", "is unsupported", "unsupported")
def judge(h, r, must_panic):
    """-> proved | violated | undecided | unwind"""
    if r is None or r.verdict is None or r.verdict == "TIMEOUT": return "undecided"
    real = [f for f in r.failed if not any(u in f for u in UNSUPPORTED)]
    if must_panic:
        if r.verdict.startswith("SUCCESSFUL"): return "violated" if r.covers and r.covers[0] > 0 else "proved"
        if any("unwinding" in f for f in r.failed): return "unwind"
        if "no panics" in r.verdict or real: return "violated"
        return "undecided"
    if r.verdict.startswith("SUCCESSFUL"):
        return "proved" if r.covers is None or r.covers[0] == r.covers[1] or (h.startswith("wrap::inside") and r.covers == (1, 2)) else "undecided" # the ghost storage carries a second mark, which only wrap::outside may reach
    if any("unwinding" in f for f in r.failed): return "unwind" # the other failures are unreliable then
    if real: return "violated"
    return "undecided"

def playback(h, timeout):
    """the verifier's counterexample, replayed natively"""
    rc, o = sh(["cargo", "kani", "--target-dir", B + "/kani", "-Z", "unstable-options", "-Z", "concrete-playback", "--concrete-playback=print", "--harness-timeout", "%ds" % max(20, timeout - 30), "--exact", "--harness", h], timeout, cwd=K)
    for blk in re.findall(r"let concrete_vals[^=]*= vec!\[(.*?)\n\s*\];", o, re.S):
        vals = [re.findall(r"\d+", v) for v in re.findall(r"vec!\[([^\]]*)\]", blk)]
        hexs = ",".join("".join("%02x" % int(x) for x in v) for v in vals)
        rc2, o2 = sh([BIN, "replay", h, hexs], 60)
        if rc2 == 1 and "FAILS" in o2: return (hexs, o2.strip()), o
        if rc2 < 0: return (hexs, "the process died with signal %d" % -rc2), o
    return None, o

def main():
    try: tiers = json.load(open(os.path.join(V, "tiers.json")))
    except OSError: tiers = {}
    build_native()
    rc, o = sh([BIN, "list"], 60)
    allh = [l for l in o.split() if any(l.startswith(p) for p in PREFIX)]
    must = set(h for h in allh if h.startswith("wrap::outside"))
    # 1. executed contracts
    sw = sweep(SWEEP, 4 if TIER == "quick" else 60)
    fails = [(n, r["fail"]) for n, r in sw.items() if r.get("fail")]
    cov["executed_contracts"] = {"label": "bounded", "evaluations": sum(r["tried"] for r in sw.values()), "held": sum(r["held"] for r in sw.values()), "contracts": len(sw)}
    # 2. Verus, in parallel with 3. Kani
    vres = {}
    vt = threading.Thread(target=lambda: vres.update(verus_layer.check(PROP, TIER, B, left)))
    vt.start()
    est = lambda h: tiers.get(h, {"s": 400})["s"]
    if TIER == "quick":
        sel, used = [], 0.0
        for h in sorted(allh, key=lambda h: (est(h), h)):
            if used + est(h) > QUICK_CPU or est(h) > 45: continue
            sel.append(h); used += est(h)
    else: sel = list(allh)
    sel.sort(key=lambda h: -est(h))
    libs = [h for h in o.split() if h.startswith("assumed::") and (TIER != "quick" or h.split("::")[1] in ASSUMED.get(PROP, []))]
    status, ktime, kout = {}, 0.0, ""
    results = {}
    if (sel or libs) and not fails:
        ht = 150 if TIER == "quick" else 1500
        rc, kout, results = kani(sel + libs, ht, min(left() - 200, 480) if TIER == "quick" else left())
        if not results and re.search(r"^error", kout, re.M):
            print(kout[-3000:]); notes.append("Kani could not compile the obligations: " + kout[-300:])
        for h in sel:
            status[h] = judge(h, results.get(h), h in must)
            if results.get(h) and results[h].time: ktime += results[h].time
        lib_held = [h for h in libs if judge(h, results.get(h), False) == "proved"]
        cov["assumed_library_contracts"] = {"checked_for_all_inputs": [h for h in lib_held if "::sized::" not in h], "checked_bounded": [h for h in lib_held if "::sized::" in h], "undecided": [h for h in libs if h not in lib_held]}
        for h in libs:
            if judge(h, results.get(h), False) == "violated": notes.append("an assumed library contract does not hold with this toolchain: " + h)
        # a changed loop may need more iterations than the bound: retry with a larger one
        again = [h for h in sel if status[h] == "unwind"]
        if again and left() > 120:
            for mult in (40, 140):
                if not again or left() < 90: break
                _, _, r2 = kani(again, 100 if TIER == "quick" else 900, min(left() - 60, 240) if TIER == "quick" else left(), ["--unwind", str(mult)])
                for h in again:
                    j = judge(h, r2.get(h), h in must)
                    if j != "unwind": status[h] = j; results[h] = r2.get(h) or results.get(h)
                again = [h for h in again if status[h] == "unwind"]
        for h in sel:
            if status[h] == "unwind": status[h] = "undecided"
    vt.join()
    # ---- verdict ----
    for n, f in fails[:3]: violation(n, "found by evaluating the contract on drawn values", f)
    bad = [h for h in sel if status.get(h) == "violated"]
    for h in bad[:2]:
        if ev["violations"] >= 3: break
        found, o = (None, "")
        if h not in must and left() > 60: found, o = playback(h, min(200, left() - 20))
        if not found and left() > 20:
            s = sweep([h], 10, SEED + 1).get(h)
            if s and s["fail"]: found = s["fail"]
        violation(h, results[h].text + "\n" + o[-6000:], found)
    vf = vres.get("failed", [])
    if vf and not ev["violations"]:
        # look harder for an input
        s = sweep(SWEEP, 15 if TIER == "quick" else 120, SEED + 7)
        f2 = [(n, r["fail"]) for n, r in s.items() if r.get("fail")]
        if f2: violation(f2[0][0], "Verus obligation failed: %s\n%s" % (", ".join(vf), vres.get("output", "")), f2[0][1])
        else:
            # no input found: every obligation on the public API decided by Kani, for all inputs, outweighs a proof that no longer goes through
            rest = [h for h in allh if h not in status]
            if rest and left() > 150:
                _, _, r3 = kani(rest, int(left() - 90) if TIER == "quick" else 1500, left() - 60)
                results.update(r3)
                for h in rest: status[h] = judge(h, r3.get(h), h in must); sel.append(h)
                for h in [h for h in rest if status[h] == "violated"][:1]:
                    s = sweep([h], 20, SEED + 1).get(h)
                    violation(h, results[h].text, s["fail"] if s and s["fail"] else None)
            if not ev["violations"]:
                if allh and all(status.get(h) == "proved" and not bounded(h) for h in allh): notes.append("Verus no longer proves %s, but Kani discharges every obligation of the property on the current code, for all inputs" % ", ".join(vf))
                else: violation(vf[0], "failed Verus obligations: %s\n%s" % (", ".join(vf), vres.get("output", "")), None)
    elif vf: notes.append("also failed in Verus: " + ", ".join(vf))
    # ---- evidence ----
    proved = [h for h in sel if status.get(h) == "proved" and not bounded(h)]
    compl = [h for h in sel if not bounded(h)]
    und = [h for h in sel if status.get(h) == "undecided"]
    cov["obligations"] = len(compl) + vres.get("obligations", 0)
    cov["discharged"] = len(proved) + vres.get("discharged", 0)
    cov["checker_cmd"] = "python3 run.py %s %s" % (PROP, TIER)
    cov["trusted_base"] = ["Kani 0.68 / CBMC 6.11, on the MIR that rustc makes from /repo's current source", "rustc and the standard library as modelled by Kani"] + vres.get("trusted", [])
    cov["kani"] = {"obligations_selected": len(sel), "available": len(allh), "proved_complete": len(proved), "bounded_held": len([h for h in sel if status.get(h) == "proved" and bounded(h)]),
                   "undecided": und, "solver_s": round(ktime, 1), "proved": proved, "bounded": [h for h in sel if bounded(h) and status.get(h) == "proved"]}
    cov["verus"] = {k: v for k, v in vres.items() if k != "output"}
    if und: notes.append("undecided by Kani in this run (time, memory or unwinding): " + ", ".join(und))
    if vres.get("note"): notes.append(vres["note"])
    ev["assumptions"] = ["64-bit little-endian target"] + vres.get("assumptions", [])
    print("%s %s: %d of %d obligations discharged (%d Kani, %d Verus), %d bounded stand-ins held, %d contract evaluations, %.0f s" % (PROP, TIER, cov["discharged"], cov["obligations"], len(proved), vres.get("discharged", 0), cov["kani"]["bounded_held"], cov["executed_contracts"]["evaluations"], time.time() - T0))
    for n in notes: print("note: " + n)
    if ev["violations"]: finish(1)
    if not sw and not proved and not vres.get("discharged"): print("ERROR: nothing could be decided"); finish(2)
    finish(0)
main()
