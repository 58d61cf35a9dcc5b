"""The Verus layer: extracts the functions under contract from /repo's current source into the annotated template and lets Verus
discharge every obligation. Only failed obligations are reported as failures; a lost anchor, an unsupported construct or an
exhausted resource limit leaves the layer undecided."""
import json, os, re, subprocess, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ASSUMED = re.compile(r"#\[verifier::(external_body|external|external_fn_specification|exec_allows_no_decreases_clause|assume_specification)[^\]]*\]|\bassume_specification\b|\bassume\s*\(|\badmit\s*\(")

# which assumed library contracts are checked against the library itself (kani/src/assumed.rs)
CHECKED = {"bytes_of": "assumed::bytes, all inputs", "from_le_bytes": "assumed::bytes, all inputs", "from_be_bytes": "assumed::bytes, all inputs", "from_ne_bytes": "assumed::whole, all inputs",
           "copy_into": "assumed::copy_into, all inputs", "filled": "assumed::copy_into, all inputs", "owned": "assumed::sized, vectors of at most 3 bytes", "copied_skip": "assumed::sized, vectors of at most 3 bytes",
           "repeat_chain": "assumed::sized, vectors of at most 3 bytes", "reversed_copy": "assumed::sized, vectors of at most 3 bytes", "bytes_of_mut": "assumed::bytes, all inputs", "vec_eq": "assumed::sized, vectors of at most 3 bytes", "slice_eq": "assumed::sized, slices of at most 3 bytes", "slice_cmp": "assumed::sized, slices of at most 3 bytes", "slice_partial_cmp": "assumed::sized, slices of at most 3 bytes", "u16_at": "assumed::sized, a slice of 9 bytes", "cmp": "assumed::ordering, all inputs"}
def checked(name):
    if "checked_sh" in name: return "assumed::checked_shr and checked_shl, all inputs"
    if "from_digit" in name: return "assumed::text, all inputs"
    if "Ordering" in name: return "assumed::ordering, all inputs"
    return CHECKED.get(name)

def run(cmd, timeout, cwd=V, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, er = p.communicate(timeout=max(5, timeout)); return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.communicate()
        return 124, "", ""

def assumptions(text):
    """every assumption left in the verified file, by a mechanical scan"""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        c = l.split("//")[0]
        if not ASSUMED.search(c): continue
        if "external_body" in c or "external" in c.split("]")[0]:
            nxt = next((x for x in lines[i:i + 4] if re.search(r"\b(fn|struct|type)\b", x)), c)
            m = re.search(r"(?:fn|struct|type)\s+(\w+)", nxt)
            out.append("assumed contract: " + (m[1] if m else nxt.strip()[:80]))
        elif "assume_specification" in c:
            m = re.search(r"\[([^\]]*)\]", c)
            out.append("assumed contract: " + re.sub(r"\s+", " ", m[1].strip() if m else c.strip())[:80])
        else: out.append("assumption in a proof: " + c.strip()[:100])
    note = lambda x: x + (" (checked by Kani on the library: %s)" % checked(x[18:]) if x.startswith("assumed contract: ") and checked(x[18:]) else "")
    return sorted(set(note(x) for x in out))

def verus_once(d, seed, timeout):
    cmd = ["verus", "--crate-type=lib", "o.rs", "--output-json", "--time-expanded", "--multiple-errors", "3", "--error-format=json", "--rlimit", "40" if not seed else "80", "--num-threads", "8"]
    if seed: cmd += ["--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed]
    rc, o, e = run(cmd, timeout, cwd=d)
    errs = []
    for l in e.splitlines():
        try: x = json.loads(l)
        except ValueError: continue
        if x.get("level") == "error" and not re.match(r"aborting due to", x["message"]):
            sp = []
            for s in x.get("spans", []): # where a macro was expanded; positions in other files do not count
                while s and not s["file_name"].endswith("o.rs"): s = (s.get("expansion") or {}).get("span")
                if s: sp.append(s)
            x["spans"] = sp
            errs.append(x)
    try: j = json.loads(o)
    except ValueError: j = {}
    return errs, j

def check(prop, tier, build, left, dirname=None):
    r = {"obligations": 0, "discharged": 0, "failed": [], "trusted": [], "assumptions": [], "note": ""}
    t0 = time.time()
    d = dirname or os.path.join(build, "verus-" + prop)
    os.makedirs(d, exist_ok=True)
    def undecided(why): r["note"] = "Verus layer undecided: " + why; r["undecided"] = True; return r
    rc, o, e = run(["cargo", "build", "-q", "--offline", "--manifest-path", V + "/extract/Cargo.toml"], min(300, left()), env={"CARGO_TARGET_DIR": build + "/extract"})
    if rc: return undecided("the extractor does not build: " + e[-300:])
    rc, o, e = run(["python3", V + "/verus/gen.py", prop], 60)
    if rc: return undecided("no template: " + e[-300:])
    if not o: return {}
    open(d + "/t.rs", "w").write(o)
    verus = lambda d, seed: verus_once(d, seed, min(left() - 30, 500 if tier == "quick" else 3000))
    SNAP = V + "/verus/snapshot"
    def segments(d):
        """text of every extracted function, and the text of everything else"""
        src = open(d + "/o.rs").read().split("\n"); r = {}; rest = list(src)
        for l in open(d + "/o.map"):
            p = l.rstrip("\n").split("\t")
            if p[0] == "#": continue
            r[p[3]] = r.get(p[3], "") + "\n".join(src[int(p[0]) - 1:int(p[1])])
            for k in range(int(p[0]) - 1, int(p[1])): rest[k] = ""
        return r, "\n".join(x for x in rest if x.strip())
    # what the same template gives for the snapshot of the sources that the contracts were last accepted for
    bd = d + "/base"; os.makedirs(bd, exist_ok=True); open(bd + "/demote", "w").close()
    rc, o, e = run([build + "/extract/debug/extract", d + "/t.rs", SNAP, bd + "/o.rs", bd + "/o.map", bd + "/demote"], 60)
    base = segments(bd) if not rc else None
    demoted, bare = {}, set()   # functions the verifier does not accept in their current form: contract assumed, left undecided (the snapshot's text holds their place)
    for attempt in range(8):
        open(d + "/demote", "w").write("\n".join(demoted) + "\n" + "".join("!" + n + "\n" for n in bare))
        rc, o, e = run([build + "/extract/debug/extract", d + "/t.rs", REPO, d + "/o.rs", d + "/o.map", d + "/demote", SNAP], 60)
        if rc: return undecided("extraction: " + (o + e)[-300:].strip())
        funcs, changes = [], {}
        for l in open(d + "/o.map"):
            p = l.rstrip("\n").split("\t")
            if p[0] == "#": changes[p[2]] = int(p[1])
            else:
                funcs.append((int(p[0]), int(p[1]), p[2].split(), p[3]))
                if len(p) > 4: demoted.setdefault(p[3], p[4])
        text = open(d + "/o.rs").read()
        src = text.split("\n")
        errs, j = verus(d, 0)
        vr = j.get("verification-results", {})
        if j.get("times-ms", {}).get("smt") and "verified" in vr and not vr.get("encountered-vir-error") and not any(x.get("code") for x in errs): break
        new = set(n for x in errs for s in x["spans"] for a, b, ps, n in funcs if a <= s["line_start"] <= b)
        worse = set(n for n in new if n in demoted) - bare
        new -= set(demoted)
        if not new: bare |= worse
        if not new and not worse: return undecided("the extracted code is not accepted (%d): " % len(errs) + "; ".join(x["message"] for x in errs)[:400])
        for n in new: demoted[n] = "not accepted by the verifier: " + "; ".join(x["message"] for x in errs if any(a <= s["line_start"] <= b for s in x["spans"] for a, b, ps, m in funcs if m == n))[:200]
    else: return undecided("the extracted code is not accepted")
    # property lemmas: proof functions named cNN_...
    mine = list({n: (a, b, n) for a, b, ps, n in funcs if prop in ps or "+" + prop in ps}.values())
    tags = {}   # clauses of a contract that state another property (only), or another property as well (also)
    for i, l in enumerate(src):
        m = re.match(r"\s*/\*(only|also) ([^*]*)\*/", l)
        if m: tags[i + 1] = (m[1], m[2].split())
    lemmas = []
    for i, l in enumerate(src):
        m = re.search(r"\bproof fn (c(\d\d)_\w+)", l)
        if m and "C" + m[2] == prop: lemmas.append((i + 1, m[1]))
        h = re.search(r"/\*props ([^*]*)\*/", l)
        if h and prop in h[1].split(): lemmas.append((i + 1, re.search(r"\bfn (\w+)", l)[1]))
    allf = [f for m in j["times-ms"]["smt"]["smt-run-module-times"] for f in m.get("function-breakdown", [])]
    def owner(x):
        n, ps = place(x)
        extra = set(p[1:] for p in ps if p[0] == "+"); ps = [p for p in ps if p[0] != "+"]
        hit = [tags[k] for s in x["spans"] for k in range(s["line_start"], s["line_end"] + 1) if k in tags and s["line_end"] - s["line_start"] < 4]
        for how, qs in hit[:1]:
            qs = [q for q in qs if q in extra or q in ps]
            ps = qs if how == "only" else sorted(set(ps) | set(qs))
        return n, ps
    def place(x):
        sp = sorted(x["spans"], key=lambda s: not s["is_primary"])
        for s in sp:
            for a, b, ps, n in funcs:
                if a <= s["line_start"] <= b: return (n, ps)
        for s in sp: # the enclosing proof function
            for k in range(s["line_start"] - 1, max(-1, s["line_start"] - 80), -1):
                m = re.search(r"\b(?:proof )?fn (\w+)", src[k])
                h = re.search(r"/\*props ([^*]*)\*/", src[k]) # a helper that states a fact about the code
                if m: return (m[1], ["C" + m[1][1:3]] if re.match(r"c\d\d_", m[1]) else h[1].split() if h else [])
        return ("?", [])
    bad, unk, others, txt = {}, set(), {}, []
    lost = lambda es: any(not x["spans"] for x in es)
    if lost(errs): # an error without a position: whatever the statistics call unsuccessful and no other error explains stays undecided
        named = set(f["function"].split("::")[-1] for f in allf if not f.get("success", True))
        unk |= set(n for _, _, n in mine if n.split("|")[-1] in named) | set(n for _, n in lemmas if n in named)
    for x in errs:
        if not x["spans"]: continue
        n, ps = owner(x)
        if n in demoted: continue
        if "rlimit" in x["message"] or "Resource limit" in x["message"]: unk.add(n); continue
        (bad if prop in ps else others).setdefault(n, []).append(x["message"])
        if prop in ps: txt.append(x.get("rendered", x["message"]))
    # the solver is a heuristic: a function that it accepts with another random seed is proved all the same
    runs = 1
    for seed in (11, 23) if tier == "quick" else (11, 23, 37, 53, 71):
        if not bad and not any(n in unk for _, _, n in mine) and not any(n in unk for n in (l for _, l in lemmas)) or left() < 200: break
        e2, j2 = verus(d, seed)
        if not j2.get("times-ms", {}).get("smt"): break
        runs += 1
        if lost(e2): continue
        own2 = [owner(x) for x in e2 if x.get("spans")]
        still, mine2 = set(n for n, _ in own2), set(n for n, ps in own2 if prop in ps)
        bad = {n: m for n, m in bad.items() if n in mine2}; others = {n: m for n, m in others.items() if n in still}; unk &= still
    r["solver_runs"] = runs
    # an obligation whose text is the one discharged for the snapshot (contracts of callees, constants and types included) cannot have become false: undecided, not failed
    if base:
        now = segments(d)
        same = lambda n: base[1] == now[1] and (n not in base[0] or base[0][n] == now[0].get(n))
        flaky = sorted(n for n in list(bad) + list(others) if same(n))
        unk |= set(flaky); bad = {n: m for n, m in bad.items() if n not in flaky}; others = {n: m for n, m in others.items() if n not in flaky}
        if flaky: r["unchanged_but_not_rediscovered"] = flaky
    r["obligations"] = len(mine) + len(lemmas)
    und = sorted(n for n in demoted if any(n == m for _, _, m in mine))
    failed_n = len([1 for a, b, n in mine if n in bad or n in unk or n in demoted or n in others]) + len([1 for _, n in lemmas if n in bad or n in unk or n in others])
    dep = sorted((set(others) | ((unk | set(demoted)) - set(n for _, _, n in mine))))
    r["discharged"] = r["obligations"] - failed_n
    r["failed"] = ["%s: %s" % (n, "; ".join(sorted(set(m)))) for n, m in sorted(bad.items())]
    r["output"] = "\n".join(txt)[:20000]
    r["functions_under_contract"] = sorted(set(n for _, _, n in mine))
    r["lemmas"] = [n for _, n in lemmas]
    r["all_functions_extracted"] = len(funcs)
    r["all_verified"] = vr.get("verified", 0); r["all_errors"] = vr.get("errors", 0)
    r["solver_s"] = round(j["times-ms"]["smt"]["total"] / 1000.0, 1)
    r["backend"] = "Verus (Z3)"
    r["wall_s"] = round(time.time() - t0, 1)
    r["extraction_rewrites"] = changes
    r["trusted"] = ["Verus 0.2026.09.13 and Z3", "the extractor (/verif/extract): names, rewrites and counts in extraction_rewrites"] if r["obligations"] else []
    r["assumptions"] = assumptions(text) if r["obligations"] else []
    if unk: r["note"] = "not decided by the solver in this run: " + ", ".join(sorted(unk))
    if und: r["note"] = (r["note"] + "; " if r["note"] else "") + "left undecided: " + "; ".join("%s (%s)" % (n, demoted[n]) for n in und)
    if dep and r["obligations"]:
        r["note"] = (r["note"] + "; " if r["note"] else "") + "proved only relative to contracts that failed or stayed undecided in: " + ", ".join(dep)
        r["relative"] = True
    return r

if __name__ == "__main__":
    import sys
    x = check(sys.argv[1], "quick", os.path.join(V, "build"), lambda: 800, "/tmp/v")
    o = x.pop("output", ""); x.pop("functions_under_contract", None); print(json.dumps(x, indent=1)); print(o[:6000])
