#!/usr/bin/env python3
"""Plants bugs: edits a scratch copy of /repo, confirms that the existing tests pass and the demonstration tells the two apart, writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
I2 = "src/indices/morton_index_2d.rs"; I3 = "src/indices/morton_index_3d.rs"; ST = "src/indices/storage.rs"; NU = "src/number.rs"
MO = "src/morton.rs"; D2 = "src/dimensions/dim_2d.rs"; D3 = "src/dimensions/dim_3d.rs"; AL = "src/align.rs"; IM = "src/indices/mod.rs"; HE = "src/helper.rs"
S = []
def seed(id, prop, file, edits, demo, needs, breaks): S.append((id, prop, file, edits, demo, needs, breaks))
PRE = "#![allow(unused_imports)]\nuse morton_index::*;\nuse morton_index::dimensions::*;\nuse morton_index::number::*;\nuse morton_index::nalgebra::{Vector2, Vector3};\nuse std::num::NonZeroUsize;\n"
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlist.py")).read())
DEMO = '''#!/bin/bash
# exit 0: the property holds for this input; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
s=$(mktemp -d)
trap 'rm -rf -- "$s"' EXIT
mkdir -p "$s/src"
cp "$here/main.rs" "$s/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$s/Cargo.lock"
cat > "$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
morton-index = { path = "$repo" }
[workspace]
T
cd "$s" && CARGO_TARGET_DIR=$s/target cargo run -q --offline
'''
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
want = sys.argv[1:]
W = "/tmp/w/seed"
shutil.rmtree(W, ignore_errors=True); os.makedirs("/tmp/w", exist_ok=True)
shutil.copytree("/repo", W, symlinks=True)
for id, prop, file, edits, demo, needs, breaks in S:
    if want and id not in want: continue
    d = "/verif/seeded/" + id
    sh(["git", "checkout", "-q", "--", "."], W)
    p = os.path.join(W, file); t = open(p).read(); ok = True
    for e in edits:
        old, new = e[0], e[1]; n = e[2] if len(e) > 2 else None
        c = t.count(old)
        if c == 0 or (c > 1 and n is None): print(id, "anchor occurs %d times: %s" % (c, old[:60])); ok = False; break
        if n is None: t = t.replace(old, new)
        else:
            parts = t.split(old); t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
    if not ok: continue
    open(p, "w").write(t)
    diff = sh(["git", "diff"], W).stdout
    r = sh(["cargo", "test", "--offline", "--locked", "-q", "--lib"], W)
    if r.returncode: 
        import re
        print(id, "TESTS FAIL", re.findall(r"^error[^\n]*|^    \S+$|test result[^\n]*", r.stdout, re.M)[:6]); continue
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(PRE + demo + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    b = sh(["bash", d + "/demo.sh"], W)
    g = sh(["bash", d + "/demo.sh"], "/repo")
    print(id, prop, "tests pass; demo with patch rc=%d, without rc=%d" % (b.returncode, g.returncode), "" if b.returncode and not g.returncode else "<<< NOT OK " + b.stdout[-300:] + g.stdout[-600:])
    if not (b.returncode and not g.returncode): shutil.rmtree(d)
shutil.rmtree(W)
