#!/bin/bash
# Native sweep only, against copies: which planted bugs the executed contracts find within 4 s. sweepseeds.sh [id...]
set -u
W=/tmp/sv; mkdir -p $W; rsync -a --delete --exclude target /verif/kani/ $W/kani/ 2>/dev/null || { rm -rf /tmp/sv/kani; cp -a /verif/kani $W/kani; rm -rf /tmp/sv/kani/target; }
sed -i "s#\"/repo\"#\"$W/repo\"#" $W/kani/Cargo.toml
[ $# -gt 0 ] || set -- $(ls /verif/seeded)
for s in "$@"; do
  mkdir -p $W/repo; cp -a /repo/Cargo.toml /repo/src $W/repo/; [ -d /repo/benches ] && cp -a /repo/benches $W/repo/
  (cd $W/repo && patch -sp1 < /verif/seeded/$s/patch.diff) || { echo "$s: patch fails"; continue; }
  touch $W/repo/src/*.rs $W/repo/src/*/*.rs
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])"); n=${p#C}
  (cd $W/kani && CARGO_TARGET_DIR=$W/t cargo build --offline >/dev/null 2>$W/err) || { echo "$s: build fails"; tail -3 $W/err; continue; }
  pre="c$n:: x$n::"; case $p in C01|C02) pre="$pre wrap::";; esac
  f=$($W/t/debug/replay sweep ${SEED:-1} ${SECS:-4} $pre | awk -F'\t' '$4!="-"{print $1}' | tr '\n' ' ')
  echo "$s $p: ${f:-MISSED}"
done
