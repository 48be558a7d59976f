#!/bin/bash
# usage: seedcheck.sh ID...   validates planted bugs in a scratch copy (build, stable tests, demo both ways)
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/sw/repo
[ -d $W ] || cp -a /repo $W
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never PROPTEST_RNG_SEED=42 PROPTEST_DISABLE_FAILURE_PERSISTENCE=true RUSTC_WRAPPER=
for id in "$@"; do
  S=$V/seeded/$id
  cd $W && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .
  if [ -z "$SKIPBASE" ]; then bash $S/demo.sh >/tmp/sw/demo0.log 2>&1; r0=$?; else r0=skip; fi
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  if ! cargo test --workspace --all-features --all-targets --no-run --offline >/tmp/sw/build.log 2>&1; then echo "$id: BUILD FAILS"; tail -30 /tmp/sw/build.log; continue; fi
  rm -rf /tmp/sw/logs; mkdir -p /tmp/sw/logs
  cargo test --workspace --all-features --all-targets --no-fail-fast --offline -- --test-threads 8 > /tmp/sw/logs/targets.log 2>&1
  cargo test --workspace --all-features --doc --no-fail-fast --offline -- --test-threads 8 > /tmp/sw/logs/doc.log 2>&1
  python3 /opt/vp/results.py /tmp/sw/out.json "cargo:/tmp/sw/logs/*.log" >/dev/null 2>&1
  t=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sw/out.json'))
bp=set(b['stable'])
op=set(o.get('passed') or o.get('pass') or [])
m=sorted(bp-op)
print(f"{len(bp)} baseline, missing {len(m)} {m[:6]}")
PY
)
  bash $S/demo.sh >/tmp/sw/demo1.log 2>&1; r1=$?
  git checkout -q -- .
  echo "$id: demo base=$r0 patched=$r1 tests: $t"
done
