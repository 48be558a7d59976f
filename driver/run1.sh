set -e
CARGO_TARGET_DIR=/verif/.cache/driver RUSTUP_TOOLCHAIN=nightly cargo build --offline --manifest-path /verif/driver/Cargo.toml 2>&1 | grep -A9 -E "^error" | head -50
cd /repo; . /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/t1; export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib; rm -rf /tmp/t1/debug/.fingerprint/imageproc-*  /tmp/t1/debug/build/imageproc
MIRDUMP_CRATE=imageproc MIRDUMP_OUT=/tmp/mir.json RUSTC_WORKSPACE_WRAPPER=/verif/.cache/driver/debug/mirdump cargo check --offline --lib 2>&1 | cut -c1-300| tail -25; ls -la /tmp/mir.json; python3 -c "
import json;d=json.load(open('/tmp/mir.json'));print(len(d['fns']),len(d['adts']),len(d['types']))"
