#!/bin/bash
# developer helper: drive.sh "<job lines>"
set -e
T=${MIRVAL_TARGET:-/tmp/mirval-dev$IMG}; F=""; C='--cfg=feature="ascii" --cfg=feature="json" --cfg=feature="svg" --cfg=feature="std"'; if [ -n "$IMG" ]; then F="--features img"; C="$C --cfg=feature=\"img\""; fi
mkdir -p $T
cd /verif/harness
LIBDIR=$(rustc +nightly --print sysroot)/lib
RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off -Zub-checks=no" cargo +nightly build --offline $F --target-dir $T --lib -q 2>&1 | grep -E '^error' -A8 || true
EXT=$(ls -t $T/debug/build/barcoders/*/out/libbarcoders-*.rmeta | head -1); L=""; for d in $T/debug/build/*/*/out; do L="$L -L dependency=$d"; done
printf '%b\n' "$1" > $T/jobs
LD_LIBRARY_PATH=$LIBDIR RUST_MIN_STACK=4294967296 MIRVAL_JOBS=$T/jobs MIRVAL_OUT=$T/out /verif/engine/target/release/mirval src/lib.rs $C --crate-name harness --crate-type lib --edition 2021 -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off -Zub-checks=no -Zalways-encode-mir --extern barcoders=$EXT $L -o $T/o --cap-lints allow
python3 -c "
import json,sys
for l in open('$T/out'):
    d=json.loads(l)
    if 'start' in d: continue
    if 'done' in d: print('done'); continue
    print(d['ob'],d.get('params'),d['status'],d.get('secs'),'sites',d.get('sites'),'splits',d.get('splits'),*[str(x)[:700] for x in d.get('violations',[])],*[str(x)[:300] for x in d.get('undecided',[])],str(d.get('known',''))[:300])
"
