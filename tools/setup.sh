#!/bin/bash
# Build the analyser and warm the dependency builds.
set -e
cd "$(dirname "$0")/.."
(cd engine && cargo +nightly build --release --offline -q) 2>/dev/null
for p in C06 C26 C21; do ./check $p quick >/dev/null 2>&1 || true; done
exit 0
