#!/bin/bash
# Build the extractor and both contract binaries once (every check rebuilds what changed).
. /opt/vp/env.sh
set -e
cd "$(dirname "$(readlink -f "$0")")"
export VERIF_BUILD=$PWD/build
mkdir -p build evidence
(cd engine/xform && CARGO_TARGET_DIR=$VERIF_BUILD/xform-target cargo build --release --offline -q)
python3 engine/gen.py sym real asym areal
for m in real sym areal asym; do (cd build/$m && CARGO_TARGET_DIR=$VERIF_BUILD/target cargo build --release --offline -q 2>/dev/null) || echo "setup: $m did not build" >&2; done
exit 0
