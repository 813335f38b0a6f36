#!/bin/bash
# developer loop for the image contracts
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")"; pwd)
(cd $D/engine/xform && CARGO_TARGET_DIR=$D/build/xform-target cargo build --release --offline -q) || exit 3
cd $D && VERIF_BUILD=$D/build python3 engine/gen.py asym areal || exit 3
for m in asym areal; do (cd build/$m && CARGO_TARGET_DIR=$D/build/target cargo build --release --offline 2>&1 | grep -E "^error" -A14 | head -${1:-60}); done
