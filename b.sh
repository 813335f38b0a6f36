#!/bin/bash
# developer loop: regenerate and build both sides
. /opt/vp/env.sh
(cd /verif/engine/xform && CARGO_TARGET_DIR=/verif/build/xform-target cargo build --release --offline -q) || exit 3
cd /verif && python3 engine/gen.py || exit 3
for m in sym real; do (cd build/$m && CARGO_TARGET_DIR=/verif/build/target cargo build --release --offline 2>&1 | grep -E "^error" -A14 | head -${1:-60}); done
