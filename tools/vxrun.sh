#!/bin/bash
# development helper: extract and verify
cd /verif && mkdir -p build && tools/vx/target/release/vx --src /repo/src --contracts contracts --out build/m.rs --report build/report.json ${BASE:---baseline contracts/baseline.tsv} $VXARGS || exit 3
cd build && exec verus m.rs "$@"
