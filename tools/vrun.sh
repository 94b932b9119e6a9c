#!/bin/bash
# development aid: vrun.sh UNIT [VARIANT] [verus args]
cd /verif/tools/vx && cargo build --release --offline -q 2>&1 | grep -E "^error|warning: unused" ; U=$1; V=${2:-prove}; shift; shift
mkdir -p /tmp/vr; cd /tmp/vr; /verif/tools/vx/target/release/vx /verif/units/$U.unit $V ${SRC:-/repo/src} /tmp/vr/$U.rs /tmp/vr/$U.json || exit 3
time verus $U.rs --triggers-mode silent --multiple-errors 5 "$@" 2>&1 | grep -v "^note: .*automatically" | head -${LINES_MAX:-90}
