#!/bin/bash
# The repository's compiler as a Python module, and the stand-in for the machine that runs its output.
. /verif/env.sh
cd /verif/qis && cargo build --offline --locked -q || exit 2
L=$LLVM_SYS_140_PREFIX
T=${CARGO_TARGET_DIR:-/verif/target}
[ "$T/qrun" -nt runner.c ] || gcc -O2 -Wall -o "$T/qrun" runner.c -I$L/include -L$L/lib -lLLVM-14 -Wl,-rpath,$L/lib -lm
