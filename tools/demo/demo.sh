#!/bin/bash
# Runs demo.rs as an integration test of the crate it names; exits 0 when it passes.
here=$(cd "$(dirname "$0")" && pwd)
crate=$(sed -n 's#^// crate: ##p' "$here/demo.rs" | head -1)
name=zz_seeded_demo_$$
t=/repo/$crate/tests/$name.rs
trap 'rm -f "$t"' EXIT
cat "$here/demo.rs" > "$t"
[ -f "$here/sim.rs" ] && cat "$here/sim.rs" >> "$t"
. /opt/vp/common.sh
cargo test --workspace --all-features --offline --test $name -- --test-threads 4
rc=$?
rm -f "$t" /repo/target/debug/deps/$name-*
exit $rc
