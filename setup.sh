#!/bin/bash
# Builds the harness once, so that each check only rebuilds what changed.
. /verif/env.sh
mkdir -p /verif/target /verif/evidence
cd /verif/harness && cargo build --offline --locked -q --bins && exec /verif/qis/build.sh
