#!/bin/bash
# runs the verifier of one property against a planted bug: tryseed.sh C16 s16-abs-c
d=$(mktemp -d /tmp/tryseed.XXXX)
cp -a /repo "$d/repo" && (cd "$d/repo" && git apply "/verif/seeded/$2/patch.diff") || exit 3
cd /verif && VERIF_REPO="$d/repo" PYVC_VERBOSE=1 PYVC_JOBS=6 PYTHONDONTWRITEBYTECODE=1 PROOF_SECONDS=${PROOF_SECONDS:-300} python3-vt pyvc/run.py "$1" "$d/out.json" | grep -v '^   scope' | cut -c1-${W:-250}
case "$d" in /tmp/tryseed.*) rm -rf "$d";; esac
