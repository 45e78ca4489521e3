#!/bin/bash
# seed.sh ID: confirm the planted bug in /verif/seeded/ID (patch.diff + demo.sh) in the scratch copy /tmp/sr/repo:
# applies, builds, the stable tests pass, demo fails with it and passes without it.
id=$1; s=/verif/seeded/$id; r=/tmp/sr/repo
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
cd $r && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
git apply --check $s/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
if [ -z "$SKIPCLEAN" ]; then (bash $s/demo.sh >/tmp/sr/$id.clean 2>&1); c=$?; else c=0; fi
git apply $s/patch.diff; rm -rf target/debug/.fingerprint/cambrian-*
timeout 600 cargo test --workspace --offline -- --test-threads 1 >/tmp/sr/$id.test 2>&1; t=$?
(bash $s/demo.sh >/tmp/sr/$id.bug 2>&1); b=$?
git checkout -q -- .
echo "$id: clean demo rc=$c, tests rc=$t, buggy demo rc=$b $( [ $c = 0 ] && [ $t = 0 ] && [ $b != 0 ] && echo CONFIRMED || echo NOT-CONFIRMED )"
