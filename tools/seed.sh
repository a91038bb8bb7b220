#!/bin/bash
# developer helper: confirm a planted change in a scratch copy of /repo and see which checks catch it
# tools/seed.sh ID [PROPERTY...]
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1 PROPTEST_MAX_SHRINK_TIME=10000
id=$1; shift; S=/verif/seeded/$id
W=/tmp/seedwork; [ -d $W ] || cp -a /repo $W
cd $W && git checkout -q -f $(git -C /repo rev-parse HEAD) 2>/dev/null || { git fetch -q /repo main && git checkout -q -f FETCH_HEAD; }
D=$(mktemp -d /tmp/demoXXXX); cp -a $S/. $D/; chmod +x $D/demo.sh
(bash $D/demo.sh >/tmp/t/demo.clean 2>&1) && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -5 /tmp/t/demo.clean; }
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
cargo build --offline -q --all --features "" 2>&1 | grep -E "^error" -A7
cargo test --offline --all --no-fail-fast > /tmp/t/seedtest 2>&1; grep -E "^test .*FAILED|error: test failed" /tmp/t/seedtest | head
(bash $D/demo.sh >/tmp/t/demo.bug 2>&1) && echo "demo bug: PASSES (bad)" || { echo "demo bug: fails (good)"; grep -m2 -A1 panicked /tmp/t/demo.bug; }
git checkout -q -- .
rm -rf "$D"
if [ -n "$1" ]; then
  git -C /repo apply $S/patch.diff || exit 1
  for p in "$@"; do (cd /verif && timeout 900 ./check.sh $p 2>&1 | tail -2); done
  git -C /repo checkout -- .
fi
