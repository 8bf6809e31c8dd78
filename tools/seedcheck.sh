#!/bin/bash
# seedcheck.sh ID...: confirms that each planted bug builds, passes the tests, and that its demonstration tells them apart
S=/tmp/seedrepo
rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo
cd $S
for id in "$@"; do
  d=/verif/seeded/$id
  cp /verif/tools/demo.sh.in $d/demo.sh 2>/dev/null
  rm -rf /tmp/seeddemo; mkdir /tmp/seeddemo; cp $d/demo.* /tmp/seeddemo/
  git checkout -q -- .
  bash /tmp/seeddemo/demo.sh > /tmp/seed.ok 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  bash /tmp/seeddemo/demo.sh > /tmp/seed.bad 2>&1; b=$?
  CARGO_TARGET_DIR=$S/target RUSTUP_TOOLCHAIN=1.70 INSTA_UPDATE=no cargo test --offline --no-fail-fast > /tmp/seed.test 2>&1; c=$?
  echo "$id: demo unchanged=$a patched=$b tests=$c $(grep -E '^test result' /tmp/seed.test | head -1 | cut -c1-60)"
  [ $a = 0 ] || tail -20 /tmp/seed.ok
  [ $b = 0 -o $b = 2 ] && tail -20 /tmp/seed.bad
  git checkout -q -- .
done
rm -rf /tmp/seedrepo /tmp/seeddemo
