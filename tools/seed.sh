#!/bin/bash
# Confirms a planted bug: tools/seed.sh ID [nocheck]
# /tmp/w (a clone of /repo, created on demand) carries the change in its working tree, or seeded/ID/patch.diff does.
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/w
export LC_ALL=C.UTF-8
if [ ! -d $W ]; then
  git clone -q /repo $W && (cd $W && meson setup _build . --buildtype=debugoptimized --wrap-mode=nodownload -Dwerror=false -Ddocs=false >/dev/null && ninja -C _build >/dev/null)
fi
git -C $W fetch -q
[ -z "$(git -C $W status --short -uno)" ] && git -C $W reset -q --hard origin/main
[ -f $D/patch.diff ] && [ -z "$(git -C $W status --short -uno)" ] && git -C $W apply $D/patch.diff
git -C $W reset -q
git -C $W diff > /tmp/seed.diff
[ -s /tmp/seed.diff ] || { echo "no change"; exit 2; }
cp /tmp/seed.diff $D/patch.diff
ninja -C $W/_build >/tmp/seed.build 2>&1 || { echo BUILD FAILS; tail -30 /tmp/seed.build; exit 2; }
(cd $W && timeout 120 ./_build/tests/libgul-test > /tmp/seed.test 2>&1) && echo "tests pass" || { echo "TESTS FAIL $(grep -aE "^\.\./tests.*FAILED" /tmp/seed.test | head -3 | tr "\n" " ")"; }
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/seed.demo0 2>&1); echo "demo unchanged: $?"
(cd $W && timeout 300 bash $D/demo.sh >/tmp/seed.demo1 2>&1); echo "demo patched: $?"
if [ "${2:-}" != nocheck ]; then
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  (cd /verif && VERIF_REPO=$W VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py $P > /tmp/seed.check 2>&1); echo "check $P: $?"; grep -m2 -a "VIOLATION" /tmp/seed.check; tail -c 300 /tmp/seed.check
fi
git -C $W checkout -q -- .
