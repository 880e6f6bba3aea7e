#!/bin/bash
# seed.sh ID [checks...] : verify demo in scratch copy, run checks there
D=${SD:-/verif/seeded}/$1; ID=$1; shift
rm -rf /tmp/wt; git -C /repo worktree prune; git clone -q ${R:-/repo} /tmp/wt || exit 1
cd /tmp/wt; bash $D/demo.sh >/tmp/seed.out 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: PATCH FAILS"; exit 1; }
bash $D/demo.sh >>/tmp/seed.out 2>&1; b=$?
echo "$ID: clean=$a patched=$b $(tail -1 /tmp/seed.out)"
for c in "$@"; do VERIF_REPO=/tmp/wt VERIF_BUILD=/tmp/wtb python3 ${V:-/verif}/check.py $c --tier quick --seed 1 2>&1 | grep -v KNOWN | tail -${L:-2} | cut -c1-300; done
rm -rf /tmp/wt /tmp/wtb
