# det.sh ID CHECK [seed]: run one check against the tree with the seed applied
ID=$1; W=/tmp/dt.$ID; rm -rf $W $W.b; git clone -q /tmp/repo2 $W; git -C $W apply ${SD:-/tmp/vw/seeded}/$ID/patch.diff || exit 3
s=$(date +%s); VERIF_REPO=$W VERIF_BUILD=$W.b python3 ${V:-/tmp/vw}/check.py $2 --tier quick --seed ${3:-1} > /tmp/dt.$ID.out 2>&1; rc=$?
echo "$ID $2 rc=$rc $(( $(date +%s)-s ))s $(grep -c VIOLATION /tmp/dt.$ID.out) $(tail -2 /tmp/dt.$ID.out | tr '\n' ' ' | cut -c1-250)"; rm -rf $W $W.b
