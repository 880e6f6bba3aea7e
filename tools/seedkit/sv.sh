# sv.sh ID...: verify demos (clean and patched), in parallel trees
one() { ID=$1; D=/tmp/vw/seeded/$ID; W=/tmp/svt.$ID; rm -rf $W; git clone -q /tmp/repo2 $W; cd $W; unshare -Urn sh -c "ip link set lo up; bash $D/demo.sh" >/tmp/sv.$ID.out 2>&1; a=$?; git apply $D/patch.diff || echo PATCHFAIL $ID; unshare -Urn sh -c "ip link set lo up; bash $D/demo.sh" >>/tmp/sv.$ID.out 2>&1; b=$?; echo "$ID clean=$a patched=$b $(tail -1 /tmp/sv.$ID.out | cut -c1-150)"; rm -rf $W; }
for i in "$@"; do one $i & while [ $(jobs -r | wc -l) -ge 4 ]; do sleep .2; done; done; wait
