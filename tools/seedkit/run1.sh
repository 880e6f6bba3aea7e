#!/bin/bash
# run1.sh h mode cases seed [extra]
cd /verif
rm -f /tmp/x-$2-$4.json
EXE=$(python3 -c "import check; print(check.build('$1','${SAN:-asan}'))")
env $(python3 -c "import check; print(' '.join('%s=%s'%(k,v) for k,v in check.ENV_SAN.items()))") timeout ${T:-300} $EXE --mode $2 --seed $4 --cases $3 --out /tmp/x-$2-$4.json "${@:5}" > /tmp/m/out.$2.$4 2>&1; echo "rc $?"; tail -${L:-30} /tmp/m/out.$2.$4
