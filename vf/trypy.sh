#!/bin/bash
# trypy.sh DRIVER PROP SEED N : developer loop for the Python drivers
D=$1; P=$2; S=$3; N=$4
export PYTHONPATH=/verif/build/py/site CYCLUS_PATH=/verif/build/py/lib/cyclus CYCLUS_NUC_DATA=/verif/build/tree/share/cyclus_nuc_data.h5 CYCLUS_RNG_SCHEMA=/verif/build/tree/share/cyclus.rng.in PYTHONHASHSEED=0
for w in 0 1 2 3 4 5 6 7; do
 ( T=$(mktemp -d /tmp/try.XXXX); cd $T; /opt/venv/bin/python /verif/harness/$D.py --prop $P --seed $S --from $w --to $N --step 8 > $T/log 2>&1; echo "w$w rc=$?"; grep -a -A7 "VIOLATION\|Error" $T/log | head -9| cut -c1-300; cd /tmp; rm -rf $T ) &
done; wait
