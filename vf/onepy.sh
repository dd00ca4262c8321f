#!/bin/bash
# onepy.sh DRIVER PROP SEED CASE : one case of a Python driver
export PYTHONPATH=/verif/build/py/site CYCLUS_PATH=/verif/build/py/lib/cyclus CYCLUS_NUC_DATA=/verif/build/tree/share/cyclus_nuc_data.h5 CYCLUS_RNG_SCHEMA=/verif/build/tree/share/cyclus.rng.in PYTHONHASHSEED=0
T=$(mktemp -d /tmp/try.XXXX); cd $T; /opt/venv/bin/python /verif/harness/$1.py --prop $2 --seed $3 --case $4 2>&1 | grep -v "^Experimental"; cd /tmp; rm -rf $T
