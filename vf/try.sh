#!/bin/bash
# try.sh DRIVER PROP SEED N : developer loop, one process per core
cd /tmp; D=$1; P=$2; S=$3; N=$4
export ASAN_OPTIONS=detect_odr_violation=0:alloc_dealloc_mismatch=0:detect_leaks=0:exitcode=99 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1:exitcode=99
export CYCLUS_PATH=/verif/build/san/lib/cyclus CYCLUS_NUC_DATA=/verif/build/tree/share/cyclus_nuc_data.h5 CYCLUS_RNG_SCHEMA=/verif/build/tree/share/cyclus.rng.in
for w in 0 1 2 3 4 5 6 7; do
 ( T=$(mktemp -d /tmp/try.XXXX); cd $T; /verif/build/san/bin/$D --prop $P --seed $S --from $w --to $N --step 8 > $T/log 2>&1; echo "w$w rc=$?"; grep -a -m6 "VIOLATION\|runtime error\|ERROR: Addr\|CPU-LIMIT" $T/log | cut -c1-400; cd /tmp; rm -rf $T ) &
done; wait
