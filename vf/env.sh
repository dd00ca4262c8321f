# for trying things by hand: . vf/env.sh
export CYCLUS_PATH=/verif/build/san/lib/cyclus ASAN_OPTIONS=detect_leaks=0:detect_odr_violation=0:alloc_dealloc_mismatch=0 CYCLUS_NUC_DATA=/verif/build/tree/share/cyclus_nuc_data.h5 CYCLUS_RNG_SCHEMA=/verif/build/tree/share/cyclus.rng.in UBSAN_OPTIONS=print_stacktrace=1
