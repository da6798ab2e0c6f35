#!/bin/bash
# dbg.sh PROP IDX : run one index with symbolised sanitizer report
set -e
P=$1; I=$2
B=$(python3 /verif/check.py $P --build-only --keep | tail -1 | cut -d' ' -f2)
cd $B; SIM_STDERR=1 SIM_DEBUG=1 ./run-gen --one $I 2>$B/err | tail -${3:-40}
grep -o '(.*run-gen+0x[0-9a-f]*' $B/err | sed 's/.*+//' | head -12 | while read a; do addr2line -f -s -p -e run-gen $a; done
grep -m3 ERROR $B/err
rm -rf $B
