#!/bin/bash
# Which source lines of the library do the given checks execute?  tools/coverage.sh C01 C02 ...   (report in /tmp/cov)
cd "$(dirname "$0")/.."
rm -rf /tmp/cov; mkdir -p /tmp/cov
export VERIF_COV=1 LLVM_PROFILE_FILE=/tmp/cov/p-%4m.profraw
for c in "$@"; do python3 checks/$c.py quick >/tmp/cov/$c.log 2>&1; echo $c $?; done
git checkout -q evidence 2>/dev/null
llvm-profdata merge -o /tmp/cov/all.profdata /tmp/cov/*.profraw
B=$(ls -td build/harness-cov-drv-*/drv build/*cov*/drv 2>/dev/null | head -1)
llvm-cov report $B -instr-profile=/tmp/cov/all.profdata > /tmp/cov/report.txt
llvm-cov show $B -instr-profile=/tmp/cov/all.profdata > /tmp/cov/show.txt
