#!/bin/bash
# run every registered check in parallel: runall.sh [quick|thorough] [jobs]
cd "$(dirname "$0")"
t=${1:-quick}; j=${2:-6}
python3 - <<'P' | xargs -P "$j" -I{} sh -c 'o=$(./check.py {} '"$t"' 2>&1); r=$?; echo "$o" | tail -12 | sed "s/^/[{} rc=$r] /"'
import sys; sys.path.insert(0,'.'); sys.dont_write_bytecode=True
from tdsa import rules
from tdsa.rules import ops_rules, type_rules, factor_rules, io_rules, pitf_rules
print('\n'.join(sorted(rules.RULES)))
P
