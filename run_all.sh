#!/bin/bash
# usage: run_all.sh [quick|thorough] [ids...]  -- runs every registered check, prints one line each
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
tier=${1:-quick}; shift
ids=${*:-$(cd "$here/mc/props" && ls c[0-9]*.py | sed 's/.py//' | tr a-z A-Z)}
for i in $ids; do
  out=$(bash "$here/check.sh" "$i" "$tier" 2>&1); rc=$?
  echo "$i rc=$rc $(echo "$out" | grep -E "^$i $tier|VIOLATION|KNOWN" | tr '\n' ' ')"
  [ $rc -ne 0 ] && echo "$out" | tail -15
done
