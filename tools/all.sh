#!/bin/bash
# Runs every check (quick unless arguments are given) and prints one line each: bash tools/all.sh [--tier thorough] ...
cd "$(dirname "$0")/.."
for i in $(seq -w 1 39); do
  out=$(bash run "C$i" "$@" 2>&1); rc=$?
  echo "$out" | grep -E '^VIOLATION|^KNOWN' ; echo "rc=$rc $(echo "$out" | tail -1)"
done
