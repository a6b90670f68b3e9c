#!/bin/bash
# mut.sh PID FILE SEDEXPR... : try each sed mutation of a /repo file, run the check, restore
pid=$1; f=$2; shift 2
for e in "$@"; do
  sed -i "$e" /repo/$f
  if git -C /repo diff --quiet; then echo "== NO CHANGE: $e"; continue; fi
  echo "== $e"; (cd /verif && timeout 600 ./run.py $pid quick 2>&1 | tail -${TAIL:-3} | cut -c1-${W:-260})
  git -C /repo checkout -q -- .
done
