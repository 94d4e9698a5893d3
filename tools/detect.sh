#!/bin/bash
# Applies each planted bug to /repo in turn, runs the check of its property (or the checks given in
# CHECKS), and undoes it.  Usage: detect.sh ID...
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh "$c" > /tmp/detect.out 2>&1; rc=$?
    echo "$id $c exit=$rc $(($(date +%s)-s))s $(grep -m1 '^VIOLATION' /tmp/detect.out | cut -c1-120)"
    [ -n "$V" ] && head -20 /tmp/detect.out
  done
  git -C /repo checkout -- .
done
