#!/bin/bash
# Runs the check of each planted bug's property (and, with -a, every check) against a scratch copy with the bug applied.
# usage: sensitivity.sh [-a] [-s SEED] [-t SECS] [bug...]
V=$(cd "$(dirname "$0")/.." && pwd); ALL=0; SEED=1; SECS=
while getopts "as:t:" o; do case $o in a) ALL=1;; s) SEED=$OPTARG;; t) SECS=$OPTARG;; esac; done; shift $((OPTIND-1))
T=$(mktemp -d /tmp/sens.XXXXXX); cp -a /repo "$T/repo"; cp -a "$V" "$T/verif"; cd "$T/verif" || exit 2
[ $# = 0 ] && set -- $(ls "$V/seeded")
for b in "$@"; do
  git -C "$T/repo" checkout -q . ; git -C "$T/repo" apply "$V/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$b/meta.json'))['property'])")
  ps=$p; [ $ALL = 1 ] && ps="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20"
  hit=
  for c in $ps; do s=$(date +%s.%N); VERIF_SEED=$SEED VERIF_REPO="$T/repo" VERIF_SECS=$SECS python3 check.py $c > "$T/out" 2>&1; r=$?; d=$(echo "$(date +%s.%N)-$s" | bc); [ $r = 1 ] && grep -q "^VIOLATION property=$c" "$T/out" && hit="$hit $c"; [ $r = 2 ] && echo "  $b $c exit 2: $(tail -1 "$T/out")"; done
  echo "$b ($p):${hit:- MISSED} [${d}s] $(grep -m1 -i 'class' "$T/out" | cut -c1-100)"
done
find "$T" -delete
