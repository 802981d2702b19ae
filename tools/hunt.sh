#!/bin/bash
# Development: run the check of each seeded bug against a scratch copy of /repo with the bug.
# hunt.sh ID...   (prints caught/MISSED and the seconds needed)
for i in "$@"; do
  w=$(mktemp -d /tmp/hunt.XXXX)
  git clone -q /repo "$w/r" && git -C "$w/r" apply "/verif/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  s=$(date +%s)
  VP_REPO="$w/r" VP_BUILD="$w/b" python3 /verif/check.py "$p" > "$w/log" 2>&1; rc=$?
  e=$(($(date +%s)-s))
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p" "$w/log"; then
    echo "$i caught ${e}s: $(grep -m1 '^--- ' "$w/log" | cut -c1-150)"
  else
    echo "$i MISSED rc=$rc ${e}s: $(tail -1 "$w/log")"; cp "$w/log" "/tmp/t/miss-$i.log"
  fi
  rm -rf "$w"
done
rm -f /verif/replays/*
