#!/bin/bash
# catch.sh [id...]: runs the check of each planted bug's property against a copy with the bug
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  work=$(mktemp -d /tmp/catchXXXXXX)
  git -C /repo archive HEAD | tar -x -C "$work"
  git -C "$work" init -q; git -C "$work" apply "$PWD/seeded/$id/patch.diff" || echo "patch $id"
  prop=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
  start=$SECONDS
  SYMX_REPO=$work timeout 900 /opt/venv/bin/python -B run.py "$prop" quick > "$work/out" 2>&1
  rc=$?
  echo "$id $prop rc=$rc $((SECONDS-start))s $(grep -m1 -E 'VIOLATION' "$work/out")"
  rm -rf "$work"
done
