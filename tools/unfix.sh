#!/bin/bash
# unfix.sh commit property...: takes a repair out of a copy and runs the checks
cd "$(dirname "$0")/.."
c=$1; shift
for prop in "$@"; do
  work=$(mktemp -d /tmp/unfixXXXXXX)
  git clone -q /repo "$work/r"
  if git -C "$work/r" -c user.name=x -c user.email=x@x revert -n "$c" >/dev/null 2>&1; then
    SYMX_REPO=$work/r timeout 900 /opt/venv/bin/python -B run.py "$prop" quick > "$work/out" 2>&1
    echo "$c $prop rc=$? $(grep -m1 -E 'VIOLATION' "$work/out")"
  else
    echo "$c conflict: $(git -C "$work/r" diff --name-only --diff-filter=U)"
  fi
  rm -rf "$work"
done
