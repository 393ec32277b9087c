#!/bin/bash
# builds the scenario in demo.cc from /repo's tree in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export HGDB_REPO=$PWD HGDB_BUILD=$tmp/build PYTHONDONTWRITEBYTECODE=1
python3 "$here/kit/build.py" demo > "$tmp/log" 2>&1 || { cat "$tmp/log"; exit 3; }
export ASAN_OPTIONS=detect_leaks=0:exitcode=99:use_sigaltstack=0:detect_stack_use_after_return=0 UBSAN_OPTIONS=halt_on_error=1:exitcode=99
cd "$tmp" && timeout 200 "$tmp/build/bin/demo" --tier quick --out "$tmp/out.json" --known /dev/null
rc=$?
[ -s "$tmp/out.json" ] && head -c 3000 "$tmp/out.json"
exit $rc
