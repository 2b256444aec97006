#!/bin/sh
# Nothing to install: every check builds what it needs from /repo. This only verifies the tools are there.
set -e
cd "$(dirname "$0")"
for t in g++ clang++ python3 objcopy; do command -v $t >/dev/null || { echo "missing $t" >&2; exit 1; }; done
test -r /usr/share/unicode/UnicodeData.txt
python3 -c 'import sys; sys.path.insert(0, "tools"); import props; print(len(props.PROPS), "checks")'
sh selftest/run.sh
