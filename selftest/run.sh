#!/bin/sh
# Reference models against the published conformance tests. No part of any check; run by hand and by setup.sh.
set -e
cd "$(dirname "$0")/.."
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -Isim selftest/ref_selftest.cpp sim/ref.cpp sim/common.cpp -o "$tmp/t"
python3 -c 'import bz2,sys; sys.stdout.buffer.write(bz2.open("/usr/share/unicode/NormalizationTest.txt.bz2").read())' | "$tmp/t"
