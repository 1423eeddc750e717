# newseed.sh ID PROP: takes the uncommitted diff of /tmp/wt as patch.diff; demo.cpp comes from stdin
id=$1; prop=$2; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff; git -C /tmp/wt checkout -q -f .
cat > $d/demo.cpp
cat > $d/demo.sh <<'X'
#!/bin/bash
# Runs in the root of the built repository; everything is written below a fresh scratch directory.
here=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/tmp"; export TMPDIR="$t/tmp"
g++ -std=c++17 -O1 -DNDEBUG -D_FILE_OFFSET_BITS=64 -w -I"$r" -I"$r/_build" -I"$r/_build/tpie" "$here/demo.cpp" "$r/_build/tpie/libtpie.a" -lsnappy -llz4 -lzstd -pthread -o "$t/demo" || exit 99
cd "$t" && timeout 200 ./demo
X
