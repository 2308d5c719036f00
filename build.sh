#!/bin/bash
# Brings build/ up to date with /repo's working tree.  Objects of a tree with other contents are discarded first, whatever
# the time stamps say.
cd "$(dirname "$0")" || exit 2
repo=${REPO:-/repo}
mkdir -p build
sum=$(cat "$repo"/*.c "$repo"/*.h "$repo"/DuckLib/*.c "$repo"/DuckLib/*.h engine/* Makefile | sha256sum)
if [ "$sum" != "$(cat build/stamp 2>/dev/null)" ]; then
	for c in default inference portable noopt; do
		rm -rf "$PWD/build/$c" "$PWD/build/engine_$c.so"
	done
	rm -f "$PWD/build/stamp"
fi
make -s -j8 REPO="$repo" all >build/make.log 2>&1 || exit 1
echo "$sum" >build/stamp
