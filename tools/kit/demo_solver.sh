#!/bin/bash
# Builds the solver of the current directory (with a stand-in for the absent SATSentinel library)
# in a scratch folder and replays the histories beside this script.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
find "$repo/src" -name '*.cpp' > "$tmp/list"; ls "$here"/*.cpp >> "$tmp/list"
cd "$tmp" && i=0; while read -r f; do i=$((i+1)); echo "$f $tmp/$i.o"; done < list | xargs -P 8 -n 2 sh -c 'clang++ -w -std=c++20 -O1 DEFS -I'"$repo/include -I$repo/src -I$here"' -c "$0" -o "$1"' || exit 2
clang++ "$tmp"/*.o -llzma -lbz2 -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 120 "$tmp/demo" "$here"/*.txt
