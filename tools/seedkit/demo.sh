#!/bin/bash
# Builds demo.cpp together with the sources of the current directory and runs it in a scratch directory.
# exit 0: the behaviour is right, 1: it is not
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/slide_demo.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
mkdir -p "$work/root/results" "$work/obj" "$work/run"
ln -s "$repo/data" "$work/root/data"
inc=""
for d in . cooling cells cells/Cell_SPM modules power_conversion system procedures factories settings; do inc="$inc -I$repo/src/$d"; done
[ -f "$here/flags" ] && extra=$(cat "$here/flags")
cc="g++ -std=c++20 -O1 -w $extra -DSLIDE_ROOT_DIR=\"$work/root\" $inc"
export CCACHE_DISABLE=1
skip='^$' # sources which demo.cpp includes itself
[ -f "$here/skip" ] && skip=$(cat "$here/skip")
{ echo "$here/demo.cpp"; find "$repo/src" -name '*.cpp' ! -name main.cpp ! -path '*/procedures/degradation.cpp' ! -path '*/procedures/determine_characterisation.cpp' ! -path '*/optimisation/*' | grep -v "$skip"; } |
  awk -v o="$work/obj" '{print $0 " " o "/" NR ".o"}' |
  xargs -P 8 -L 1 sh -c 'c=$1; shift; g++ -std=c++20 -O1 -w '"$extra"' "-DSLIDE_ROOT_DIR=\"'"$work"'/root\"" '"$inc"' -c "$1" -o "$2"' sh x >"$work/log" 2>&1
g++ "$work"/obj/*.o -o "$work/demo" -lpthread >>"$work/log" 2>&1 || { tail -20 "$work/log"; exit 2; }
cd "$work/run" && timeout 120 "$work/demo" >"$work/out" 2>"$work/err"
rc=$?
grep '^demo:' "$work/out"
[ $rc = 0 ] && { echo "demo: ok"; exit 0; }
echo "demo: failed ($rc)"; exit 1
