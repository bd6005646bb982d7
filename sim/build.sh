#!/bin/bash
# build.sh FLAVOUR OUTDIR REPO : builds the simulator against REPO's working tree
# flavours: tsan (instrumented for the scheduler), fit (the same, with the fitting routines), plain, therm (coupled thermal model)
set -ef
skip=
fl=$1; out=$2; repo=$3; here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
export CCACHE_DISABLE=1
inc="-I$repo/src -I$repo/src/cooling -I$repo/src/cells -I$repo/src/cells/Cell_SPM -I$repo/src/modules -I$repo/src/power_conversion -I$repo/src/system -I$repo/src/procedures -I$repo/src/factories -I$repo/src/settings"
common="-std=c++20 -g1 -w -fno-pie -include $here/root.hpp -DSLIDE_SIM $inc -I$here"
case $fl in
  tsan) fl_repo="-O1 -fsanitize=thread --param=tsan-distinguish-volatile=0"; srcs="p_par.cpp p_conc.cpp"; ld="-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"; core="-DSIM_WRAP";;
  fit) fl_repo="-O1 -fsanitize=thread --param=tsan-distinguish-volatile=0 -DSLIDE_SIM_OCV_POINTS=3"; srcs="p_fit.cpp"; ld="-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"; core="-DSIM_WRAP"; skip="! -path */procedures/determine_OCV.cpp";; # p_fit.cpp includes it
  plain) fl_repo="-O1 -D_GLIBCXX_ASSERTIONS"; srcs="p_log.cpp p_env.cpp p_files.cpp p_cyc.cpp p_set.cpp p_snap.cpp p_proc.cpp p_mem.cpp p_age.cpp"; ld=""; core="";;
  therm) fl_repo="-O1 -D_GLIBCXX_ASSERTIONS -DSLIDE_SIM_T_MODEL=2"; srcs="p_therm.cpp"; ld=""; core="";;
esac
obj="$out/obj"; mkdir -p "$obj"
mk="$out/Makefile"
{
  echo "all: $out/sim"
  objs="$obj/core.o $obj/main.o"
  echo "$obj/core.o: ; g++ -std=c++20 -O2 -g1 -w -fno-pie -fno-threadsafe-statics $core -c $here/core.cpp -o \$@"
  echo "$obj/main.o: ; g++ -std=c++20 -O1 -g1 -w -fno-pie -c $here/main.cpp -o \$@"
  for s in world.cpp $srcs; do
    [ -f "$here/$s" ] || continue
    o="$obj/h_${s%.cpp}.o"; objs="$objs $o"
    echo "$o: ; g++ $common $fl_repo -c $here/$s -o \$@"
  done
  while read -r f; do
    o="$obj/r_$(echo "${f#$repo/src/}" | tr '/' '_').o"; objs="$objs $o"
    echo "$o: ; g++ $common $fl_repo -c $f -o \$@"
  done < <(find "$repo/src" -name '*.cpp' ! -name main.cpp ! -path '*/procedures/degradation.cpp' ! -path '*/procedures/determine_characterisation.cpp' ! -path '*/optimisation/*' $skip | sort)
  echo "$out/sim: $objs ; g++ -no-pie -rdynamic $ld \$^ -o \$@ -lpthread -ldl"
} > "$mk"
make -s -k -j8 -f "$mk" "$out/sim"
