#!/bin/bash
# seed, output, include directories..., compiler and flags in $CC
set -e
here=$(cd $(dirname $0) && pwd)
d=$2_src; rm -rf $d; mkdir -p $d
eval $(python3 $here/gen.py $1 $d)
objs=
for f in ${main//,/ }; do $CC -I$INC -I$here/.. -I$d -c $d/$f -o $d/$f.o; objs="$objs $d/$f.o"; done
$CC $objs -rdynamic -ldl -o $2
if [ -n "$lib" ]; then $CC -fPIC -shared -I$INC -I$d $d/so.cpp -o $2.so; fi
rm -rf $d
