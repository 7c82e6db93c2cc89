#!/bin/sh
# regenerates the io_*.cpp files of this directory with the repository's own code generator
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); cp $d/*.hh $t; cd $t; printf '#include "mm_stl_types.hh"\n#include "vs_types.hh"\n#include "stl8_types.hh"' > S_source.hh
TRICK_HOME=/repo /repo/bin/trick-ICG -I/repo/include -I/repo/trick_source S_source.hh
for f in $(find build -name 'io_*.cpp'); do sed "s#\"$t/#\"#; s#$t/##" $f > $d/$(basename $f); done; cd /; rm -rf "$t"
