#!/bin/bash
# build_sim.sh OUT: the simulator itself (does not depend on /repo).
set -e
SIM=$(cd "$(dirname "$0")" && pwd); OUT=$1; mkdir -p $OUT/k
for f in $SIM/kernel/*.cc $SIM/props/*.cc $SIM/kernel/ctx.S; do
  o=$OUT/k/$(basename $f).o
  if [ ! -e $o ] || [ $f -nt $o ] || [ -n "$(find $SIM/kernel $SIM/props -name '*.h' -newer $o)" ]; then echo "$f $o"; fi
done | xargs -r -P 8 -L 1 bash -c 'g++ -std=gnu++17 -O1 -g -w -I'$SIM'/kernel -c $0 -o $1 || exit 255'
g++ -rdynamic -o $OUT/simrun $OUT/k/*.o -ldl -lm
