#!/bin/bash
# build_nodes.sh REPO OUT: compile the real client and server code of REPO's working tree into
# OUT/libclient.so and OUT/libserver.so, with every system call the code makes redirected to the
# simulator (symbol renaming in the objects; the sources are compiled unmodified).
set -e
REPO=$1; OUT=$2; SIM=$(cd "$(dirname "$0")" && pwd)
SRC=$REPO/src
mkdir -p $OUT/cfg $OUT/oc $OUT/os $OUT/oq
cmake -DREPO=$REPO -DOUT=$OUT/cfg -P $SIM/gen_config.cmake >/dev/null
INC="-I$SIM/include -I$OUT/cfg"
for d in $(find $SRC/api $SRC/server $SRC/utils $SRC/commons -name '*.h' ! -path '*/serde/*' -printf '%h\n' | sort -u); do INC="$INC -I$d"; done
CC=${CC:-gcc}
COV="-fsanitize-coverage=trace-pc"
CFLAGS="-std=gnu11 -fcommon -O1 -g1 -fPIC -w -fno-strict-aliasing -fno-builtin-malloc -fno-optimize-strlen -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -DPDC_SERVER_CACHE_MAX_GB=3 -DPDC_SERVER_CACHE_FLUSH_TIME=30 -DHAVE_MALLOC_USABLE_SIZE $SIM_EXTRA_CFLAGS"
COMMONS=$(find $SRC/commons -name '*.c' ! -path '*/serde/*' ! -name '*_test.c')
A=$SRC/api; S=$SRC/server; R=$S/pdc_server_region
CLIENT="$A/pdc.c $A/pdc_client_connect.c $A/pdc_obj/pdc_prop.c $A/pdc_obj/pdc_cont.c $A/pdc_obj/pdc_obj.c $A/pdc_obj/pdc_mpi.c
 $A/pdc_analysis/pdc_analysis_and_transforms_connect.c $A/pdc_analysis/pdc_analysis_common.c $A/pdc_analysis/pdc_analysis.c
 $A/pdc_analysis/pdc_hist_pkg.c $A/pdc_query/pdc_query.c $A/pdc_region/pdc_region.c $A/pdc_region/pdc_region_transfer.c
 $A/pdc_transform/pdc_transform.c $A/pdc_transform/pdc_transforms_common.c $S/pdc_client_server_common.c
 $R/pdc_server_region_transfer.c $R/pdc_server_region_cache.c $R/pdc_server_region_transfer_metadata_query.c
 $SRC/utils/pdc_interface.c $SRC/utils/pdc_region_utils.c"
SERVER="$S/pdc_server.c $S/pdc_server_metadata_index.c $S/pdc_server_metadata.c $S/pdc_client_server_common.c
 $S/dablooms/pdc_dablooms.c $S/dablooms/pdc_murmur.c $S/pdc_hash-table.c $S/pdc_server_analysis/pdc_server_analysis.c
 $R/pdc_server_data.c $R/pdc_server_region_cache.c $R/pdc_server_region_transfer.c
 $R/pdc_server_region_transfer_metadata_query.c $SRC/utils/pdc_region_utils.c
 $A/pdc_analysis/pdc_analysis_common.c $A/pdc_analysis/pdc_hist_pkg.c $A/pdc_transform/pdc_transforms_common.c"
one() { # src obj extra
  local acc=; case "$1" in */thpool.c|*/pdc_server_region/*) acc=-fsanitize=thread;; esac
  $CC $CFLAGS $COV $acc $INC $3 -c "$1" -o "$2.tmp.o" && objcopy --redefine-syms=$SIM/redirect.syms "$2.tmp.o" "$2" && rm -f "$2.tmp.o"
}
export OUT A; export -f one; export CC CFLAGS INC SIM COV
{
for f in $COMMONS; do echo "$f $OUT/oq/$(basename $f .c).o -"; done
for f in $CLIENT; do echo "$f $OUT/oc/$(basename $f .c).o -"; done
for f in $SERVER; do echo "$f $OUT/os/$(basename $f .c).o -DIS_PDC_SERVER=1"; done
for f in $SIM/work_s/*.c; do [ -e "$f" ] && echo "$f $OUT/os/w_$(basename $f .c).o -DIS_PDC_SERVER=1"; done
for f in $SIM/work/*.c; do [ -e "$f" ] && echo "$f $OUT/oc/w_$(basename $f .c).o -I$SIM/kernel"; done
} > $OUT/jobs
rm -f $OUT/oc/*.o $OUT/os/*.o $OUT/oq/*.o
xargs -P 8 -L 1 bash -c 'x=$3; [ "$x" = - ] && x=; one $1 $2 $x || exit 255' _ < $OUT/jobs
rm -f $OUT/libq.a; ar rcs $OUT/libq.a $OUT/oq/*.o
$CC -shared -Wl,-Bsymbolic -o $OUT/libclient.so $OUT/oc/*.o $OUT/libq.a -lm -luuid
$CC -shared -Wl,-Bsymbolic -o $OUT/libserver.so $OUT/os/*.o $OUT/libq.a -lm -luuid

# components on their own: the same sources with drivers that generate, run and judge a workload
(
mkdir -p $OUT/ok; rm -f $OUT/ok/*.o
for f in pdc_dablooms pdc_murmur pdc_region_utils; do cp $OUT/os/$f.o $OUT/ok/; done
one $A/pdc_analysis/pdc_hist_pkg.c $OUT/ok/pdc_hist_pkg.o -DIS_PDC_SERVER=1
cp $OUT/os/pdc_hash-table.o $OUT/ok/srv_hash.o
nm $OUT/ok/srv_hash.o | awk '$2 ~ /[TDBC]/ {print $3, "srv_" $3}' > $OUT/ok/syms && objcopy --redefine-syms=$OUT/ok/syms $OUT/ok/srv_hash.o
for f in $SIM/comp/*.cc; do echo "$f $OUT/ok/d_$(basename $f .cc).o"; done | xargs -r -P 8 -L 1 bash -c 'g++ -std=gnu++17 -O1 -g1 -fPIC -w -fpermissive -I$SIM/kernel $INC -c $0 -o $1 || exit 255'
g++ -shared -Wl,-Bsymbolic -o $OUT/libcomp.so $OUT/ok/*.o -Wl,--whole-archive $OUT/libq.a -Wl,--no-whole-archive -lm
) || echo "the component library does not build"
