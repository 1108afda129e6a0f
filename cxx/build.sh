#!/bin/bash
# build.sh DIR: builds the C++ harness from $REPO's working tree into DIR/app and DIR/rc (the latter with the row cache enabled).
set -e
H=$(cd "$(dirname "$0")" && pwd); D=$1; R=${REPO:-/repo}; F=$R/framework
X="clang++ -std=c++17 -O1 -g -march=native -msse4.2 -mpclmul -fsanitize=address,undefined -fno-sanitize=nonnull-attribute -fno-sanitize-recover=undefined -w -I$H -I$H/stub -I$F -I$R/lib/Lang"
N=6; grep -qE '^#define ROW_CACHE_SIZE ' "$F/UnverifiedRowCache.cpp" && sed -E "s/^#define ROW_CACHE_SIZE .*/#define ROW_CACHE_SIZE $N/" "$F/UnverifiedRowCache.cpp" >"$D/rowcache.cpp" || { N=262144; cp "$F/UnverifiedRowCache.cpp" "$D/rowcache.cpp"; }
RC="-DUSE_UNVERIFIED_ROW_CACHE -DROWCACHE -DRC_N=$N"
pids=()
run() { "$@" & pids+=($!); }
run $X -c "$H/main.cpp" -o "$D/main.o"
run $X -c "$H/sim.cpp" -o "$D/sim.o"
for v in app rc; do O=; [ $v = rc ] && O=$RC
  run $X $O -DSIM_REPLACE -include "$H/shim.h" -c "$F/Framework.cpp" -o "$D/fw-$v.o"
  run $X $O -include "$H/shim.h" -c "$F/BundleWrapper.cpp" -o "$D/bw-$v.o"
  run $X $O -c "$H/app.cpp" -o "$D/model-$v.o"
done
run $X -c "$F/MallocAccounting.cpp" -o "$D/ma.o"
run $X -c "$H/x01.cpp" -o "$D/x01.o"
run $X -c "$H/natives.cpp" -o "$D/natives.o"
run $X $RC -c "$D/rowcache.cpp" -o "$D/rowcache.o"
for p in "${pids[@]}"; do wait $p; done
$X -o "$D/app" "$D"/{main,sim,ma,fw-app,bw-app,model-app,x01,natives}.o
$X -o "$D/rc" "$D"/{main,sim,ma,fw-rc,bw-rc,model-rc,rowcache}.o
