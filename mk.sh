#!/bin/bash
# dev helper: incremental build of the main harness
set -e
cd /verif/build/asan
ninja brski > ninja.log 2>&1 || { tail -20 ninja.log; exit 1; }
SAN="-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,alignment,vptr -fno-sanitize-recover=all -fno-omit-frame-pointer"
mkdir -p h
for f in /verif/engine/*.cpp /verif/harness/h_*.cpp; do
  case $f in *h_https*) continue;; esac
  o=h/$(basename $f .cpp).o
  if [ ! -f $o -o $f -nt $o -o /verif/engine/env.hpp -nt $o -o /verif/harness/req.hpp -nt $o -o /verif/harness/estate.hpp -nt $o -o /verif/engine/net.hpp -nt $o -o /verif/engine/pbt.hpp -nt $o ]; then
  echo "g++ -std=c++17 -g -O1 -w $SAN -I/verif -I/repo/src -c $f -o $o"
  fi
done | xargs -P8 -I{} sh -c '{}'
g++ $SAN -rdynamic -o h/pbt $(ls h/*.o | grep -v h_https) -Wl,--allow-multiple-definition -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free -Wl,--start-group $(find src -name '*.o' | grep -v 'brski.cpp.o\|httplib_wrapper') -Wl,--end-group -lssl -lcrypto -lminIni -lpthread
