#!/bin/bash
# dev helper: the real-transport binary
set -e
cd ${B:-/verif/build/asan}
ninja brski > ninja.log 2>&1 || { tail -20 ninja.log; exit 1; }
SAN="-fsanitize=address,undefined -fno-sanitize=nonnull-attribute,alignment,vptr -fno-sanitize-recover=all -fno-omit-frame-pointer"
mkdir -p h
for n in ${H:-h_https}; do
  f=/verif/harness/$n.cpp; o=h/$n.o
  if [ ! -f $o -o $f -nt $o -o /verif/harness/tls.hpp -nt $o -o /verif/harness/estate.hpp -nt $o ]; then
  echo "g++ -std=c++17 -g1 -O1 -w $SAN -I/verif -I${R:-/repo}/src -c $f -o $o"; fi
done | xargs -P8 -I{} sh -c '{}'
g++ $SAN -rdynamic -o h/pbtr $(for n in ${H:-h_https}; do echo h/$n.o; done) /verif/build/asan/h/{env,pbt,main,sysctl}.o -Wl,--allow-multiple-definition -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free -Wl,--start-group $(find src -name '*.o' | grep -v 'brski.cpp.o') -Wl,--end-group -lssl -lcrypto -lminIni -lpthread
