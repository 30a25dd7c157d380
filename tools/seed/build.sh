# Sourced by demo.sh: builds demo.cpp against the objects of /repo's build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export DEMO_DIR="$T/data"; mkdir "$DEMO_DIR"
SKIP=${SKIP:-nothing-is-skipped}
OBJS=$(find /repo/_build/src -name '*.o' ! -name 'brski.cpp.o' ! -name "$SKIP")
g++ -std=c++17 -w -g -I/repo/src -I"$D" -o "$T/demo" "$D/demo.cpp" $OBJS \
  -lssl -lcrypto -lminIni -lpthread || exit 97
