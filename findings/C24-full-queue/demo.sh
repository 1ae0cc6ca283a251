set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
clang++-20 -std=gnu++23 -D_GNU_SOURCE -DNDEBUG -O1 -g -w -fno-access-control -include "$here/shim.h" -I"$PWD" "$here/demo.cpp" "$PWD/kio/core/worker.cpp" -luring -pthread -o "$out/demo"
timeout 100 "$out/demo"
