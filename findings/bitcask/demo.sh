# run in /repo: demo.sh overlap|damaged|fdcache; exit 1 if the defect shows
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
stubs=$here/../../stubs
set -e
clang++-20 -std=gnu++23 -D_GNU_SOURCE -DNDEBUG -O1 -g -w -fno-access-control -include "$stubs/pre.h" -I"$stubs" -I"$PWD" "$here/demo.cpp" \
    $(ls "$PWD"/bitcask/src/*.cpp | grep -v '/hint_file.cpp\|/bitcask.cpp') "$PWD/kio/core/worker.cpp" -luring -pthread -o "$out/demo"
timeout 60 "$out/demo" "$1" "$out/db"
