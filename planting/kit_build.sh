# Sourced by demo.sh: builds /repo's sources (the working directory) and a demo.
# usage: build_demo <demo.cc> <output> [extra flags]; build_tool <tool> <output>
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
FLAGS="-std=c++17 -O1 -DNDEBUG -w -I$R -I$D -I/usr/include/casacore"
LIBS="-lcasa_tables -lcasa_casa -lgsl -lgslcblas -lpthread"
compile_all() { # the library's objects into $T/obj
  mkdir -p "$T/obj"
  local f
  for f in "$R"/*.cc "$D"/register.cc; do
    case "$f" in */dscompress.cc|*/decompress.cc) continue;; esac
    g++ $FLAGS $1 -c "$f" -o "$T/obj/$(basename "$f" .cc).o" || touch "$T/fail" &
  done
  wait
  [ ! -e "$T/fail" ] || { echo "build failed"; exit 99; }
}
build_demo() {
  compile_all "$3"
  g++ $FLAGS $3 "$D/$1" "$T"/obj/*.o -o "$2" $LIBS || exit 99
}
build_tool() {
  [ -d "$T/obj" ] || compile_all
  g++ $FLAGS "$R/$1.cc" "$T"/obj/*.o -o "$2" $LIBS || exit 99
}
build_codec() { # header-only and codec classes, without casacore
  g++ $FLAGS $3 "$D/$1" "$R"/stochasticencoder.cc "$R"/aftimeblockencoder.cc "$R"/rftimeblockencoder.cc "$R"/rowtimeblockencoder.cc -o "$2" -lgsl -lgslcblas -lpthread || exit 99
}
