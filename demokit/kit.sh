# sourced by demo.sh, which sets HERE (its own directory) and runs in the repository
KIT="$HERE/kit"
WORK="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$WORK"' EXIT
CXX="${CXX:-g++}"
FLAGS="-std=c++17 -O0 -w -fno-pie -ffunction-sections -fdata-sections -I$KIT/include -I$PWD -I$PWD/src -I/usr/include/eigen3"

# build OUT SOURCE...  : repository sources and demo sources, linked with the kit
build() {
    out="$1"; shift
    objs=""
    i=0
    for s in "$@" "$KIT/impl.cpp"; do
        i=$((i + 1))
        $CXX $FLAGS -c "$s" -o "$WORK/o$i.o" &
        objs="$objs $WORK/o$i.o"
    done
    wait
    for o in $objs; do [ -f "$o" ] || { echo "demo: does not compile"; exit 99; }; done
    $CXX -no-pie -Wl,--gc-sections -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all $objs -o "$WORK/$out" || exit 98
}
