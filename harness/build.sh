#!/bin/bash
# Builds the conformance driver from /repo's current working tree into $1 (default /verif/build/drv).
# Everything that goes into the binary comes from the tree: all C sources found under source/.
set -e
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$HERE/../build/drv}
mkdir -p "$OUT/inc/osl" "$OUT/obj"
exec 9>"$OUT/lock"; flock 9
sed 's/@PACKAGE_VERSION@/0.0/' "$REPO/include/osl/scop.h.in" > "$OUT/inc/osl/scop.h.new"
cmp -s "$OUT/inc/osl/scop.h.new" "$OUT/inc/osl/scop.h" || cp "$OUT/inc/osl/scop.h.new" "$OUT/inc/osl/scop.h"
SUM=$( (cat "$HERE"/*.cpp "$HERE"/*.hpp "$HERE"/build.sh; cd "$REPO" && find source include -type f \( -name '*.c' -o -name '*.h' -o -name '*.in' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum )
if [ -x "$OUT/driver" ] && [ "$(cat "$OUT/sum" 2>/dev/null)" = "$SUM" ]; then exit 0; fi
rm -f "$OUT/driver" "$OUT/sum"
SAN="-fsanitize=address -fno-omit-frame-pointer"
CF="-g1 -O1 -w -DOSL_GMP_IS_HERE -I$OUT/inc -I$REPO/include $SAN"
objs=()
cmds=()
for c in $(cd "$REPO" && find source -name '*.c' | LC_ALL=C sort); do
  o="$OUT/obj/$(echo "$c" | tr '/' '_').o"
  objs+=("$o")
  cmds+=("gcc -std=gnu11 $CF -c $REPO/$c -o $o")
done
d="$OUT/obj/driver.o"
objs+=("$d")
( [ "$d" -nt "$HERE/driver.cpp" ] && [ "$d" -nt "$HERE/values.hpp" ] && [ "$d" -nt "$HERE/json.hpp" ] && [ "$(cat "$OUT/hsum" 2>/dev/null)" = "$(cat "$OUT"/inc/osl/scop.h "$REPO"/include/osl/*.h "$REPO"/include/osl/extensions/*.h "$HERE"/build.sh | sha256sum)" ] ) || \
  cmds+=("g++ -std=c++17 $CF -O1 -g0 -fno-var-tracking -c $HERE/driver.cpp -o $d")
printf '%s\n' "${cmds[@]}" | xargs -P "$(nproc)" -I{} sh -c '{} || exit 255'
cat "$OUT"/inc/osl/scop.h "$REPO"/include/osl/*.h "$REPO"/include/osl/extensions/*.h "$HERE"/build.sh | sha256sum > "$OUT/hsum"
g++ $SAN -o "$OUT/driver.new" "${objs[@]}" -lgmp -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup,--wrap=__strdup,--wrap=strndup
mv "$OUT/driver.new" "$OUT/driver"
echo "$SUM" > "$OUT/sum"
