#!/bin/bash
# build.sh OUTDIR PROPERTY...: builds the simulator binaries from /repo's current tree.
set -u
HERE=$(cd "$(dirname "$0")" && pwd); OUT=$1; shift
REPO=${REPO:-/repo}
mkdir -p "$OUT"
INST="-std=c++17 -O1 -g0 -DNDEBUG -w -fsanitize-coverage=trace-pc -fno-pie -I$REPO -I$HERE -include $HERE/inject.hh"
PLAIN="-std=c++17 -O2 -g0 -w -fno-pie -I$HERE"
{
cat <<MK
OUT=$OUT
HERE=$HERE
REPO=$REPO
CXX=g++
all: $(for p in "$@"; do echo "$OUT/sim_$p"; done)
\$(OUT)/core.o: \$(HERE)/core.cc \$(HERE)/sim.hh
	\$(CXX) $PLAIN -c \$< -o \$@
\$(OUT)/model.o: \$(HERE)/model.cc \$(HERE)/model.hh \$(HERE)/sim.hh
	\$(CXX) $PLAIN -c \$< -o \$@
\$(OUT)/lib_%.o: \$(REPO)/clpoly/%.cc
	\$(CXX) $INST -MMD -MP -c \$< -o \$@
\$(OUT)/%.o: \$(HERE)/%.cc
	\$(CXX) $INST -MMD -MP -c \$< -o \$@
-include \$(wildcard \$(OUT)/*.d)
LIBO=$(for f in "$REPO"/clpoly/*.cc; do b=$(basename "$f" .cc); [ "$b" = interval ] || echo "$OUT/lib_$b.o"; done | tr '\n' ' ')
MK
for p in "$@"; do
  OBJ="$OUT/scn_$p.o"
  for x in $(sed -n 's/^\/\/ *OBJS: *//p' "$HERE/scn_$p.cc"); do OBJ="$OBJ $OUT/$x.o"; done
  printf '%s/sim_%s: %s $(LIBO) $(OUT)/core.o $(OUT)/model.o\n\t$(CXX) -no-pie -o $@ $^ -lgmpxx -lgmp -ldl -pthread\n' "$OUT" "$p" "$OBJ"
done
} > "$OUT/Makefile.$1"
exec make -s -j"$(nproc)" -f "$OUT/Makefile.$1" all
