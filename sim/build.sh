#!/bin/bash
# Builds the simulator from /repo's current working tree.  Prints the build dir.
# Content-hashed: an unchanged tree is not rebuilt.
set -e
here=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
BROOT=${VERIF_BUILD:-$here/../build}
mkdir -p "$BROOT"
cpu=$(grep -m1 '^flags' /proc/cpuinfo | tr ' ' '\n' | sort -u | grep -E '^(avx2|avx512f|avx512cd|avx512vl|avx512bw|avx512dq|fma|bmi1|bmi2|adx|abm|rdrand|avx512ifma|avx512vbmi)$' | tr '\n' ' ')
hash=$( (cd "$REPO" && find src -type f \( -name '*.c' -o -name '*.h' \) -print0 | sort -z | xargs -0 sha256sum; cd "$here" && sha256sum *.cc *.h *.syms build.sh; echo "$cpu"; gcc --version | head -1) | sha256sum | cut -c1-20)
B="$BROOT/$hash"
exec 9>"$BROOT/lock"; flock 9
if [ -f "$B/ok" ]; then echo "$B"; exit 0; fi
rm -rf "$B.tmp"; mkdir -p "$B.tmp"; cd "$B.tmp"
SIMD=""; D=""
has() { case " $cpu" in *" $1 "*) return 0;; esac; return 1; }
SSE="-mmmx -msse -msse2 -msse3 -mssse3 -msse4.1 -msse4.2 -mavx"
if has avx2; then SIMD="$SSE -mavx2 -mfma"; D="#define HAVE_AVX2 1"; fi
if has avx512f; then for f in f cd vl bw dq; do has avx512$f && SIMD="$SIMD -mavx512$f"; done; D="$D
#define HAVE_AVX512_F 1"; fi
mkcfg() { mkdir -p "$1"; cat > "$1/config.h" <<CFG
#define VERSION "sim"
#define PACKAGE_VERSION "sim"
#define HAVE_STDINT_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_UNISTD_H 1
$2
CFG
}
mkcfg native "$D"; mkcfg scalar ""
fail() { touch "$B.tmp/fail"; }
comp() { # variant unit flags
  v=$1; u=$2; shift 2
  gcc -g1 -O2 -w "$@" -fopenmp -fsanitize=thread -DHAVE_CONFIG_H -I$v -I"$REPO/src/neogb" -I"$REPO/src/msolve" -I"$REPO/src/usolve" -I"$REPO/src/fglm" -c "$REPO/src/$u.c" -o $v/raw_$(basename $u).o 2> $v/$(basename $u).log \
   && objcopy --redefine-syms="$here/redefine.syms" $v/raw_$(basename $u).o $v/t_$(basename $u).o && rm $v/raw_$(basename $u).o || fail
}
for u in msolve/main neogb/gb fglm/fglm_core usolve/usolve; do comp native $u $SIMD & done
for u in msolve/main neogb/gb fglm/fglm_core usolve/usolve; do comp scalar $u & done
for c in "$here"/*.cc; do ( o=$(basename $c .cc).o
  x=""; case $o in api.o) x="-I$REPO/src";; esac
  g++ -std=c++17 -g1 -O2 -w -U_FORTIFY_SOURCE $x -c $c -o $o 2> $o.log || fail ) & done
wait
if [ -f fail ]; then cat *.log */*.log >&2; echo "BUILD-FAILED" >&2; exit 4; fi
for v in native scalar; do
  g++ -no-pie -o msim-$v $v/t_*.o *.o -lflint -lmpfr -lgmp -lm -lpthread 2> link-$v.log || { cat link-$v.log >&2; echo "BUILD-FAILED" >&2; exit 4; }
done
rm -f native/*.o scalar/*.o *.o
cd ..
# keep only a few old builds
ls -dt */ 2>/dev/null | tail -n +4 | while read d; do rm -rf "$BROOT/$d"; done
rm -rf "$B"; mv "$B.tmp" "$B"; touch "$B/ok"
echo "$B"
