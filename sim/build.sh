#!/bin/bash
# build.sh VARIANT...: builds /verif/build/VARIANT/dsim from /repo's working tree and /verif/sim.
set -eu
SIM=$(cd "$(dirname "$0")" && pwd)
ROOT=$(dirname "$SIM")
REPO=${DSIM_REPO:-/repo}
OUT=${DSIM_BUILD:-$ROOT/build}
CC=clang
CXX=clang++
SAN="-fsanitize=address -fno-omit-frame-pointer"
OPT="-O1 -g1"
RSRC="duckLisp.c parser.c parenthesis-inferrer.c emitters.c generators.c assembler.c duckVM.c DuckLib/core.c DuckLib/memory.c DuckLib/array.c DuckLib/string.c DuckLib/trie.c DuckLib/sort.c"
SSRC=${DSIM_SSRC:-$(cd "$SIM" && ls *.cpp | grep -v '^probe.cpp$')}
jobs_file=$(mktemp)
trap 'rm -f "$jobs_file"' EXIT
EXTRA=${DSIM_EXTRA:-}
for v in "$@"; do
	case $v in
	std)    DEF="-DUSE_STDLIB" ;;
	fast)   DEF="-DUSE_STDLIB" ;;  # like std, without the sanitizer
	noopt)  DEF="-DUSE_STDLIB -DNO_OPTIMIZE_JUMPS -DNO_OPTIMIZE_PUSHPOPS" ;;
	inf)    DEF="-DUSE_STDLIB -DUSE_PARENTHESIS_INFERENCE" ;;
	pool)   DEF="-DUSE_DUCKLIB_MALLOC" ;;
	poolinf) DEF="-DUSE_DUCKLIB_MALLOC -DUSE_PARENTHESIS_INFERENCE" ;;
	datalog) DEF="-DUSE_STDLIB -DUSE_DATALOGGING" ;;
	*) echo "unknown variant $v" >&2; exit 2 ;;
	esac
	D=$OUT/$v
	mkdir -p "$D"
	VSAN=$SAN VOPT=$OPT
	[ "$v" = fast ] && VSAN="-DDSIM_NOSAN" VOPT="-O2 -g1 -fwrapv -fno-strict-aliasing"
	HD="$DEF -DDUCKLISP_SIM -DDSIM_VARIANT=$v"
	case $v in pool*) HD="$HD -DDSIM_POOL" ;; esac
	for f in $RSRC; do
		o=$D/$(echo "$f" | tr / _).o
		X=""; S=$VSAN
		case $v in
		pool*)
			# The pool allocator itself may touch bytes no block owns, and copies blocks with its own core.c.
			if [ "$f" = DuckLib/memory.c ]; then
				S=""; X="-Ddl_memcopy=raw_dl_memcopy -Ddl_memcopy_noOverlap=raw_dl_memcopy_noOverlap"
				echo "$CC -std=gnu99 $OPT -fexceptions -w $DEF -DEXPORTING_DUCKLIB -I$REPO -fno-builtin -c $REPO/DuckLib/core.c -o $D/raw_core.o && objcopy --prefix-symbols=raw_ $D/raw_core.o" >> "$jobs_file"
			else X="-Ddl_malloc=dsim_dl_malloc -Ddl_free=dsim_dl_free -Ddl_realloc=dsim_dl_realloc"; fi ;;
		*) X="-Dmalloc=dsim_malloc -Dfree=dsim_free -Drealloc=dsim_realloc"
		   if [ "$f" = DuckLib/memory.c ]; then X="$X -include stdlib.h -include $SIM/memseam.h"; fi ;;
		esac
		echo "$CC -std=gnu99 $VOPT $S -fexceptions -w $DEF -DDUCKLISP_SIM $X -DEXPORTING_DUCKLIB -I$REPO -c $REPO/$f -o $o" >> "$jobs_file"
	done
	for f in $SSRC; do
		o=$D/sim_$f.o
		echo "$CXX -std=c++17 $VOPT $VSAN -w $HD -I$REPO -I$SIM -c $SIM/$f -o $o" >> "$jobs_file"
	done
done
xargs -P "$(nproc)" -I{} sh -c '{}' < "$jobs_file"
for v in "$@"; do
	D=$OUT/$v
	O=""
	case $v in pool*) O="$D/raw_core.o" ;; esac
	for f in $RSRC; do O="$O $D/$(echo "$f" | tr / _).o"; done
	for f in $SSRC; do O="$O $D/sim_$f.o"; done
	VSAN=$SAN
	[ "$v" = fast ] && VSAN=""
	$CXX $VSAN -o "$D/${DSIM_EXE:-dsim}" $O -lm
done
