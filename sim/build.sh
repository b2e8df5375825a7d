#!/bin/bash
# Builds the simulator from /repo's current working tree into $1 (default /verif/build).
# usage: build.sh OUTDIR [asan]
set -e
unset MAKEFLAGS MFLAGS MAKELEVEL CFLAGS CPPFLAGS LDFLAGS LIBS
export LC_ALL=C
here=$(cd "$(dirname "$0")" && pwd)
REPO=${EDSIM_REPO:-/repo}
OUT=$(realpath -m "${1:-$here/../build}"); FLAVOR=${2:-plain}
mkdir -p "$OUT/$FLAVOR"; cd "$OUT/$FLAVOR"
exec 9>"$OUT/$FLAVOR/.lock"; flock 9

# Generated headers: the repository's own build products if present, else a private configure run.
GEN=$REPO
if [ ! -f "$REPO/config.h" ] || [ ! -f "$REPO/lib/regex.h" ]; then
  GEN=$OUT/gentree
  if [ ! -f "$GEN/config.h" ]; then
    rm -rf "$OUT/gentree"; mkdir -p "$OUT/gentree"; cp -a "$REPO/." "$OUT/gentree/"
    (cd "$OUT/gentree" && { [ -x configure ] || ./autogen.sh --silent; } && \
      ./configure --enable-all-extensions --with-included-regex CC=gcc CXX=g++ && make config.h && make -C lib -j8 all) >gen.log 2>&1
  fi
fi
SAN=""; EXTRA=""
if [ "$FLAVOR" = asan ]; then SAN="-fsanitize=address -fno-omit-frame-pointer ${EDSIM_SAN:-}"; EXTRA="-DEDSIM_ASAN"; fi
# ed.h supports any 256 <= BUFSIZ: with the smallest, buffers grow often and their ends are reached often.
SMALL=""
if [ "$FLAVOR" = asan ]; then
  printf '#include <stdio.h>\n#undef BUFSIZ\n#define BUFSIZ 256\n' > small.h; SMALL="-include $GEN/config.h -include $PWD/small.h"
fi
COMMON="-g -O1 -DHAVE_CONFIG_H -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -DRE_ENABLE_I18N=1 -w"
EDINC="-I$GEN -I$REPO/src -I$REPO/lib -I$GEN/lib -I$REPO/include -I$GEN/include"
FUNCS="malloc calloc realloc free strdup strndup fopen fdopen freopen fclose fileno fseek fseeko ftell ftello rewind fread fwrite fflush getc putc fputs popen pclose
 open creat close read write lseek ftruncate truncate fsync stat fstat lstat access unlink rename mkstemp flock fcntl dup dup2 pipe fork vfork waitpid wait kill execl execv
 system _exit exit abort sigaction signal getenv getpass isatty ioctl arc4random_buf arc4random getrandom getentropy pthread_mutex_lock pthread_mutex_unlock glob globfree sleep time"
ALIASES="fopen64:fopen freopen64:freopen open64:open stat64:stat fstat64:fstat lseek64:lseek ftruncate64:ftruncate mkstemp64:mkstemp fseeko64:fseeko
 ftello64:ftello fcntl64:fcntl glob64:glob globfree64:globfree truncate64:truncate creat64:creat lstat64:stat lstat:stat secure_getenv:getenv fdatasync:fsync
 _IO_getc:getc fgetc:getc _IO_putc:putc fputc:putc _Exit:_exit __strdup:strdup"
: > redef.txt; DEFSYM=""
for f in $FUNCS; do [ "$f" = lstat ] || echo "$f sim_$f"; done >> redef.txt
for f in $ALIASES; do echo "${f%%:*} sim_${f%%:*}" >> redef.txt; DEFSYM="$DEFSYM -Wl,--defsym,sim_${f%%:*}=sim_${f##*:}"; done
echo "main ed_main" >> redef.txt
sort -u redef.txt -o redef.txt
mkdir -p o
pids=()
i=0
comp() { # src obj extra-flags
  ( clang $COMMON $3 $EDINC -DLOCALEDIR='"/usr/local/share/locale"' -c "$1" -o "o/$2.raw.o" && objcopy --redefine-syms=redef.txt "o/$2.raw.o" "o/$2.o" ) &
  pids+=($!)
}
rm -f o/*.o
for s in "$REPO"/src/*.c; do comp "$s" "ed_$(basename "$s" .c)" "-fsanitize-coverage=trace-pc-guard $SAN $SMALL"; done
for s in regex btowc hard-locale localcharset mbrtowc mbszero setlocale_null setlocale_null-unlocked; do
  [ -f "$REPO/lib/$s.c" ] && comp "$REPO/lib/$s.c" "lib_$s" "-fsanitize-coverage=trace-pc-guard $SAN"
done
for s in malloc/dynarray-skeleton malloc/dynarray_resize malloc/dynarray_finalize malloc/dynarray_emplace_enlarge malloc/dynarray_at_failure malloc/dynarray_resize_clear glthread/lock glthread/threadlib; do
  case $s in *skeleton) continue;; esac
  [ -f "$REPO/lib/$s.c" ] && comp "$REPO/lib/$s.c" "lib_$(basename $s)" "$SAN"
done
# the simulator itself (cached on its own sources)
for s in "$here"/*.cc; do
  b=sim_$(basename "$s" .cc)
  h=$(cat "$s" "$here"/*.h | md5sum | cut -c1-16)
  if [ ! -f "so/$b.$h.o" ]; then mkdir -p so; rm -f "so/$b".*.o; ( clang++ -std=c++17 -g -O2 -w $EXTRA -I"$here" -c "$s" -o "so/$b.$h.o.tmp" && mv "so/$b.$h.o.tmp" "so/$b.$h.o" ) & pids+=($!); fi
done
for p in "${pids[@]}"; do wait "$p" || { echo "edsim build failed" >&2; exit 3; }; done
rm -f o/*.raw.o
ld -r o/*.o -o edall.o
objcopy --keep-global-symbol=ed_main edall.o edobj.o
clang++ $SAN $DEFSYM -o edsim.new edobj.o so/*.o -lssl -lcrypto -lpthread && mv edsim.new edsim
