#!/bin/bash
# Brings the Python package and the C++ backend of /repo up to date with its working tree
# (incrementally, in the git-ignored build folders the project's own build uses) and builds the
# scripted random device.  Usage: build.sh OUTDIR ; prints nothing on success.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
unset CXXFLAGS CFLAGS CPPFLAGS LDFLAGS MAKEFLAGS MAKELEVEL
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${1:?}
REPO=/repo
CPP=$REPO/c++
BUILD=$CPP/build
mkdir -p "$OUT" "$BUILD"
exec 9>"$BUILD/.kmcv.lock"; flock 9
LOG=$OUT/build.log; : >"$LOG"
die() { echo "BUILD FAILED: $1"; tail -40 "$LOG"; exit 2; }

ext=$CPP/externals
if ! { [ -f "$ext/obj/md5.o" ] && [ -f "$ext/include/externals/md5.h" ] && [ -d "$ext/include/cppunit" ] \
       && [ -f "$ext/lib/cppunit/lib/libcppunit.so" ]; }; then
    rm -rf "$ext"/src/cppunit-1.12.1 "$ext"/src/md5 "$ext"/include/cppunit "$ext"/include/externals/md5.h \
        "$ext"/lib/cppunit "$ext"/obj/md5.o "$ext"/zip/FORCE_UNPACK
    (cd "$ext" && CXX=g++ CC=gcc make) >>"$LOG" 2>&1 || die externals
fi

# Give every file whose content differs from that of the last build a new mtime.  The list of
# contents is the one the project's own build script keeps, so that the two can be mixed.
manifest=$BUILD/.manifest
(cd $CPP && find src custom unittest wrap CMakeLists.txt -type f ! -path src/mpiflag.h ! -path wrap/custom.i -print0 | sort -z | xargs -0 sha256sum) >"$manifest.new" || die manifest
if [ -f "$manifest" ]; then
    (cd $CPP && diff "$manifest" "$manifest.new" | sed -n 's/^> [0-9a-f]*  //p' | xargs -r -d '\n' touch -c)
else
    (cd $CPP && find src custom wrap -type f ! -path src/mpiflag.h ! -path wrap/custom.i -print0 | xargs -0 touch -c)
fi
mv "$manifest.new" "$manifest"
mkdir -p $BUILD/.kmcv_generated
for f in src/mpiflag.h wrap/custom.i; do
    rm -f $BUILD/.kmcv_generated/${f##*/}
    [ -f $CPP/$f ] && cp -p $CPP/$f $BUILD/.kmcv_generated/
done
cmake -Wno-dev -S $CPP -B $BUILD -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ \
    -DSWIG_USE_SWIG_DEPENDENCIES=TRUE \
    -DCMAKE_CXX_FLAGS="-isystem /usr/include/python3.12 -Wno-dangling-reference" >>"$LOG" 2>&1 || die cmake
for f in src/mpiflag.h wrap/custom.i; do
    k=$BUILD/.kmcv_generated/${f##*/}
    [ -f $k ] && cmp -s $k $CPP/$f && touch -r $k $CPP/$f
done
make --no-print-directory -C $BUILD -j"$(nproc)" all >>"$LOG" 2>&1 || die make
make --no-print-directory -C $BUILD install >>"$LOG" 2>&1 || die install
g++ -O1 -shared -fPIC -o "$OUT/device.so" "$HERE/device.cpp" >>"$LOG" 2>&1 || die device
g++ -O1 -o "$OUT/streams" "$HERE/streams.cpp" >>"$LOG" 2>&1 || die streams
exit 0
