#!/bin/bash
# Compiles demo.cc together with the repository's sources (working tree = current directory) in a scratch directory and runs it there.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf -- "$T"' EXIT
. "$D/layers"
INC="-I$D -I$D/stubs"; for d in CPPQEDutils CPPQEDcore CPPQEDcore/{high,composites,structure,quantumdata,quantumoperator,quantumtrajectory} CPPQEDelements/{frees,interactions,utils}; do INC="$INC -I$R/$d"; done
FLAGS="-O1 -DNDEBUG -std=c++20 -w -DBZ_HAVE_BOOST_SERIALIZATION -DCPPQED_HAS_GSL -include boost/preprocessor/iteration/iterate.hpp $INC -isystem /usr/include/eigen3"
L="$D/demo.cc"; for d in $DIRS; do for f in "$R"/$d/*.cc; do case "$f" in */Version.cc|*/Transformation.cc) ;; *) L="$L $f";; esac; done; done
if ! printf '%s\n' $L | xargs -P 8 -I{} sh -c 'g++ '"$FLAGS"' -c "$1" -o "'"$T"'/$(echo "$1" | md5sum | cut -c1-8)-$(basename "$1").o"' _ {} ; then echo "demo does not build"; exit 2; fi
g++ -o "$T/demo" "$T"/*.o -Wl,-z,muldefs -lblitz -lboost_serialization -lboost_iostreams -lgsl -lgslcblas -lpthread || exit 2
mkdir "$T/run"; cd "$T/run"; timeout 120 "$T/demo"
