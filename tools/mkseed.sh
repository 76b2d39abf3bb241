#!/bin/bash
# mkseed.sh ID LAYERS(U|UC|UCE): lays the common demo files into /verif/seeded/ID (demo.cc, meta.json and patch.diff are written by hand)
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; mkdir -p "$S"
cp "$V/tools/demo/demo.sh" "$S/"; cp -r "$V/stubs" "$S/"; [ "$2" != U ] && cp "$V/harness/qharness.h" "$S/"; cp "$V/harness/vmc.h" "$S/"
case $2 in U) D="CPPQEDutils";; UC) D="CPPQEDutils CPPQEDcore/{high,composites,structure,quantumdata,quantumoperator,quantumtrajectory}";; UCE) D="CPPQEDutils CPPQEDcore/{high,composites,structure,quantumdata,quantumoperator,quantumtrajectory} CPPQEDelements/{frees,interactions,utils}";; esac
echo "DIRS=\"$(eval echo $D)\"" > "$S/layers"
