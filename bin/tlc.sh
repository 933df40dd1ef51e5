#!/bin/bash
# tlc.sh SPEC CFG [tlc options]: TLC with the big-number operators evaluated by java/BigNumOverrides.java
V=$(cd "$(dirname "$0")/.." && pwd)
spec=$1; cfg=$2; shift 2
meta=$(mktemp -d /tmp/vtlc.XXXXXX)
T=/opt/veriftools/tla
cd "$V/spec"
java -Xss64m -Xmx${TLC_HEAP:-4g} -XX:+UseParallelGC -XX:ParallelGCThreads=2 \
  -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BigNumOverrides \
  -cp "$V/build:$T/tla2tools.jar:$T/CommunityModules-deps.jar" \
  tlc2.TLC -metadir "$meta" -noGenerateSpecTE -config "$cfg" "$@" "$spec"
rc=$?
rm -rf "$meta"
exit $rc
