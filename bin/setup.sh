#!/bin/bash
# compiles the TLC evaluations of BigNum.tla and checks them against their TLA+ definitions
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/build"
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$V/build" "$V/spec/java/BigNumOverrides.java"
"$V/bin/tlc.sh" BigNumCheck.tla BigNumCheck.cfg > "$V/build/bignumcheck.log" 2>&1 || { tail -20 "$V/build/bignumcheck.log"; exit 1; }
echo "setup: BigNum overrides agree with their definitions"
