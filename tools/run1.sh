#!/bin/bash
# Runs one entry by hand: run1.sh ENTRY [PARAMS] [engine options]
cd "$(dirname "$0")/.."
e=$1; p=$2; shift; shift
exec timeout ${T:-600} build/engine/release/symir build/sxh.bc $e ${p:+--params $p} "$@"
