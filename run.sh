#!/bin/bash
# bash run.sh <PROPERTY> [quick|thorough] [--one <space> <case>] : builds the
# checker from /repo's current tree and runs one property's exhaustive check.
set -u
cd "$(dirname "$0")"
VERIF=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
PROP=$1; shift
TIER=quick
ARGS=()
while [ $# -gt 0 ]; do
  case "$1" in
    quick|thorough) TIER=$1 ;;
    --tier) shift; TIER=$1 ;;
    --one) ARGS+=(-one -space "$2" -case "$3"); shift 2 ;;
    --budget) shift; ARGS+=(-budget "$1") ;;
    *) echo "bad argument $1"; exit 3 ;;
  esac
  shift
done
TMP=$(mktemp -d /tmp/mc.XXXXXX) || exit 3
trap 'case "$TMP" in /tmp/mc.??????) rm -rf "$TMP";; esac' EXIT
export VERIF_TMP=$TMP
cd mc || exit 3
case "$PROP" in
C08|C11) # these run on a rebuild with scheduling points, see cmd/instr
  (go run ./cmd/instr -repo /repo -out "$TMP/overlay" -shim shim &&
   go build -trimpath -tags sched -overlay "$TMP/overlay/overlay.json" -ldflags=-checklinkname=0 -o "$TMP/mc" ./cmd/mcs) ||
    { echo "harness does not build against /repo"; exit 3; }
  if [ "$PROP" = C11 ]; then
    go build -race -trimpath -tags sched -overlay "$TMP/overlay/overlay.json" -ldflags=-checklinkname=0 -o "$TMP/mcs-race" ./cmd/mcs ||
      { echo "harness does not build against /repo"; exit 3; }
  fi ;;
C17) # counts statements
  PKGS=.,$(cd /repo && find internal -name '*.go' ! -name '*_test.go' ! -path '*/testdata/*' -printf '%h\n' | sort -u | grep -vE '^internal/(hack|testutils)' | paste -sd,)
  (go run ./cmd/instr -repo /repo -out "$TMP/overlay" -shim shim -pkgs "$PKGS" &&
   go build -trimpath -tags sched -overlay "$TMP/overlay/overlay.json" -ldflags=-checklinkname=0 -o "$TMP/mc" ./cmd/mcs) ||
    { echo "harness does not build against /repo"; exit 3; } ;;
G15) # the same for the generator; the parser runtime gets scheduling points at its locks in one of the builds
  PKGS=$(cd /repo && find prutalgen/pkg prutalgen/internal -name '*.go' ! -name '*_test.go' ! -path '*/testdata/*' -printf '%h\n' | sort -u | grep -vxE 'prutalgen/internal/(antlr|parser)' | paste -sd,)
  B="go build -trimpath -tags sched -ldflags=-checklinkname=0"
  (go build -o "$TMP/instr" ./cmd/instr &&
   "$TMP/instr" -repo /repo -out "$TMP/overlay" -shim shim -pkgs "$PKGS" &&
   "$TMP/instr" -repo /repo -out "$TMP/first" -shim shim -pkgs "$PKGS" -locks prutalgen/internal/antlr,prutalgen/internal/parser &&
   $B -overlay "$TMP/overlay/overlay.json" -o "$TMP/mc" ./cmd/mcs &&
   $B -race -overlay "$TMP/overlay/overlay.json" -o "$TMP/mcs-race" ./cmd/mcs &&
   $B -race -overlay "$TMP/first/overlay.json" -o "$TMP/mcs-first" ./cmd/mcs) ||
    { echo "harness does not build against /repo"; exit 3; } ;;
G*|C15) # these compare prutalgen with protoc and protoc-gen-go, see oracle/ and gen/
  (g++ -O1 -o "$TMP/oracle" oracle/protoc_oracle.cc -lprotoc -lprotobuf &
   go list -export -deps -f '{{.ImportPath}} {{.Export}}' $(cat gen/deps.txt) > "$TMP/exports" &&
   { if [ "$PROP" = G07 ]; then bash maporder.sh "$TMP"; else go build -trimpath -o "$TMP/mc" ./cmd/mcg; fi; } &&
   wait && [ -x "$TMP/oracle" ]) ||
    { echo "harness does not build against /repo"; exit 3; }
  case "$PROP" in G03|G10|C15) # these run code generated from the current tree;
    # a world that does not generate or type check is registered as a violation
    ("$TMP/mc" -emit "$TMP/live" -tier "$TIER" &&
     go build -trimpath -overlay "$TMP/live/overlay.json" -o "$TMP/mclive" ./cmd/mclive && mv "$TMP/mclive" "$TMP/mc") ||
      { echo "harness does not build against /repo"; exit 3; } ;;
  G11) go build -trimpath -o "$TMP/prutalgen" github.com/cloudwego/prutal/prutalgen ||
      { echo "harness does not build against /repo"; exit 3; } ;;
  esac ;;
*) go build -trimpath -o "$TMP/mc" ./cmd/mc || { echo "harness does not build against /repo"; exit 3; } ;;
esac
"$TMP/mc" -prop "$PROP" -tier "$TIER" -verif "$VERIF" "${ARGS[@]}"
