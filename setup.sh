#!/bin/bash
# Builds the checkers once, to warm the build cache; every check rebuilds it from /repo's tree.
cd "$(dirname "$0")/mc" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
TMP=$(mktemp -d /tmp/mc.XXXXXX) || exit 1
trap 'case "$TMP" in /tmp/mc.??????) rm -rf "$TMP";; esac' EXIT
go build -trimpath -o "$TMP/mc" ./cmd/mc || exit 1
go run ./cmd/instr -repo /repo -out "$TMP/overlay" -shim shim || exit 1
go build -trimpath -tags sched -overlay "$TMP/overlay/overlay.json" -ldflags=-checklinkname=0 -o "$TMP/mcs" ./cmd/mcs || exit 1
go run ./cmd/instr -repo /repo -out "$TMP/steps" -shim shim -pkgs ".,$(cd /repo && find internal -name '*.go' ! -name '*_test.go' ! -path '*/testdata/*' -printf '%h\n' | sort -u | grep -vE '^internal/(hack|testutils)' | paste -sd,)" || exit 1 # C17
go build -trimpath -tags sched -overlay "$TMP/steps/overlay.json" -ldflags=-checklinkname=0 -o "$TMP/mcs" ./cmd/mcs || exit 1
go build -race -trimpath -tags sched -overlay "$TMP/overlay/overlay.json" -ldflags=-checklinkname=0 -o "$TMP/mcs" ./cmd/mcs || exit 1
PKGS=$(cd /repo && find prutalgen/pkg prutalgen/internal -name '*.go' ! -name '*_test.go' ! -path '*/testdata/*' -printf '%h\n' | sort -u | grep -vxE 'prutalgen/internal/(antlr|parser)' | paste -sd,)
go run ./cmd/instr -repo /repo -out "$TMP/first" -shim shim -pkgs "$PKGS" -locks prutalgen/internal/antlr,prutalgen/internal/parser || exit 1
go build -race -trimpath -tags sched -overlay "$TMP/first/overlay.json" -ldflags=-checklinkname=0 -o "$TMP/mcs" ./cmd/mcs || exit 1
go build -trimpath -o "$TMP/mcg" ./cmd/mcg || exit 1
go build -trimpath -o "$TMP/prutalgen" github.com/cloudwego/prutal/prutalgen || exit 1
go list -export -deps -f '{{.ImportPath}} {{.Export}}' $(cat gen/deps.txt) > "$TMP/exports" || exit 1
g++ -O1 -o "$TMP/oracle" oracle/protoc_oracle.cc -lprotoc -lprotobuf || exit 1
export VERIF_TMP=$TMP
"$TMP/mcg" -emit "$TMP/live" && go build -trimpath -overlay "$TMP/live/overlay.json" -o "$TMP/mclive" ./cmd/mclive || exit 1
bash maporder.sh "$TMP"
