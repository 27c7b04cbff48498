#!/bin/bash
# bash maporder.sh <dir>: builds cmd/mcg as <dir>/mc with a runtime whose map
# iterations start where the checker says (variable verifIter).
T=$(go env GOROOT)/src/internal/runtime/maps/table.go
sed -e 's|it.entryOffset = rand()|it.entryOffset = verifOffset(m)|; s|it.dirOffset = rand()|it.dirOffset = it.entryOffset|' "$T" > "$1/table.go"
cat >> "$1/table.go" <<'END'

var verifIter func(used uint64) (uint64, bool)

func verifOffset(m *Map) uint64 {
	if verifIter != nil {
		if k, ok := verifIter(m.used); ok {
			return k
		}
	}
	return rand()
}
END
[ "$(grep -c '= verifOffset(m)$\|it.dirOffset = it.entryOffset$' "$1/table.go")" = 2 ] || { echo "this Go version's maps are not known"; exit 3; }
echo "{\"Replace\":{\"$T\":\"$1/table.go\"}}" > "$1/maps.json"
go build -trimpath -overlay "$1/maps.json" -ldflags=-checklinkname=0 -o "$1/mc" ./cmd/mcg
