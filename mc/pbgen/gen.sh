#!/bin/bash
# authoring-time only: regenerates the committed *.pb.go (official generator for
# p2/p3/ed from google.golang.org/protobuf in the module cache; prutalgen for pg2/pg3).
set -e
cd "$(dirname "$0")"; . /opt/vp/env.sh
python3 gen.py
T=$(mktemp -d)
(cd .. && go build -o $T/protoc-gen-go google.golang.org/protobuf/cmd/protoc-gen-go && go build -o $T/prutalgen github.com/cloudwego/prutal/prutalgen)
for f in p2 p3; do protoc -I. --plugin=$T/protoc-gen-go --go_out=. --go_opt=module=verif/mc/pbgen $f.proto; done
for f in pg2 pg3; do $T/prutalgen -I . -go_out $T/o -gen_getter $f.proto; cp $T/o/verif/mc/pbgen/$f/$f.pb.go $f/; done
rm -rf $T
