package props

import (
	"reflect"
	"runtime"

	"github.com/cloudwego/prutal"
	. "verif/mc/pb"
)

// thin wrappers over the public API of the library under test

func marshal(p reflect.Value) ([]byte, error) { return prutal.Marshal(p.Interface()) }
func marshalAppend(b []byte, p reflect.Value) ([]byte, error) {
	return prutal.MarshalAppend(b, p.Interface())
}
func size(p reflect.Value) (int, error)         { return prutal.Size(p.Interface()) }
func unmarshal(b []byte, p reflect.Value) error { return prutal.Unmarshal(b, p.Interface()) }
func decodeNew(s *Schema, b []byte) (*Val, error) {
	p := NewGo(s)
	err := unmarshal(b, p)
	if err != nil {
		return nil, err
	}
	v := FromGoValue(s, p)
	runtime.KeepAlive(p)
	return v, nil
}

// modelOpt is the library's own contract: nesting limit 1000, mismatched wire types rejected.
var modelOpt = DecodeOpt{MaxDepth: 1000}

func modelDecode(s *Schema, b []byte) (*Val, error) {
	v := NewVal()
	if err := Decode(s, b, v, modelOpt); err != nil {
		return nil, err
	}
	return Norm(s, v), nil
}
