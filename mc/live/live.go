// Package live runs generated code: messages of the worlds that package gen
// emits, as prutalgen and as the official generator write them.
package live

import "google.golang.org/protobuf/proto"

// Msg is one message in both forms.
type Msg struct {
	Name     string
	Official func() proto.Message
	Prutal   func() any
}

// Enum is one enum in both forms.
type Enum struct {
	Name             string
	Official, Prutal any // its zero
	Names            [2]map[int32]string
	Values           [2]map[string]int32
}

// World is one generated file.
type World struct {
	Name, Text string
	Mode       string // "": plain, "values": no_pointer, "unknown": unknown_fields
	Msgs       []Msg
	Enums      []Enum
}

// Worlds and the ones that could not be generated are registered by generated code.
var (
	Worlds []*World
	Broken [][2]string
)
