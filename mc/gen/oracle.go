// Package gen decides the properties of the code generator (prutalgen).
package gen

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

// World is a set of proto files; Root is the one that is generated.
type World struct {
	Files map[string]string
	Root  string
}

func one(name, text string) World { return World{Files: map[string]string{name: text}, Root: name} }

func (w World) names() []string {
	var out []string
	for n := range w.Files {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (w World) String() string {
	var b bytes.Buffer
	for _, n := range w.names() {
		fmt.Fprintf(&b, "--- %s\n%s\n", n, w.Files[n])
	}
	return b.String()
}

// Verdict is what protoc makes of a world.
type Verdict struct {
	OK     bool
	Syntax bool // refused by the parser, not by the checks after it
	Text   string
	Set    *descriptorpb.FileDescriptorSet
}

type oracle struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

var theOracle *oracle

func tmpDir() string {
	if d := os.Getenv("VERIF_TMP"); d != "" {
		return d
	}
	panic("VERIF_TMP not set")
}

func startOracle() *oracle {
	c := exec.Command(filepath.Join(tmpDir(), "oracle"))
	w, err := c.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := c.StdoutPipe()
	if err != nil {
		panic(err)
	}
	c.Stderr = os.Stderr
	if err := c.Start(); err != nil {
		panic("protoc oracle: " + err.Error())
	}
	return &oracle{cmd: c, in: bufio.NewWriter(w), out: bufio.NewReader(r)}
}

// Protoc asks protoc's front end about a world.
func Protoc(w World) *Verdict {
	if theOracle == nil {
		theOracle = startOracle()
	}
	o := theOracle
	fmt.Fprintf(o.in, "%d %s\n", len(w.Files), w.Root)
	for _, n := range w.names() {
		fmt.Fprintf(o.in, "%s %d\n", n, len(w.Files[n]))
		o.in.WriteString(w.Files[n])
	}
	if err := o.in.Flush(); err != nil {
		panic("protoc oracle: " + err.Error())
	}
	var kind string
	var n int
	if _, err := fmt.Fscanf(o.out, "%s %d\n", &kind, &n); err != nil {
		panic("protoc oracle: " + err.Error())
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(o.out, b); err != nil {
		panic("protoc oracle: " + err.Error())
	}
	v := &Verdict{}
	switch kind {
	case "O":
		v.OK = true
		v.Set = &descriptorpb.FileDescriptorSet{}
		if err := proto.Unmarshal(b, v.Set); err != nil {
			panic(err)
		}
	case "S":
		v.Syntax = true
		v.Text = string(b)
	default:
		v.Text = string(b)
	}
	return v
}
