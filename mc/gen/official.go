package gen

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/cmd/protoc-gen-go/internal_gengo"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// Official runs the official generator in process.
func Official(set *descriptorpb.FileDescriptorSet, root string, all bool) (files map[string]string, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	req := &pluginpb.CodeGeneratorRequest{ProtoFile: set.File}
	for _, f := range set.File {
		if f.GetName() == root || all && !strings.HasPrefix(f.GetName(), "google/protobuf/") {
			req.FileToGenerate = append(req.FileToGenerate, f.GetName())
		}
	}
	p, err := protogen.Options{}.New(req)
	if err != nil {
		return nil, err
	}
	p.SupportedFeatures = internal_gengo.SupportedFeatures
	p.SupportedEditionsMinimum = internal_gengo.SupportedEditionsMinimum
	p.SupportedEditionsMaximum = internal_gengo.SupportedEditionsMaximum
	for _, f := range p.Files {
		if f.Generate {
			internal_gengo.GenerateFile(p, f)
		}
	}
	resp := p.Response()
	if resp.Error != nil {
		return nil, fmt.Errorf("%s", resp.GetError())
	}
	files = map[string]string{}
	for _, f := range resp.File {
		files[f.GetName()] = f.GetContent()
	}
	return files, nil
}

// Descriptors builds linked descriptors of a set.
func Descriptors(set *descriptorpb.FileDescriptorSet) (*protoregistry.Files, error) {
	return protodesc.NewFiles(proto.Clone(set).(*descriptorpb.FileDescriptorSet))
}

var _ protoreflect.Descriptor
