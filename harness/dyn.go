package main

import (
	"fmt"

	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/rbac/xt"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

// Dyn is a state object or transition of a type made up at run time.
type Dyn struct {
	*dynamicpb.Message
	Def *meta.APIDefinition
}

func newDyn(md protoreflect.MessageDescriptor, def *meta.APIDefinition) *Dyn {
	return &Dyn{Message: dynamicpb.NewMessage(md), Def: def}
}

func (d *Dyn) APIDefinition() *meta.APIDefinition       { return d.Def }
func (d *Dyn) NewStateObject() meta.StateObject         { return newDyn(d.Descriptor(), d.Def) }
func (d *Dyn) NewStateTransition() meta.StateTransition { return newDyn(d.Descriptor(), d.Def) }
func (d *Dyn) fd(name string) protoreflect.FieldDescriptor {
	return d.Descriptor().Fields().ByName(protoreflect.Name(name))
}
func (d *Dyn) set(name string, v interface{}) *Dyn {
	d.Set(d.fd(name), protoreflect.ValueOf(v))
	return d
}
func (d *Dyn) get(name string) interface{} { return d.Get(d.fd(name)).Interface() }
func (d *Dyn) copy() *Dyn {
	n := newDyn(d.Descriptor(), d.Def)
	proto.Merge(n.Message, d.Message)
	return n
}

// DynField and DynMsg describe a generated message type.
type DynField struct {
	Name     string
	Type     descriptorpb.FieldDescriptorProto_Type
	Repeated bool
	TypeName string
	JSON     string
}

type DynMsg struct {
	Name     string
	Fields   []DynField
	Nested   []*descriptorpb.DescriptorProto
	External *bool
}

const (
	tString = descriptorpb.FieldDescriptorProto_TYPE_STRING
	tBytes  = descriptorpb.FieldDescriptorProto_TYPE_BYTES
	tBool   = descriptorpb.FieldDescriptorProto_TYPE_BOOL
	tInt32  = descriptorpb.FieldDescriptorProto_TYPE_INT32
	tInt64  = descriptorpb.FieldDescriptorProto_TYPE_INT64
	tUint32 = descriptorpb.FieldDescriptorProto_TYPE_UINT32
	tUint64 = descriptorpb.FieldDescriptorProto_TYPE_UINT64
	tMsg    = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE
)

func dynMsgProto(m DynMsg) *descriptorpb.DescriptorProto {
	d := &descriptorpb.DescriptorProto{Name: proto.String(m.Name), NestedType: m.Nested}
	for i, f := range m.Fields {
		lab := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
		if f.Repeated {
			lab = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
		}
		t := f.Type
		fp := &descriptorpb.FieldDescriptorProto{Name: proto.String(f.Name), Number: proto.Int32(int32(i + 1)), Label: &lab, Type: &t}
		if f.TypeName != "" {
			fp.TypeName = proto.String(f.TypeName)
		}
		if f.JSON != "" {
			fp.JsonName = proto.String(f.JSON)
		}
		d.Field = append(d.Field, fp)
	}
	if m.External != nil {
		o := &descriptorpb.MessageOptions{}
		proto.SetExtension(o, xt.E_StateTransitionAcl, &xt.StateTransitionAccessControl{External: *m.External})
		d.Options = o
	}
	return d
}

func dynFile(path, pkg string, msgs []DynMsg, deps ...string) protoreflect.FileDescriptor {
	fdp := &descriptorpb.FileDescriptorProto{Name: proto.String(path), Package: proto.String(pkg), Syntax: proto.String("proto3"), Dependency: deps,
		Options: &descriptorpb.FileOptions{GoPackage: proto.String("example.com/" + pkg)}}
	for _, m := range msgs {
		fdp.MessageType = append(fdp.MessageType, dynMsgProto(m))
	}
	fd, err := protodesc.NewFile(fdp, protoregistry.GlobalFiles)
	if err != nil {
		panic(fmt.Sprintf("harness: bad generated file: %v", err))
	}
	return fd
}

func objDef(group, kind string) *meta.APIDefinition {
	return &meta.APIDefinition{Group: group, Kind: kind, ApiType: meta.APIType_StateObject}
}
func trDef(group, kind string) *meta.APIDefinition {
	return &meta.APIDefinition{Group: group, Kind: kind, ApiType: meta.APIType_StateTransition}
}

var yes, no = true, false
