// Package schema models protobuf schemas, the values of their messages, and how both should look in generated code and
// on the wire. Nothing in it uses the code under test.
package schema

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// Field types, numbered as in descriptor.proto.
const (
	Double   = 1
	Float    = 2
	Int64    = 3
	Uint64   = 4
	Int32    = 5
	Fixed64  = 6
	Fixed32  = 7
	Bool     = 8
	String   = 9
	Message  = 11
	Bytes    = 12
	Uint32   = 13
	EnumType = 14
	Sfixed32 = 15
	Sfixed64 = 16
	Sint32   = 17
	Sint64   = 18
)

// Field cardinalities.
const (
	Singular = "singular"
	Optional = "optional"
	Required = "required"
	Repeated = "repeated"
	Map      = "map"
)

type File struct {
	Path   string   `json:"path"`
	Pkg    string   `json:"pkg"`
	GoPkg  string   `json:"go_package"`
	Proto2 bool     `json:"proto2,omitempty"`
	Enums  []*Enum  `json:"enums,omitempty"`
	Msgs   []*Msg   `json:"messages,omitempty"`
	Opts   int      `json:"opts,omitempty"` // decorations, see decor.go
	Deps   []string `json:"deps,omitempty"` // imported files
	Large  int      `json:"-"`
	Hook   bool     `json:"hook,omitempty"` // generated with custom code, see HookFields
}

type Msg struct {
	Name   string   `json:"name"`
	Fields []*Field `json:"fields,omitempty"`
	Enums  []*Enum  `json:"enums,omitempty"`
	Msgs   []*Msg   `json:"messages,omitempty"`
	Opts   int      `json:"opts,omitempty"`
	full   string
}

type Enum struct {
	Name   string `json:"name"`
	Values []EVal `json:"values"`
	Alias  bool   `json:"alias,omitempty"`
	Opts   int    `json:"opts,omitempty"`
	full   string
	scope  string
}

type EVal struct {
	Name string `json:"name"`
	Num  int32  `json:"num"`
	Opts int    `json:"opts,omitempty"`
}

type Field struct {
	Name string `json:"name"`
	Num  int32  `json:"num"`
	Card string `json:"card"`
	Type int32  `json:"type"`          // element type; of a map, its value type
	Key  int32  `json:"key,omitempty"` // key type of a map
	Ref  string `json:"ref,omitempty"` // full name of the message or enum
	Opts int    `json:"opts,omitempty"`
	In   string `json:"in,omitempty"` // the oneof it belongs to
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

// Link computes full names.
func (f *File) Link() *File {
	for _, e := range f.Enums {
		e.full, e.scope = join(f.Pkg, e.Name), f.Pkg
	}
	var rec func(scope string, m *Msg)
	rec = func(scope string, m *Msg) {
		m.full = join(scope, m.Name)
		for _, e := range m.Enums {
			e.full, e.scope = join(m.full, e.Name), m.full
		}
		for _, x := range m.Msgs {
			rec(m.full, x)
		}
	}
	for _, m := range f.Msgs {
		rec(f.Pkg, m)
	}
	return f
}

func (m *Msg) Full() string  { return m.full }
func (e *Enum) Full() string { return e.full }

// AllMsgs lists every message, outer ones first.
func (f *File) AllMsgs() (out []*Msg) {
	var rec func(m *Msg)
	rec = func(m *Msg) {
		out = append(out, m)
		for _, x := range m.Msgs {
			rec(x)
		}
	}
	for _, m := range f.Msgs {
		rec(m)
	}
	return
}

func (f *File) AllEnums() (out []*Enum) {
	out = append(out, f.Enums...)
	for _, m := range f.AllMsgs() {
		out = append(out, m.Enums...)
	}
	return
}

func (f *File) Msg(full string) *Msg {
	if m := f.find(full); m != nil {
		return m
	}
	panic("no message " + full)
}

// find gives nil for a message of an imported file.
func (f *File) find(full string) *Msg {
	for _, m := range f.AllMsgs() {
		if m.full == full {
			return m
		}
	}
	return nil
}

func (f *File) Enum(full string) *Enum {
	for _, e := range f.AllEnums() {
		if e.full == full {
			return e
		}
	}
	panic("no enum " + full)
}

// mapEntry is the name protoc gives to the message behind a map field.
func mapEntry(field string) string {
	var b strings.Builder
	up := true
	for _, c := range field {
		switch {
		case c == '_':
			up = true
		case up:
			b.WriteString(strings.ToUpper(string(c)))
			up = false
		default:
			b.WriteRune(c)
		}
	}
	return b.String() + "Entry"
}

// jsonName is the json_name protoc fills in.
func jsonName(s string) string {
	var b strings.Builder
	up := false
	for _, c := range s {
		if c == '_' {
			up = true
			continue
		}
		if up && 'a' <= c && c <= 'z' {
			c -= 32
		}
		up = false
		b.WriteRune(c)
	}
	return b.String()
}

func (f *File) Proto() *descriptorpb.FileDescriptorProto {
	f.Link()
	d := &descriptorpb.FileDescriptorProto{Name: proto.String(f.Path)}
	if f.Pkg != "" {
		d.Package = proto.String(f.Pkg)
	}
	if !f.Proto2 {
		d.Syntax = proto.String("proto3")
	}
	d.Options = &descriptorpb.FileOptions{GoPackage: proto.String(f.GoPkg)}
	d.Dependency = append(d.Dependency, f.Deps...)
	for _, e := range f.Enums {
		d.EnumType = append(d.EnumType, e.proto())
	}
	for _, m := range f.Msgs {
		d.MessageType = append(d.MessageType, m.proto())
	}
	f.decorate(d)
	return d
}

func (e *Enum) proto() *descriptorpb.EnumDescriptorProto {
	d := &descriptorpb.EnumDescriptorProto{Name: proto.String(e.Name)}
	for _, v := range e.Values {
		d.Value = append(d.Value, &descriptorpb.EnumValueDescriptorProto{Name: proto.String(v.Name), Number: proto.Int32(v.Num)})
	}
	if e.Alias {
		d.Options = &descriptorpb.EnumOptions{AllowAlias: proto.Bool(true)}
	}
	e.decorate(d)
	return d
}

func (m *Msg) proto() *descriptorpb.DescriptorProto {
	d := &descriptorpb.DescriptorProto{Name: proto.String(m.Name)}
	typ := func(fd *descriptorpb.FieldDescriptorProto, t int32, ref string) {
		fd.Type = descriptorpb.FieldDescriptorProto_Type(t).Enum()
		if ref != "" {
			fd.TypeName = proto.String("." + ref)
		}
	}
	var synthetic []*descriptorpb.OneofDescriptorProto
	for i, f := range m.Fields {
		if f.In != "" && (i == 0 || m.Fields[i-1].In != f.In) {
			synthetic = append(synthetic, &descriptorpb.OneofDescriptorProto{Name: proto.String(f.In)})
		}
	}
	oneofs := -1
	for i, f := range m.Fields {
		fd := &descriptorpb.FieldDescriptorProto{Name: proto.String(f.Name), Number: proto.Int32(f.Num), JsonName: proto.String(jsonName(f.Name)),
			Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
		switch f.Card {
		case Repeated:
			fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
			typ(fd, f.Type, f.Ref)
		case Required:
			fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REQUIRED.Enum()
			typ(fd, f.Type, f.Ref)
		case Map:
			fd.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
			en := mapEntry(f.Name)
			typ(fd, Message, m.full+"."+en)
			k := &descriptorpb.FieldDescriptorProto{Name: proto.String("key"), JsonName: proto.String("key"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
			v := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), JsonName: proto.String("value"), Number: proto.Int32(2), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
			typ(k, f.Key, "")
			typ(v, f.Type, f.Ref)
			d.NestedType = append(d.NestedType, &descriptorpb.DescriptorProto{Name: proto.String(en), Field: []*descriptorpb.FieldDescriptorProto{k, v},
				Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}})
		case Optional: // proto3 optional
			typ(fd, f.Type, f.Ref)
			fd.Proto3Optional = proto.Bool(true)
			fd.OneofIndex = proto.Int32(int32(len(synthetic)))
			synthetic = append(synthetic, &descriptorpb.OneofDescriptorProto{Name: proto.String("_" + f.Name)})
		default:
			typ(fd, f.Type, f.Ref)
			if f.In != "" {
				if i == 0 || m.Fields[i-1].In != f.In {
					oneofs++
				}
				fd.OneofIndex = proto.Int32(int32(oneofs))
			}
		}
		f.decorate(fd)
		d.Field = append(d.Field, fd)
	}
	d.OneofDecl = synthetic
	m.decorate(d)
	for _, x := range m.Msgs {
		d.NestedType = append(d.NestedType, x.proto())
	}
	for _, e := range m.Enums {
		d.EnumType = append(d.EnumType, e.proto())
	}
	return d
}

// Request builds a plugin request for the given files, all of which are to be generated (listed in the given order).
func Request(files []*File, generate []string, param string) []byte {
	r := &pluginpb.CodeGeneratorRequest{FileToGenerate: generate}
	if param != "" {
		r.Parameter = proto.String(param)
	}
	for _, f := range files {
		r.ProtoFile = append(r.ProtoFile, f.Proto())
	}
	return finish(r, World{})
}

// World is what a request says besides the schema files and the options: things no output may depend on.
type World struct {
	Protoc string // compiler version, "" for none
	Pad    int    // size of comments in another file that is listed but not generated
}

// RequestIn is Request in a given world.
func RequestIn(w World, files []*File, generate []string, param string) []byte {
	r := &pluginpb.CodeGeneratorRequest{}
	if err := proto.Unmarshal(Request(files, generate, param), r); err != nil {
		panic(err)
	}
	return finish(r, w)
}

func finish(r *pluginpb.CodeGeneratorRequest, w World) []byte {
	if w.Protoc != "" {
		var major, minor, patch int32
		suffix := ""
		fmt.Sscanf(w.Protoc, "%d.%d.%d%s", &major, &minor, &patch, &suffix)
		r.CompilerVersion = &pluginpb.Version{Major: &major, Minor: &minor, Patch: &patch, Suffix: &suffix}
	}
	if w.Pad > 0 {
		line := "lorem ipsum dolor sit amet; message X { string y = 1; }\n"
		r.ProtoFile = append([]*descriptorpb.FileDescriptorProto{{
			Name: proto.String("zz_padding.proto"), Package: proto.String("zz.padding"), Syntax: proto.String("proto3"),
			Options:        &descriptorpb.FileOptions{GoPackage: proto.String("example.com/zz/padding")},
			SourceCodeInfo: &descriptorpb.SourceCodeInfo{Location: []*descriptorpb.SourceCodeInfo_Location{{Path: []int32{2}, Span: []int32{0, 0, 10}, LeadingComments: proto.String(strings.Repeat(line, w.Pad/len(line)+1))}}},
		}}, r.ProtoFile...)
	}
	b, err := proto.Marshal(r)
	if err != nil {
		panic(err)
	}
	return b
}

// Describe prints the schema as a .proto file.
func (f *File) Describe() string {
	var b strings.Builder
	syntax := "proto3"
	if f.Proto2 {
		syntax = "proto2"
	}
	fmt.Fprintf(&b, "// %s\nsyntax = %q; ", f.Path, syntax)
	if f.Pkg != "" {
		fmt.Fprintf(&b, "package %s; ", f.Pkg)
	}
	fmt.Fprintf(&b, "option go_package = %q;%s\n", f.GoPkg, notes(f.Opts))
	var enum func(in string, e *Enum)
	enum = func(in string, e *Enum) {
		fmt.Fprintf(&b, "%senum %s {%s", in, e.Name, notes(e.Opts))
		if e.Alias {
			b.WriteString(" option allow_alias = true;")
		}
		for _, v := range e.Values {
			fmt.Fprintf(&b, " %s = %d;", v.Name, v.Num)
		}
		b.WriteString(" }\n")
	}
	var msg func(in string, m *Msg)
	msg = func(in string, m *Msg) {
		fmt.Fprintf(&b, "%smessage %s {%s\n", in, m.Name, notes(m.Opts))
		for _, e := range m.Enums {
			enum(in+" ", e)
		}
		for _, x := range m.Msgs {
			msg(in+" ", x)
		}
		for _, x := range m.Fields {
			t := TypeName(x.Type)
			if x.Ref != "" {
				t = "." + x.Ref
			}
			switch x.Card {
			case Map:
				t = fmt.Sprintf("map<%s, %s>", TypeName(x.Key), t)
			case Repeated:
				t = "repeated " + t
			case Required:
				t = "required " + t
			case Optional:
				t = "optional " + t
			default:
				if f.Proto2 {
					t = "optional " + t
				}
			}
			fmt.Fprintf(&b, "%s %s %s = %d%s;\n", in, t, x.Name, x.Num, x.notes())
		}
		fmt.Fprintf(&b, "%s}\n", in)
	}
	for _, e := range f.Enums {
		enum("", e)
	}
	for _, m := range f.Msgs {
		msg("", m)
	}
	return b.String()
}

func TypeName(t int32) string {
	return strings.ToLower(strings.TrimPrefix(descriptorpb.FieldDescriptorProto_Type(t).String(), "TYPE_"))
}

// Reach lists the messages reachable from m through fields, m included, sorted by name.
func (f *File) Reach(m *Msg) []*Msg {
	seen := map[*Msg]bool{}
	var rec func(m *Msg)
	rec = func(m *Msg) {
		if seen[m] {
			return
		}
		seen[m] = true
		for _, x := range m.Fields {
			if x.Type == Message {
				rec(f.Msg(x.Ref))
			}
		}
	}
	rec(m)
	var out []*Msg
	for x := range seen {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].full < out[j].full })
	return out
}

// SingularCycle says whether m contains itself through singular message fields.
func (f *File) SingularCycle(m *Msg) bool {
	seen := map[*Msg]bool{}
	var rec func(x *Msg) bool
	rec = func(x *Msg) bool {
		for _, y := range x.Fields {
			if y.Type == Message && y.Card != Repeated && y.Card != Map {
				z := f.find(y.Ref)
				if z == nil {
					continue // an imported one cannot refer back
				}
				if z == m {
					return true
				}
				if !seen[z] {
					seen[z] = true
					if rec(z) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(m)
}
