package schema

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"pgregory.net/rapid"
)

// Decorations: what a schema may say besides its types, fields and numbers, and which must not change what is generated
// in any way that matters: options, defaults, reserved and extension ranges, JSON names, oneofs, comments, services.
const (
	Deprecated = 1 << iota
	Ranges     // message, enum: reserved numbers and names; message in proto2: an extension range
	Packed     // field: the packed option, set explicitly
	Defaults   // field, proto2: an explicit default
	JSON       // field: an explicit json_name
	Comments   // file: source locations with comments
	Service    // file: a service
	Language   // file: options for other languages
	Extend     // file, message in proto2: extensions of the messages that have an extension range
)

var notesOf = []string{"deprecated", "reserved", "packed", "default", "json_name", "comments", "service", "options", "extend"}

func notes(opts int) string {
	var s []string
	for i, n := range notesOf {
		if opts&(1<<i) != 0 {
			s = append(s, n)
		}
	}
	if s == nil {
		return ""
	}
	return " /* " + strings.Join(s, ", ") + " */"
}

func (x *Field) notes() string {
	s := notes(x.Opts)
	if x.In != "" {
		s += fmt.Sprintf(" /* oneof %s */", x.In)
	}
	return s
}

func (f *File) decorate(d *descriptorpb.FileDescriptorProto) {
	if f.Opts&Deprecated != 0 {
		d.Options.Deprecated = proto.Bool(true)
	}
	if f.Opts&Language != 0 {
		d.Options.JavaPackage = proto.String("com.example.other")
		d.Options.OptimizeFor = descriptorpb.FileOptions_CODE_SIZE.Enum()
		d.Options.ObjcClassPrefix = proto.String("PG")
	}
	if f.Opts&Extend != 0 && f.Proto2 {
		for i, m := range f.Msgs {
			if m.Opts&Ranges != 0 {
				d.Extension = append(d.Extension, extension(fmt.Sprintf("zz9_extension%d", i), 1, m))
			}
		}
	}
	if f.Opts&Service != 0 && len(f.Msgs) == 0 {
		d.Service = append(d.Service, &descriptorpb.ServiceDescriptorProto{Name: proto.String("Zz9Service")})
	} else if f.Opts&Service != 0 {
		in := proto.String("." + f.Msgs[0].full)
		d.Service = append(d.Service, &descriptorpb.ServiceDescriptorProto{Name: proto.String("Zz9Service"), Method: []*descriptorpb.MethodDescriptorProto{
			{Name: proto.String("Call"), InputType: in, OutputType: in}, {Name: proto.String("Stream"), InputType: in, OutputType: in, ServerStreaming: proto.Bool(true)}}})
	}
	if f.Opts&Comments != 0 {
		info := &descriptorpb.SourceCodeInfo{}
		add := func(lead, trail string, path ...int32) {
			info.Location = append(info.Location, &descriptorpb.SourceCodeInfo_Location{Path: path, Span: []int32{int32(len(info.Location)), 0, 9},
				LeadingComments: proto.String(lead), TrailingComments: proto.String(trail), LeadingDetachedComments: []string{" apart */ \n", "\n"}})
		}
		add(" the syntax\n", "", 12)
		for i, m := range f.Msgs {
			add(" a message\n */ struct {{.}}\n", " `quoted\n", 4, int32(i))
			for j := range m.Fields {
				add(" a field\n", "\"", 4, int32(i), 2, int32(j))
			}
		}
		for i := range f.Enums {
			add(" an enum\n", "\\", 5, int32(i))
		}
		d.SourceCodeInfo = info
	}
}

func (e *Enum) decorate(d *descriptorpb.EnumDescriptorProto) {
	if e.Opts&Deprecated != 0 {
		if d.Options == nil {
			d.Options = &descriptorpb.EnumOptions{}
		}
		d.Options.Deprecated = proto.Bool(true)
	}
	if e.Opts&Ranges != 0 {
		d.ReservedRange = append(d.ReservedRange, &descriptorpb.EnumDescriptorProto_EnumReservedRange{Start: proto.Int32(777700), End: proto.Int32(777709)})
		d.ReservedName = append(d.ReservedName, "Zz9_reserved")
	}
	for i, v := range e.Values {
		if v.Opts&Deprecated != 0 {
			d.Value[i].Options = &descriptorpb.EnumValueOptions{Deprecated: proto.Bool(true)}
		}
	}
}

// Ranges of field numbers that Gen never draws.
const reservedFrom, reservedTo, extensionsFrom, extensionsTo = 777700, 777710, 777800, 777900

func (m *Msg) decorate(d *descriptorpb.DescriptorProto) {
	if m.Opts&Deprecated != 0 {
		d.Options = &descriptorpb.MessageOptions{Deprecated: proto.Bool(true)}
	}
	if m.Opts&Ranges != 0 {
		d.ReservedRange = append(d.ReservedRange, &descriptorpb.DescriptorProto_ReservedRange{Start: proto.Int32(reservedFrom), End: proto.Int32(reservedTo)})
		d.ReservedName = append(d.ReservedName, "Zz9_reserved")
		if m.Opts&Defaults != 0 { // proto2
			d.ExtensionRange = append(d.ExtensionRange, &descriptorpb.DescriptorProto_ExtensionRange{Start: proto.Int32(extensionsFrom), End: proto.Int32(extensionsTo)})
			if m.Opts&Extend != 0 {
				d.Extension = append(d.Extension, extension("zz9_nested", 2, m), extension("zz9_nested_too", 3, m))
			}
		}
	}
}

// extension declares one more field of m, which the generators leave out as it is no field of the message.
func extension(name string, n int32, m *Msg) *descriptorpb.FieldDescriptorProto {
	x := &descriptorpb.FieldDescriptorProto{Name: proto.String(name), Number: proto.Int32(extensionsFrom + n), Extendee: proto.String("." + m.full),
		Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_INT32.Enum()}
	if n == 2 {
		x.Label, x.Type = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum(), descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
		x.TypeName = proto.String("." + m.full)
	}
	return x
}

func (x *Field) decorate(d *descriptorpb.FieldDescriptorProto) {
	o := &descriptorpb.FieldOptions{}
	if x.Opts&Deprecated != 0 {
		o.Deprecated = proto.Bool(true)
	}
	if x.Opts&Packed != 0 && x.Card == Repeated && x.Type != String && x.Type != Bytes && x.Type != Message {
		o.Packed = proto.Bool(x.Num%2 == 0)
	}
	if x.Opts&JSON != 0 {
		d.JsonName = proto.String(fmt.Sprintf("zz9Json%d", x.Num))
	}
	if x.Opts&Defaults != 0 && x.Card != Repeated && x.Card != Map {
		switch x.Type {
		case Message, EnumType:
		case Bool:
			d.DefaultValue = proto.String("true")
		case String, Bytes:
			d.DefaultValue = proto.String("some text")
		case Float, Double:
			d.DefaultValue = proto.String("1.5")
		default:
			d.DefaultValue = proto.String("17")
		}
	}
	if !proto.Equal(o, &descriptorpb.FieldOptions{}) {
		d.Options = o
	}
}

// decorations draws them.
func (f *File) decorations(t *rapid.T) {
	if rapid.Bool().Draw(t, "plain") {
		return
	}
	some := func(of ...int) (opts int) {
		for _, x := range of {
			if rapid.IntRange(0, 3).Draw(t, "decoration") == 0 {
				opts |= x
			}
		}
		return
	}
	f.Opts = some(Deprecated, Comments, Service, Language)
	two := 0
	if f.Proto2 {
		two = Defaults
		f.Opts |= some(Extend)
	}
	for _, m := range f.AllMsgs() {
		m.Opts = some(Deprecated, Ranges) | two
		if f.Proto2 && m.Opts&Ranges != 0 {
			m.Opts |= some(Extend)
		}
		share := rapid.SampledFrom([]int{0, 1, 1, 3}).Draw(t, "oneofs") // of four
		last := ""
		for _, x := range m.Fields {
			x.Opts = some(Deprecated, Packed, JSON, two)
			if x.Card != Singular {
				last = ""
				continue
			}
			if rapid.IntRange(1, 4).Draw(t, "oneof") > share {
				last = ""
				continue
			}
			if last == "" || rapid.IntRange(0, 3).Draw(t, "another") == 0 {
				last = fmt.Sprintf("zz9_oneof_%d", x.Num)
			}
			x.In = last
		}
	}
	for _, e := range f.AllEnums() {
		e.Opts = some(Deprecated, Ranges)
		for i := range e.Values {
			e.Values[i].Opts = some(Deprecated)
		}
	}
}
