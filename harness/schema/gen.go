package schema

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoregistry"
	"pgregory.net/rapid"
)

// GenOpts narrows the schemas drawn.
type GenOpts struct {
	Rust    bool // only what the Rust generator supports: no singular cycles, no aliases, no names of its own prelude
	Sparse  bool // enum numbers other than 0, 1, 2, ...
	MaxMsgs int
	Index   int // makes the path and package unique
	Small   bool
}

var pkgs = []string{"", "", "test", "polyglot", "errors", "foo.v1", "my.pkg_name.v2", "acme.Billing.api", "a.b.c.d", "bench", "x1.y2z", "user_profile", "V1", "google.type", "acme.func.v2", "x.range", "select", "a._", "_p.q"}
var msgWords = []string{"Request", "Response", "user", "User_Profile", "data", "Item", "HTTPServer", "item2", "X", "a", "Outer", "Inner", "my_message", "MyMessage3Beta", "KeySize", "NameMap", "NameElem", "ABC", "Temp9", "Empty", "Test", "fooBar", "Foo_bar_Baz", "list__x", "T1a2b", "Tail_", "_Hidden", "_1st", "_low"}
var fieldWords = []string{"id", "name", "user_name", "userName", "Value", "value2", "items", "data", "field_1", "a1b2", "x", "X_", "d", "b", "err", "i", "v", "k", "size",
	"type", "error", "encode", "decode", "func", "match", "self", "map", "range", "string", "len", "error_code", "URL", "userID", "is_OK", "foo__bar", "temp", "slice_size", "key", "count_of_things",
	"int32", "nil", "true", "return", "fn", "impl", "Error", "new", "make", "append", "uint32", "bool", "result", "super", "crate", "async", "box", "loop", "mod", "Self", "_id", "_", "__x", "_1", "_X", "_type", "__2", "_self"}
var enumWords = []string{"Status", "kind", "Color", "my_enum", "E", "State2", "HTTPCode", "Level_X", "mode", "enumT", "ValueTemp", "NameTemp", "data_temp", "KeyTemp", "_Enum", "_3d"}
var evalWords = []string{"UNKNOWN", "ACTIVE", "foo", "Bar", "VALUE_1", "value_two", "A", "b1c", "NOT_FOUND", "ok", "type", "self", "LONG_ENUM_VALUE_NAME", "match", "Red", "x__y", "_NONE", "_0", "_"}

var goKeywords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("main init") {
		goKeywords[w] = true
	}
}

const firstLetters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const idLetters = firstLetters + "0123456789____"

// langWords are words with a meaning in one of the languages code is generated in.
var langWords = strings.Fields("break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var " +
	"any append bool byte cap clear close comparable complex copy delete error false float64 imag int int64 iota len make max min new nil panic print println real recover rune string true uint32 uintptr " +
	"polyglot errors init main x b d err " +
	"as crate enum extern fn impl in let loop match mod move mut pub ref self Self static super trait unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union raw auto " +
	"i32 u8 usize str Vec String Option Some None Ok Err Result Box HashMap Encoder Decoder Encode Decode Kind Cursor TryFrom Default Clone Debug drop " +
	"arguments catch class constructor debugger eval export extends finally function implements instanceof let null number of package private protected public set get this throw undefined void with " +
	"Map Array Object Uint8Array Number toString prototype length buf encoded decoded value element key size")

func ident(t *rapid.T, words []string, label string) string {
	switch k := rapid.IntRange(0, 8).Draw(t, label+"?"); {
	case k == 8:
		return rapid.SampledFrom(langWords).Draw(t, label)
	case k > 1:
		return rapid.SampledFrom(words).Draw(t, label)
	}
	n := rapid.IntRange(1, 9).Draw(t, label+"len")
	if n == 9 && rapid.IntRange(0, 3).Draw(t, label+"long?") == 3 {
		n = rapid.IntRange(20, 90).Draw(t, label+"long")
	}
	b := make([]byte, n)
	for i := range b {
		if i == 0 {
			b[i] = firstLetters[rapid.IntRange(0, len(firstLetters)-1).Draw(t, label)]
			if rapid.IntRange(0, 15).Draw(t, label+"_") == 15 {
				b[i] = '_'
			}
		} else {
			b[i] = idLetters[rapid.IntRange(0, len(idLetters)-1).Draw(t, label)]
		}
	}
	return string(b)
}

// names hands out names that stay distinct, and whose images in the generated code stay distinct.
type names map[string]bool

func (n names) pick(name string, images func(string) ([]string, bool)) string {
	for i := 0; ; i++ {
		c := name
		if i > 0 {
			c = fmt.Sprintf("%sn%d", name, i)
		}
		im, ok := images(c)
		for _, x := range im {
			if n[x] {
				ok = false
			}
		}
		if ok {
			for _, x := range im {
				n[x] = true
			}
			return c
		}
	}
}

var scalars = []int32{Double, Float, Int64, Uint64, Int32, Fixed64, Fixed32, Bool, String, Bytes, Uint32, Sfixed32, Sfixed64, Sint32, Sint64}
var keyTypes = []int32{Int64, Uint64, Int32, Fixed64, Fixed32, Bool, String, Uint32, Sfixed32, Sfixed64, Sint32, Sint64}

// ElemTypes lists every element type; KeyTypes every map key type.
var ElemTypes = append(append([]int32{}, scalars...), EnumType, Message)
var KeyTypes = keyTypes

func count(t *rapid.T, hi int, label string) int {
	// biased towards few
	n := rapid.IntRange(0, hi).Draw(t, label)
	m := rapid.IntRange(0, hi).Draw(t, label+"'")
	return min(n, m)
}

// What is larger than usual in a file.
const (
	largeMsgs = 1 + iota
	largeEnums
	largeEnum
	largeFields
	largeDepth
)

var largeNames = []string{"", "many messages", "many enums", "an enum of many values", "a message of many fields", "deeply nested declarations"}

// Gen draws a schema file.
func Gen(t *rapid.T, o GenOpts) *File {
	return rapid.Custom(func(t *rapid.T) *File { return draw(t, o) }).Filter(Valid).Draw(t, "file")
}

// Valid says whether protobuf itself accepts the file.
func Valid(f *File) bool {
	_, err := protodesc.NewFile(f.Proto(), &protoregistry.Files{})
	return err == nil
}

func draw(t *rapid.T, o GenOpts) *File {
	f := &File{}
	// once in a while one thing is far larger than usual
	large := 0
	if !o.Small && rapid.IntRange(0, 7).Draw(t, "large?") == 7 {
		large = rapid.IntRange(largeMsgs, largeDepth).Draw(t, "large")
	}
	f.Large = large
	f.Pkg = rapid.SampledFrom(pkgs).Draw(t, "pkg")
	if rapid.IntRange(0, 9).Draw(t, "pkgrand") == 0 {
		f.Pkg = ident(t, pkgs[2:3], "pkgname")
		if goKeywords[f.Pkg] {
			f.Pkg += "x"
		}
	}
	f.Path = fmt.Sprintf("%s%s%d.proto", rapid.SampledFrom([]string{"", "dir/", "some/deep/dir_x/", "Api/v1.2/"}).Draw(t, "dir"),
		rapid.SampledFrom([]string{"f", "f", "My-File.v", "snake_Case", "type.proto.x"}).Draw(t, "base"), o.Index)
	goname := rapid.SampledFrom([]string{"pb", "gen1", "p_x"}).Draw(t, "goname")
	f.GoPkg = fmt.Sprintf("example.com/gen/s%d;%s", o.Index, goname)
	f.Proto2 = rapid.IntRange(0, 4).Draw(t, "proto2") == 0
	// Go identifiers of the package, and the Rust ones of the module.
	global := names{"ErrDecodeNil": true, "NilDecode": true}
	top := names{}
	typeImages := func(scope string, siblings names) func(string) ([]string, bool) {
		return func(n string) ([]string, bool) {
			g := GoName(join(scope, n))
			return []string{g, "New" + g}, !siblings["sib "+strings.ToLower(n)] && !(o.Rust && rustTaken[g])
		}
	}
	var allMsgs []*Msg
	var allEnums []*Enum
	newEnum := func(scope string, sib names) *Enum {
		e := &Enum{scope: scope}
		e.Name = global.pick(ident(t, enumWords, "enum"), typeImages(scope, sib))
		sib["sib "+strings.ToLower(e.Name)] = true
		e.full = join(scope, e.Name)
		n := 1 + count(t, 6, "values")
		if large == largeEnum && len(allEnums) == 0 {
			n = rapid.IntRange(17, 70).Draw(t, "many values")
		}
		variants := names{}
		used := map[int32]bool{}
		last := int32(-1)
		if o.Sparse && !o.Rust && rapid.IntRange(0, 9).Draw(t, "alias") == 0 {
			e.Alias = true
		}
		sparse := o.Sparse && rapid.Bool().Draw(t, "sparse")
		for i := 0; i < n; i++ {
			v := EVal{}
			// protobuf refuses names that are alike without the enum's name in front and underscores
			bare := func(c string) string { return strings.ToLower(strings.ReplaceAll(c, "_", "")) }
			trim := func(c string) string { return strings.TrimPrefix(bare(c), bare(e.Name)) }
			v.Name = global.pick(ident(t, evalWords, "value"), func(c string) ([]string, bool) {
				return []string{GoName(join(scope, c))}, !sib["sib "+strings.ToLower(c)] && !variants[bare(c)] && !variants[trim(c)] && !variants[RustIdent(c)]
			})
			variants[bare(v.Name)], variants[trim(v.Name)], variants[RustIdent(v.Name)] = true, true, true
			sib["sib "+strings.ToLower(v.Name)] = true
			v.Num = last + 1
			if i > 0 && sparse {
				v.Num = rapid.OneOf(rapid.Int32Range(0, 12), rapid.SampledFrom([]int32{1, 5, 100, 127, 128, 255, 256, 65536, 1<<31 - 1, -1, -1 << 31})).Draw(t, "num")
			}
			for used[v.Num] && !(e.Alias && i > 0) {
				v.Num++
				if v.Num < 0 && !sparse {
					v.Num = 0
				}
			}
			if i == 0 {
				v.Num = 0
				if f.Proto2 && sparse && rapid.Bool().Draw(t, "nonzero first") { // proto3 insists on zero
					v.Num = rapid.SampledFrom([]int32{1, 2, 7, 100, -1}).Draw(t, "first")
				}
			}
			used[v.Num] = true
			last = v.Num
			if last == 1<<31-1 {
				last = 1000
			}
			e.Values = append(e.Values, v)
		}
		if e.Alias {
			dup := map[int32]bool{}
			any := false
			for _, v := range e.Values {
				any = any || dup[v.Num]
				dup[v.Num] = true
			}
			e.Alias = any // protoc refuses allow_alias without an alias
		}
		allEnums = append(allEnums, e)
		return e
	}
	budget := o.MaxMsgs
	if large == largeMsgs || large == largeDepth {
		budget = max(budget, 14)
	}
	var newMsg func(scope string, depth int, sib names) *Msg
	newMsg = func(scope string, depth int, sib names) *Msg {
		budget--
		m := &Msg{}
		m.Name = global.pick(ident(t, msgWords, "message"), typeImages(scope, sib))
		sib["sib "+strings.ToLower(m.Name)] = true
		m.full = join(scope, m.Name)
		inner := names{}
		for i := count(t, 2, "enums"); i > 0; i-- {
			m.Enums = append(m.Enums, newEnum(m.full, inner))
		}
		if depth < 3 || large == largeDepth && depth < 9 {
			i := count(t, 2, "nested")
			if large == largeDepth && i == 0 {
				i = 1
			}
			for ; i > 0 && budget > 0; i-- {
				m.Msgs = append(m.Msgs, newMsg(m.full, depth+1, inner))
			}
		}
		allMsgs = append(allMsgs, m)
		return m
	}
	ntop := count(t, 2, "topenums")
	switch large {
	case largeEnums:
		ntop = rapid.IntRange(4, 12).Draw(t, "many enums")
	case largeEnum:
		ntop = max(ntop, 1)
	}
	for i := ntop; i > 0; i-- {
		f.Enums = append(f.Enums, newEnum(f.Pkg, top))
	}
	nmsg := rapid.IntRange(0, 3).Draw(t, "messages")
	if nmsg == 0 && rapid.IntRange(0, 3).Draw(t, "really none") > 0 {
		nmsg = 1
	}
	switch large {
	case largeMsgs:
		nmsg = rapid.IntRange(5, 14).Draw(t, "many messages")
	case largeFields, largeDepth:
		nmsg = max(nmsg, 1)
	}
	for i := nmsg; i > 0 && budget > 0; i-- {
		f.Msgs = append(f.Msgs, newMsg(f.Pkg, 0, top))
	}
	if len(f.Msgs) == 0 && len(f.Enums) == 0 && rapid.IntRange(0, 3).Draw(t, "emptyfile") > 0 {
		f.Msgs = append(f.Msgs, newMsg(f.Pkg, 0, top))
	}
	f.Link()
	for _, m := range allMsgs {
		hi := 8
		if rapid.IntRange(0, 7).Draw(t, "many") == 0 {
			hi = 20
		}
		if o.Small {
			hi = 4
		}
		lo := 0
		if large == largeMsgs {
			hi = 4
		}
		if large == largeFields && m == allMsgs[0] {
			lo, hi = 24, 72
		}
		nf := rapid.IntRange(lo, hi).Draw(t, "fields")
		local := names{}
		for _, e := range m.Enums {
			local["sib "+e.Name] = true
			for _, v := range e.Values {
				local["sib "+v.Name] = true
			}
		}
		for _, x := range m.Msgs {
			local["sib "+x.Name] = true
		}
		used := map[int32]bool{}
		num := int32(0)
		shuffle := rapid.Bool().Draw(t, "shuffle")
		for i := 0; i < nf; i++ {
			x := &Field{}
			switch rapid.IntRange(0, 9).Draw(t, "card") {
			case 0, 1, 2:
				x.Card = Repeated
			case 3, 4:
				x.Card = Map
			case 5:
				x.Card = Optional
				if f.Proto2 {
					x.Card = Required
				}
			default:
				x.Card = Singular
			}
			if x.Card == Map {
				x.Key = rapid.SampledFrom(keyTypes).Draw(t, "key")
			}
			switch k := rapid.IntRange(0, 11).Draw(t, "type"); {
			case k >= 10 && i > 0: // like the field before
				x.Type, x.Ref = m.Fields[i-1].Type, m.Fields[i-1].Ref
			case k < 2 && len(allEnums) > 0:
				x.Type = EnumType
				x.Ref = rapid.SampledFrom(allEnums).Draw(t, "enumref").full
			case k < 5 && len(allMsgs) > 0:
				x.Type = Message
				x.Ref = rapid.SampledFrom(allMsgs).Draw(t, "msgref").full
			default:
				x.Type = rapid.SampledFrom(scalars).Draw(t, "scalar")
			}
			x.Name = local.pick(ident(t, fieldWords, "field"), func(c string) ([]string, bool) {
				im := []string{"go " + GoFieldName(c), "rust " + RustField(c), "json " + strings.ToLower(strings.ReplaceAll(c, "_", "")), "name " + c}
				bad := local["sib "+c]
				if x.Card == Map {
					en := mapEntry(c)
					bad = bad || local["sib "+en]
					im = append(im, "sib "+en)
					g := GoName(m.full+"."+c) + "Map"
					bad = bad || global[g] || global["New"+g]
				}
				if x.Card == Optional {
					bad = bad || local["sib _"+c]
					im = append(im, "sib _"+c)
				}
				return im, !bad
			})
			if x.Card == Map {
				g := GoName(m.full+"."+x.Name) + "Map"
				global[g], global["New"+g] = true, true
			}
			if shuffle {
				num = rapid.OneOf(rapid.Int32Range(1, 3000), rapid.Int32Range(1, 3000), rapid.SampledFrom([]int32{15, 16, 2047, 2048, 18999, 20000, 1<<29 - 30})).Draw(t, "number")
			} else {
				num++
			}
			for used[num] || num == 19000 { // 19000 to 19999 are reserved
				if num++; num >= 19000 && num <= 19999 {
					num = 20000
				}
			}
			used[num] = true
			x.Num = num
			m.Fields = append(m.Fields, x)
			if o.Rust && f.SingularCycle(m) {
				x.Card = Repeated
			}
		}
	}
	f.decorations(t)
	return f.Link()
}

// Features lists what the schema exercises, as labels for the evidence.
func (f *File) Features() []string {
	s := map[string]bool{}
	var depth func(m *Msg) int
	depth = func(m *Msg) int {
		d := 0
		for _, x := range m.Msgs {
			d = max(d, 1+depth(x))
		}
		return d
	}
	if f.Proto2 {
		s["proto2"] = true
	}
	if f.Large > 0 {
		s[largeNames[f.Large]] = true
	}
	if f.Opts != 0 {
		s["file-decorations"] = true
	}
	if f.Opts&Service != 0 {
		s["service"] = true
	}
	if f.Pkg == "" {
		s["no-package"] = true
	}
	if len(f.AllMsgs()) == 0 {
		s["no-messages"] = true
	}
	for _, m := range f.Msgs {
		s[fmt.Sprintf("nesting-%d", depth(m))] = true
	}
	if len(f.Enums) > 0 {
		s["top-enum"] = true
	}
	for _, m := range f.AllMsgs() {
		if len(m.Enums) > 0 {
			s["nested-enum"] = true
		}
		if len(m.Fields) == 0 {
			s["empty-message"] = true
		}
		if f.SingularCycle(m) {
			s["recursive"] = true
		}
		mo := len(m.Fields) > 0
		for _, x := range m.Fields {
			s[x.Card+"-"+TypeName(x.Type)] = true
			if x.In != "" {
				s["oneof"] = true
			}
			if x.Opts != 0 {
				s["field-decorations"] = true
			}
			if x.Card == Map {
				s["map-key-"+TypeName(x.Key)] = true
			} else {
				mo = false
			}
			if GoFieldName(x.Name) != GoName(x.Name) {
				s["method-clash"] = true
			}
		}
		if mo {
			s["map-only"] = true
		}
	}
	for _, e := range f.AllEnums() {
		for i, v := range e.Values {
			if v.Num != int32(i) {
				s["sparse-enum"] = true
			}
		}
		if e.Alias {
			s["enum-alias"] = true
		}
	}
	var out []string
	for k := range s {
		out = append(out, k)
	}
	return out
}

// NonTrivial: at least two messages, or at least three fields of which one is a list, map, enum or message.
func (f *File) NonTrivial() bool {
	ms := f.AllMsgs()
	if len(ms) >= 2 {
		return true
	}
	for _, m := range ms {
		rich := false
		for _, x := range m.Fields {
			rich = rich || x.Card == Repeated || x.Card == Map || x.Type == EnumType || x.Type == Message
		}
		if rich && len(m.Fields) >= 3 {
			return true
		}
	}
	return false
}
