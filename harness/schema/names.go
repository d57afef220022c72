package schema

import (
	"fmt"
	"go/token"
	"strings"
	"unicode"
)

// GoName is the documented Go name: every letter at the start of the name, after a dot, an underscore or a digit becomes
// upper case; an underscore is dropped when a lower-case letter follows it; dots are dropped.
//
// An underscore in front is dropped, and replaced with an X where what follows cannot begin an exported identifier.
func GoName(s string) string {
	if strings.HasPrefix(s, "_") {
		n := goName(s[1:])
		if n == "" || !unicode.IsUpper(rune(n[0])) {
			n = "X" + n
		}
		return n
	}
	return goName(s)
}

func goName(s string) string {
	r := []rune(s)
	var out []rune
	for i, c := range r {
		next := rune(0)
		if i+1 < len(r) {
			next = r[i+1]
		}
		switch {
		case c == '.':
		case c == '_' && unicode.IsLower(next):
		case unicode.IsLower(c) && (i == 0 || !unicode.IsLetter(r[i-1])):
			out = append(out, unicode.ToUpper(c))
		default:
			out = append(out, c)
		}
	}
	return string(out)
}

// goMethods are the names a generated type already uses for its methods.
var goMethods = map[string]bool{"Error": true, "Encode": true, "Decode": true}

// GoFieldName is GoName, with an underscore appended where it would clash with a method.
func GoFieldName(s string) string {
	n := GoName(s)
	if goMethods[n] {
		n += "_"
	}
	return n
}

// SnakeName is the documented Rust field name: upper-case letters become lower case, and the first of each run of them
// gets an underscore in front unless the name starts with it.
func SnakeName(s string) string {
	var b strings.Builder
	for i, c := range s {
		if unicode.IsUpper(c) {
			if i > 0 && !unicode.IsUpper(rune(s[i-1])) {
				b.WriteByte('_')
			}
			c = unicode.ToLower(c)
		}
		b.WriteRune(c)
	}
	return b.String()
}

var rustWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv try typeof unsized virtual yield gen") {
		rustWords[w] = true
	}
}

// RustIdent escapes a keyword: r# where Rust allows it, a trailing underscore otherwise.
func RustIdent(s string) string {
	switch s {
	case "self", "Self", "super", "crate", "_":
		return s + "_"
	}
	if rustWords[s] && s != "gen" {
		return "r#" + s
	}
	return s
}

func RustField(s string) string { return RustIdent(SnakeName(s)) }

var goScalar = map[int32]string{Double: "float64", Float: "float32", Int64: "int64", Uint64: "uint64", Int32: "int32", Fixed64: "uint64", Fixed32: "uint32",
	Bool: "bool", String: "string", Bytes: "[]byte", Uint32: "uint32", Sfixed32: "int32", Sfixed64: "int64", Sint32: "int32", Sint64: "int64"}
var rustScalar = map[int32]string{Double: "f64", Float: "f32", Int64: "i64", Uint64: "u64", Int32: "i32", Fixed64: "u64", Fixed32: "u32",
	Bool: "bool", String: "String", Bytes: "Vec<u8>", Uint32: "u32", Sfixed32: "i32", Sfixed64: "i64", Sint32: "i32", Sint64: "i64"}

func goElem(t int32, ref string) string {
	switch t {
	case Message:
		return "*" + GoName(ref)
	case EnumType:
		return GoName(ref)
	}
	return goScalar[t]
}

func rustElem(t int32, ref string) string {
	switch t {
	case Message, EnumType:
		return GoName(ref)
	}
	return rustScalar[t]
}

// GoType is the type of the field in the generated struct of message m.
func (x *Field) GoType(m *Msg) string {
	switch x.Card {
	case Map:
		return x.GoMap(m)
	case Repeated:
		return "[]" + goElem(x.Type, x.Ref)
	}
	return goElem(x.Type, x.Ref)
}

func (x *Field) GoMap(m *Msg) string { return GoName(m.full+"."+x.Name) + "Map" }

// GoMapType is the type underlying the generated map type.
func (x *Field) GoMapType() string {
	return fmt.Sprintf("map[%s]%s", goScalar[x.Key], goElem(x.Type, x.Ref))
}

func (x *Field) RustType() string {
	switch x.Card {
	case Map:
		return fmt.Sprintf("HashMap<%s,%s>", rustScalar[x.Key], rustElem(x.Type, x.Ref))
	case Repeated:
		return "Vec<" + rustElem(x.Type, x.Ref) + ">"
	}
	return rustElem(x.Type, x.Ref)
}

var tsWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("arguments await break case catch class const constructor continue debugger default delete do else encode enum eval export extends false finally for function if implements import in instanceof interface let new null package private protected public return static super switch this throw true try typeof var void while with yield") {
		tsWords[w] = true
	}
}

// TSField is the field name with its first letter in lower case, escaped with a trailing underscore.
func TSField(s string) string {
	s = strings.ToLower(s[:1]) + s[1:]
	if tsWords[s] {
		s += "_"
	}
	return s
}

var tsScalar = map[int32]string{Double: "number", Float: "number", Int64: "number", Uint64: "number", Int32: "number", Fixed64: "number", Fixed32: "number",
	Bool: "boolean", String: "string", Bytes: "Uint8Array", Uint32: "number", Sfixed32: "number", Sfixed64: "number", Sint32: "number", Sint64: "number"}

func tsElem(t int32, ref string) string {
	switch t {
	case Message, EnumType:
		return GoName(ref)
	}
	return tsScalar[t]
}

// TSType is the field's type without spaces.
func (x *Field) TSType() string {
	switch x.Card {
	case Map:
		return fmt.Sprintf("Map<%s,%s>", tsScalar[x.Key], tsElem(x.Type, x.Ref))
	case Repeated:
		return tsElem(x.Type, x.Ref) + "[]"
	}
	return tsElem(x.Type, x.Ref)
}

// GoPackage is the package clause of the generated file.
func (f *File) GoPackage() string {
	if last := f.Pkg[strings.LastIndexByte(f.Pkg, '.')+1:]; f.Pkg != "" && last != "_" && !token.IsKeyword(last) {
		return last
	}
	return f.GoPkg[strings.LastIndexByte(f.GoPkg, ';')+1:]
}

// Names that Rust code generated without a package must not redefine.
var rustTaken = map[string]bool{}

func init() {
	for _, w := range strings.Fields("Cursor DecodingError Encoder Decoder Kind Encode Decode TryFromPrimitive TryFrom HashMap String Vec Option Result Some None Ok Err Box Copy Clone Debug Eq PartialEq Sized Self") {
		rustTaken[w] = true
	}
}
