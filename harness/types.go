package main

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"pgregory.net/rapid"
)

// ---- Go types made by the generator, and values for them ----

// TSpec describes a Go type.
type TSpec struct {
	K string  `json:"k"`
	E *TSpec  `json:"e,omitempty"`
	N int     `json:"n,omitempty"`
	F []FSpec `json:"f,omitempty"`
}

// FSpec is a field of a struct.
type FSpec struct {
	Name string `json:"name"`
	Tag  string `json:"tag,omitempty"` // content of the json tag
	No   bool   `json:"notag,omitempty"`
	Emb  bool   `json:"emb,omitempty"`
	T    *TSpec `json:"t"`
}

// named types with behaviour

type tStr string
type tInt int32
type tFloat float32
type tBytes []byte
type tByte byte

// types with methods which have no meaning for JSON

type tPtrInt *int
type tPtrStr *string
type tSInt int64
type tSUint uint16
type tSFloat float64
type tSStr string
type tSBool bool
type tSSlice []int8
type tSMap map[string]bool
type tSStruct struct {
	A tSInt `json:",string"`
	B tSStr
}

func (tSInt) String() string                 { return "wrong" }
func (tSInt) Error() string                  { return "wrong" }
func (tSInt) GoString() string               { return "wrong" }
func (tSInt) MarshalBinary() ([]byte, error) { return []byte("wrong"), nil }
func (tSInt) Format(s fmt.State, _ rune)     { _, _ = s.Write([]byte("wrong")) }
func (tSInt) IsZero() bool                   { return true }
func (tSInt) Len() int                       { return 0 }
func (tSUint) String() string                { return "wrong" }
func (tSFloat) String() string               { return "wrong" }
func (tSFloat) Format(s fmt.State, _ rune)   { _, _ = s.Write([]byte("wrong")) }
func (tSStr) String() string                 { return "wrong" }
func (tSStr) Bytes() []byte                  { return []byte("wrong") }
func (tSStr) Error() string                  { return "wrong" }
func (tSBool) String() string                { return "wrong" }
func (tSSlice) String() string               { return "wrong" }
func (tSSlice) Len() int                     { return 1 }
func (tSMap) String() string                 { return "wrong" }
func (tSStruct) String() string              { return "wrong" }
func (tSStruct) IsZero() bool                { return true }
func (tSStruct) Int64() (int64, error)       { return 1, nil }
func (tSStruct) Float64() (float64, error)   { return 1, nil }
func (tSStruct) MarshalYAML() (any, error)   { return 1, nil }
func (*tSStruct) UnmarshalJSON([]byte) error { return errors.New("wrong") }

// tTextVal marshals to text by value.
type tTextVal struct{ S string }

func (x tTextVal) MarshalText() ([]byte, error) {
	if x.S == "error" {
		return nil, errors.New("text error")
	}
	return []byte("t:" + x.S), nil
}

// tTextPtr marshals to text by its pointer.
type tTextPtr struct{ S string }

func (x *tTextPtr) MarshalText() ([]byte, error) { return []byte("p:" + x.S), nil }

// named kinds which marshal by their pointers only
type (
	tPText  string
	tPInt   int
	tPFloat float64
	tPBool  bool
	tPSlice []int
	tPMap   map[string]int
	tPBytes []byte
	tPBoth  int
)

func (x *tPText) MarshalText() ([]byte, error)  { return []byte("text:" + string(*x)), nil }
func (x *tPInt) MarshalJSON() ([]byte, error)   { return []byte(jsonTexts[uint(*x)%8]), nil }
func (x *tPFloat) MarshalText() ([]byte, error) { return []byte("float"), nil }
func (x *tPBool) MarshalJSON() ([]byte, error) {
	return []byte(`{"bool":` + strconv.FormatBool(bool(*x)) + `}`), nil
}
func (x *tPSlice) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(len(*x))), nil }
func (x *tPMap) MarshalText() ([]byte, error)   { return []byte("map" + strconv.Itoa(len(*x))), nil }
func (x *tPBytes) MarshalText() ([]byte, error) { return []byte("bytes:" + strconv.Itoa(len(*x))), nil }
func (x *tPBoth) MarshalJSON() ([]byte, error)  { return []byte(`["json"]`), nil }
func (x tPBoth) MarshalText() ([]byte, error)   { return []byte("text"), nil }

// tTextInt is a key type.
type tTextInt int

func (x tTextInt) MarshalText() ([]byte, error) { return []byte("i" + strconv.Itoa(int(x))), nil }

// tJSONVal marshals to a JSON text by value.
type tJSONVal struct{ R int }

var jsonTexts = []string{`{"x":1,"a":[true,null]}`, `"str"`, `1.5`, `[1]`, `true`, ` [1 , {"b" : "\u4e2d" , "a" : 2}] `, `-7`, `{"k":""}`, `0.5`, `-0.25`, `1e-7`}

func (x tJSONVal) MarshalJSON() ([]byte, error) {
	switch x.R {
	case -1:
		return nil, errors.New("json error")
	case -2:
		return []byte(`{"broken`), nil
	}
	return []byte(jsonTexts[x.R]), nil
}

// tJSONPtr marshals to a JSON text by its pointer.
type tJSONPtr struct{ R int }

func (x *tJSONPtr) MarshalJSON() ([]byte, error) { return []byte(jsonTexts[x.R]), nil }

// tJSONSlice is a slice which is a marshaler.
type tJSONSlice []int

func (x tJSONSlice) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`{"len":%d}`, len(x))), nil
}

// both interfaces: JSON wins
type tBoth struct{ X int }

func (x tBoth) MarshalJSON() ([]byte, error) {
	return []byte(`{"both":` + strconv.Itoa(x.X) + `}`), nil
}
func (x tBoth) MarshalText() ([]byte, error) { return []byte("wrong"), nil }

type embA struct {
	EA int    `json:"ea"`
	EB string `json:"eb"`
	ec int
}

// EmbB is embedded by pointer.
type EmbB struct {
	BX bool
	BY []int
}

// EmbC is embedded with a name.
type EmbC struct{ CX float64 }

type embDeep struct {
	embInner
	D1 int
}

type embInner struct{ D2 string }

// TNum is an embedded non-struct.
type TNum int

type tnum int

type embMap map[string]int

// EmbMap is an embedded map.
type EmbMap map[string]int

// EmbSlice is an embedded slice.
type EmbSlice []int

// embH1 and embH2 are marshalers which are embedded both, so that their methods
// conflict.
type embH1 struct{ H1 int }

func (embH1) MarshalJSON() ([]byte, error) { return []byte(`"h1"`), nil }

type embH2 struct{ H2 int }

func (embH2) MarshalJSON() ([]byte, error) { return []byte(`"h2"`), nil }

// tOuter has all kinds of embedded fields.
type tOuter struct {
	First int
	embA
	*EmbB
	EmbC `json:"named"`
	TNum
	tnum
	EmbSlice
	EmbMap `json:"m"`
	embDeep
	Last   string `json:"last"`
	hidden int
}

type tOuter2 struct {
	*EmbB `json:",omitempty"`
	TNum  `json:"num"`
	embH1
	embH2
	Skip int `json:"-"`
	embMap
}

// Änum is an exported type, though its name does not start with A to Z.
type Änum int

// Öslice is exported, though its name does not start with A to Z.
type Öslice []bool

type tOuter3 struct {
	*EmbC
	*EmbSlice
	Änum
	*Öslice
	*TNum `json:"tn"`
	X     *embA
}

// embedded fields which are no structs
type (
	EmbAny   interface{}
	EmbFloat float64
	EmbBool  bool
	EmbStr   string
	EmbBytes []byte
	EmbArr   [2]float32
	EmbSMap  map[string]any
	embAny   interface{}
)

type tOuter4 struct {
	EmbAny
	EmbFloat
	*EmbBool `json:",omitempty"`
	EmbStr   `json:",omitempty"`
	EmbBytes
	EmbArr
	A int
	embAny
	Deep4
}

type tOuter5 struct {
	EmbAny   `json:",omitempty"`
	EmbFloat `json:"f,omitempty"`
	*EmbStr
	*EmbFloat2 `json:"ff"`
	EmbBool    `json:"-"`
	EmbBytes   `json:",omitempty"`
	EmbArr     `json:"arr,omitempty"`
	EmbSMap    `json:",omitempty"`
	*Deep4
}

// tOuter4s and tOuter5s are the same without omitempty.
type tOuter4s struct {
	EmbAny
	EmbFloat
	*EmbBool
	EmbStr
	EmbBytes
	EmbArr
	A int
	embAny
	Deep4
}

type tOuter5s struct {
	EmbAny
	EmbFloat `json:"f"`
	*EmbStr
	*EmbFloat2 `json:"ff"`
	EmbBool    `json:"-"`
	EmbBytes
	EmbArr `json:"arr"`
	EmbSMap
	*Deep4
}

// EmbFloat2 is embedded by a pointer.
type EmbFloat2 float32

// Deep4 has embedded fields of the same names.
type Deep4 struct {
	EmbFloat
	*EmbStr
	EmbSMap
	EmbAny `json:"any4"`
}

// tShadow has fields which hide each other: by depth, by tag, or both.
type tShadow struct {
	EA string // hides nothing: the embedded one has the name ea
	EB string `json:"eb"`
	BX int
	embA
	*EmbB
	embDeep
	D2 []int
}

type embS1 struct {
	S int `json:"s"`
	T int
	U int `json:"U"`
	Z int
}

type embS2 struct {
	S int `json:"s"`
	T int `json:"T"`
	U int
	W int
}

type embS3 struct {
	embS4
	W string
}

type embS4 struct {
	Z int
	S string `json:"s"`
	Y int
}

// EmbSelf is embedded in itself.
type EmbSelf struct {
	A int
	*EmbSelf
	B *EmbSelf
}

type tShadow2 struct {
	embS1
	*EmbSelf
	embS2
	embS3
	Y chan int `json:"-"`
}

type tShadow3 struct {
	embS4
	*EmbC
	CX  int
	Y   bool
	One int `json:"two"`
	Two int `json:"two"`
	*EmbDup
}

// EmbDup makes names of tShadow3 ambiguous.
type EmbDup struct {
	Z   string
	Fn  func() `json:"CX"`
	Two int    `json:"two"`
}

// tPromoted is a marshaler by an embedded one.
type tPromoted struct {
	tTextVal
	X int
}

// tNode is recursive.
type tNode struct {
	V    int               `json:"v"`
	Next *tNode            `json:"next"`
	Kids []*tNode          `json:"kids"`
	Map  map[string]*tNode `json:"map"`
	Any  any               `json:"any"`
}

type statT struct {
	t       reflect.Type
	ptrRecv bool // contains pointer receivers, so must be addressable
}

var staticTypes = map[string]statT{
	"tStr": {reflect.TypeOf(tStr("")), false}, "tInt": {reflect.TypeOf(tInt(0)), false}, "tFloat": {reflect.TypeOf(tFloat(0)), false},
	"tBytes": {reflect.TypeOf(tBytes(nil)), false}, "tByteSlice": {reflect.TypeOf([]tByte(nil)), false},
	"tTextVal": {reflect.TypeOf(tTextVal{}), false}, "tTextPtr": {reflect.TypeOf(tTextPtr{}), true}, "tTextInt": {reflect.TypeOf(tTextInt(0)), false},
	"tJSONVal": {reflect.TypeOf(tJSONVal{}), false}, "tJSONPtr": {reflect.TypeOf(tJSONPtr{}), true}, "tJSONSlice": {reflect.TypeOf(tJSONSlice(nil)), false},
	"tBoth": {reflect.TypeOf(tBoth{}), false}, "tOuter": {reflect.TypeOf(tOuter{}), false}, "tOuter2": {reflect.TypeOf(tOuter2{}), false}, "tOuter3": {reflect.TypeOf(tOuter3{}), false},
	"tOuter4": {reflect.TypeOf(tOuter4{}), false}, "tOuter5": {reflect.TypeOf(tOuter5{}), false},
	"tShadow": {reflect.TypeOf(tShadow{}), false}, "tShadow2": {reflect.TypeOf(tShadow2{}), false}, "tShadow3": {reflect.TypeOf(tShadow3{}), false},
	"textPtrKey": {reflect.TypeOf((*tTextPtr)(nil)), false}, "textAny": {reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem(), false},
	"tPromoted": {reflect.TypeOf(tPromoted{}), false}, "tNode": {reflect.TypeOf(tNode{}), false},
	"tSInt": {reflect.TypeOf(tSInt(0)), false}, "tSUint": {reflect.TypeOf(tSUint(0)), false}, "tSFloat": {reflect.TypeOf(tSFloat(0)), false}, "tSStr": {reflect.TypeOf(tSStr("")), false}, "tSBool": {reflect.TypeOf(tSBool(false)), false},
	"tSSlice": {reflect.TypeOf(tSSlice(nil)), false}, "tSMap": {reflect.TypeOf(tSMap(nil)), false}, "tSStruct": {reflect.TypeOf(tSStruct{}), false}, "duration": {reflect.TypeOf(time.Duration(0)), false},
	"tPText": {reflect.TypeOf(tPText("")), true}, "tPInt": {reflect.TypeOf(tPInt(0)), true}, "tPFloat": {reflect.TypeOf(tPFloat(0)), true}, "tPBool": {reflect.TypeOf(tPBool(false)), true},
	"tPSlice": {reflect.TypeOf(tPSlice(nil)), true}, "tPMap": {reflect.TypeOf(tPMap(nil)), true}, "tPBytes": {reflect.TypeOf(tPBytes(nil)), true}, "tPBoth": {reflect.TypeOf(tPBoth(0)), true},
	"tPtrInt": {reflect.TypeOf(tPtrInt(nil)), false}, "tPtrStr": {reflect.TypeOf(tPtrStr(nil)), false},
	"time": {reflect.TypeOf(time.Time{}), false}, "bigInt": {reflect.TypeOf((*big.Int)(nil)), false}, "raw": {reflect.TypeOf(json.RawMessage(nil)), false},
	"number": {reflect.TypeOf(json.Number("")), false}, "jv": {reflect.TypeOf((*jv.V)(nil)), false},
	"bool": {reflect.TypeOf(false), false}, "string": {reflect.TypeOf(""), false}, "bytes": {reflect.TypeOf([]byte(nil)), false},
	"int": {reflect.TypeOf(0), false}, "int8": {reflect.TypeOf(int8(0)), false}, "int16": {reflect.TypeOf(int16(0)), false}, "int32": {reflect.TypeOf(int32(0)), false}, "int64": {reflect.TypeOf(int64(0)), false},
	"uint": {reflect.TypeOf(uint(0)), false}, "uint8": {reflect.TypeOf(uint8(0)), false}, "uint16": {reflect.TypeOf(uint16(0)), false}, "uint32": {reflect.TypeOf(uint32(0)), false}, "uint64": {reflect.TypeOf(uint64(0)), false}, "uintptr": {reflect.TypeOf(uintptr(0)), false},
	"float32": {reflect.TypeOf(float32(0)), false}, "float64": {reflect.TypeOf(float64(0)), false},
	"any": {reflect.TypeOf((*any)(nil)).Elem(), false}, "chan": {reflect.TypeOf((chan int)(nil)), false}, "func": {reflect.TypeOf((func())(nil)), false}, "complex": {reflect.TypeOf(complex64(0)), false},
}

// types whose tags have omitempty, without it
var stripped = map[string]reflect.Type{"tOuter4": reflect.TypeOf(tOuter4s{}), "tOuter5": reflect.TypeOf(tOuter5s{})}

var basicKinds = []string{
	"bool", "string", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "float64",
}

var namedKinds = []string{
	"tStr", "tInt", "tFloat", "tBytes", "tByteSlice", "tTextVal", "tTextPtr", "tTextInt", "tJSONVal", "tJSONPtr", "tJSONSlice", "tBoth", "tOuter", "tOuter2", "tOuter3", "tOuter4", "tOuter5", "tShadow", "tShadow2", "tShadow3", "tPromoted", "tNode",
	"time", "bigInt", "raw", "number", "number", "jv", "bytes", "bytes",
	"tSInt", "tSUint", "tSFloat", "tSStr", "tSBool", "tSSlice", "tSMap", "tSStruct", "duration",
	"tPtrInt", "tPtrStr",
	"tPText", "tPInt", "tPFloat", "tPBool", "tPSlice", "tPMap", "tPBytes", "tPBoth",
}

var mapKinds = []string{"map", "map", "map:int", "map:int8", "map:uint16", "map:int64", "map:tStr", "map:tTextInt", "map:tTextVal", "map:uint64", "map:textPtrKey", "map:textAny", "map:uintptr", "map:tSInt", "map:tSStr",
	"map:int16", "map:int32", "map:uint", "map:uint8", "map:uint32", "map:tSUint"}

// exported type only in interface-free decoding targets
var decodeKinds = []string{"tStr", "tInt", "tFloat", "tBytes", "number", "bytes", "raw", "jv", "time"}

func (s *TSpec) goType(strip bool) reflect.Type {
	if st, ok := staticTypes[s.K]; ok {
		if t := stripped[s.K]; strip && t != nil {
			return t
		}
		return st.t
	}
	switch {
	case s.K == "ptr":
		return reflect.PointerTo(s.E.goType(strip))
	case s.K == "slice":
		return reflect.SliceOf(s.E.goType(strip))
	case s.K == "array":
		return reflect.ArrayOf(s.N, s.E.goType(strip))
	case s.K == "map":
		return reflect.MapOf(reflect.TypeOf(""), s.E.goType(strip))
	case strings.HasPrefix(s.K, "map:"):
		return reflect.MapOf(staticTypes[s.K[4:]].t, s.E.goType(strip))
	case s.K == "struct":
		var fs []reflect.StructField
		for _, f := range s.F {
			sf := reflect.StructField{Name: f.Name, Type: f.T.goType(strip), Anonymous: f.Emb}
			if !f.No {
				tag := f.Tag
				if strip {
					if tag = strings.ReplaceAll(tag, ",omitempty", ""); tag == "-" && f.Tag != "-" {
						tag = "-,"
					}
				}
				sf.Tag = reflect.StructTag(`xml:"x" json:` + strconv.Quote(tag) + ` yaml:"y,omitempty"`)
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	harnessBug("type kind %q", s.K)
	return nil
}

// typeGen draws types.
type typeGen struct {
	t       *rapid.T
	n       int // fields made
	used    map[string]bool
	budget  int
	decode  bool // only types which decode unambiguously
	invalid bool // unsupported types allowed
}

var tagNames = []string{"a", "name", "x_y", "k", "UP", "a b", "é", "中文", "!#$%&()*+-./:;<=>?@[]^_{|}~z", "0", "null", "<b>", "a/b", "a.b"}

func (g *typeGen) typ(depth int, noaddr bool) *TSpec {
	t := g.t
	g.budget--
	c := pick(t, 20)
	if depth <= 0 || g.budget <= 0 {
		c = pick(t, 10)
	}
	switch {
	case c < 6:
		return &TSpec{K: of(t, basicKinds)}
	case c < 9:
		if g.decode {
			return &TSpec{K: of(t, decodeKinds)}
		}
		k := of(t, namedKinds)
		if noaddr && staticTypes[k].ptrRecv {
			return &TSpec{K: "ptr", E: &TSpec{K: k}}
		}
		return &TSpec{K: k}
	case c < 10:
		if g.invalid && chance(t, 10) {
			return &TSpec{K: of(t, []string{"chan", "func", "complex"})}
		}
		return &TSpec{K: "any"}
	case c < 12:
		return &TSpec{K: "ptr", E: g.typ(depth-1, false)}
	case c < 14:
		return &TSpec{K: "slice", E: g.typ(depth-1, false)}
	case c < 15:
		n := pick(t, 4)
		if chance(t, 5) {
			n = of(t, []int{9, 17, 33, 65})
		}
		return &TSpec{K: "array", N: n, E: g.typ(depth-1, noaddr)}
	case c < 17:
		k := of(t, mapKinds)
		if g.decode && (strings.Contains(k, "Text") || strings.Contains(k, "text") || strings.HasSuffix(k, "ptr")) {
			k = "map"
		}
		return &TSpec{K: k, E: g.typ(depth-1, true)}
	default:
		return g.structT(depth, noaddr)
	}
}

func (g *typeGen) structT(depth int, noaddr bool) *TSpec {
	t := g.t
	s := &TSpec{K: "struct"}
	n := in(t, 0, 5)
	if chance(t, 1) {
		n = of(t, []int{9, 17, 33, 65, 66, 129})
	}
	for i := 0; i < n; i++ {
		f := FSpec{Name: fmt.Sprintf("F%d", g.n)}
		g.n++
		if !g.decode && chance(t, 15) { // the same name as elsewhere
			name := fmt.Sprintf("F%d", pick(t, g.n))
			if !slices.ContainsFunc(s.F, func(x FSpec) bool { return x.Name == name }) {
				f.Name = name
			}
		}
		if depth > 1 && chance(t, 12) { // an embedded struct
			f.Emb = true
			f.T = g.structT(depth-1, noaddr)
			if chance(t, 30) {
				f.T, f.No = g.ptrTo(f.T), true
			} else if chance(t, 30) {
				f.Tag = of(t, []string{",omitempty", "emb" + f.Name, ""})
			} else {
				f.No = true
			}
			s.F = append(s.F, f)
			continue
		}
		f.T = g.typ(depth-1, noaddr)
		switch c := pick(t, 10); {
		case c < 3:
			f.No = true
		case c < 4 && !g.used["-"]:
			f.Tag = "-"
			if coin(t) {
				f.Tag = of(t, []string{"-,", "-,omitempty"})
				g.used["-"] = true
			}
		default:
			name := ""
			if chance(t, 70) {
				name = of(t, tagNames)
				if g.used[strings.ToLower(name)] && (g.decode || chance(t, 70)) {
					name = ""
				}
				if !g.decode && chance(t, 5) {
					name = fmt.Sprintf("F%d", pick(t, g.n))
				}
				g.used[strings.ToLower(name)] = true
			}
			f.Tag = name
			for k := in(t, 0, 2); k > 0; k-- {
				o := of(t, []string{",omitempty", ",omitempty", ",string", ",string", ",foo"})
				if o == ",string" && strings.HasPrefix(f.T.K, "tPtr") {
					o = ",foo" // versions of encoding/json differ
				}
				if g.decode && (!slices.Contains(basicKinds, f.T.K) || f.T.K == "string" && o == ",string") {
					o = ",bar" // P14 is about these, and encoding/json has its own ways to decode them
				}
				f.Tag += o
			}
		}
		s.F = append(s.F, f)
	}
	return s
}

func (g *typeGen) ptrTo(s *TSpec) *TSpec { return &TSpec{K: "ptr", E: s} }

func (s *TSpec) walk(f func(*TSpec)) {
	if s == nil {
		return
	}
	f(s)
	s.E.walk(f)
	for _, x := range s.F {
		x.T.walk(f)
	}
}

// filler makes values from bytes; once they are used up, all values are zero.
type filler struct {
	b      []byte
	i      int
	noNil  bool // nil slices become empty ones
	maps   bool // a map with two entries or more was made
	simple bool // no values which fail
	depth  int
	long   int // the number of elements of the first slice or map
	loops  int // so often, the bytes are read again
}

// length is the number of elements to make, from what was read for it.
func (f *filler) length(k int) int {
	if f.long > 0 {
		k, f.long, f.loops = f.long, 0, 20
	}
	return k
}

func (f *filler) n(n int) int {
	if f.i >= len(f.b) && f.loops > 0 && len(f.b) > 8 {
		f.loops--
		f.i = 0
	}
	if f.i >= len(f.b) {
		return 0
	}
	x := int(f.b[f.i])
	f.i++
	return x % n
}

func (f *filler) left() bool { return f.i < len(f.b) }

var fillInts = []int64{0, 1, -1, 2, 7, 100, 127, -128, 255, 32767, -32768, 65535, 1 << 31, -(1 << 31), 1<<53 + 1, math.MaxInt64, math.MinInt64}
var fillUints = []uint64{0, 1, 2, 9, 200, 255, 256, 65535, 65536, 1 << 32, 1<<53 + 1, 1 << 63, math.MaxUint64}
var fillFloats = []float64{0, 1, -1, 0.5, 0.1, -2.25, 1e-7, 1e-6, 1e20 + 0.5e5, 1e21, 1e300, 5e-324, 123456.789, math.MaxFloat32, 3.0000001, 1.1e-45, math.Copysign(0, -1), 1e-9, 4503599627370497.5}
var fillStrs = []string{"", "a", "hello", "<é\"\\/>", "中文", "😀", "\x00\n\x7f", "\u2028", "null", "12", "true", "bad\xffutf8", "\xed\xa0\x80"}
var fillNums = []string{"0", "1", "-5", "1.50", "1e3", "18446744073709551615", "-9223372036854775808", "0.1E-5", "-0", ""}
var badNums = []string{"abc", "01", "1 ", "NaN", "+1", "\"1\"", "1.", "null"}
var fillTimes = []time.Time{{}, time.Unix(0, 0).UTC(), time.Date(2024, 2, 29, 23, 59, 59, 123456789, time.FixedZone("", 8*3600)), time.Date(9999, 12, 31, 0, 0, 0, 1, time.UTC)}

// how a field is encoded
type how struct {
	nonEmpty bool // omitempty on a marshaler: no empty results
}

func (f *filler) fill(v reflect.Value, h how) {
	t := v.Type()
	if !v.CanSet() {
		if t.Kind() == reflect.Struct {
			f.fillStruct(v)
		}
		return
	}
	pos := func(n int) int { // 1..n-1 if an empty value is unwanted
		if h.nonEmpty {
			return 1 + f.n(n-1)
		}
		return f.n(n)
	}
	switch t {
	case staticTypes["time"].t:
		v.Set(reflect.ValueOf(fillTimes[f.n(len(fillTimes))]))
		return
	case staticTypes["bigInt"].t:
		if k := pos(5); k > 0 {
			v.Set(reflect.ValueOf(big.NewInt(int64(k * 1000003))))
		}
		return
	case staticTypes["raw"].t:
		k := pos(len(jsonTexts) + 3)
		switch {
		case k == 0:
			v.Set(reflect.Zero(t))
		case k <= len(jsonTexts):
			v.SetBytes([]byte(jsonTexts[k-1]))
		case f.simple || k == len(jsonTexts)+1:
			v.SetBytes([]byte(`{"z":[1,{"y":"\/"}]}`))
		default:
			if f.n(4) == 1 {
				v.SetBytes([]byte(`{"x"`))
			} else {
				v.SetBytes([]byte(`"\ud83d\ude00"`))
			}
		}
		return
	case staticTypes["number"].t:
		if !f.simple && f.n(40) == 39 {
			v.SetString(badNums[f.n(len(badNums))])
		} else {
			v.SetString(fillNums[f.n(len(fillNums))])
		}
		return
	case staticTypes["jv"].t:
		if k := f.n(8); k > 0 {
			j := f.model(2)
			v.Set(reflect.ValueOf(Build(j)))
			if !f.simple && f.n(30) == 29 {
				v.Set(reflect.ValueOf(&jv.V{}))
			}
		}
		return
	case staticTypes["tTextVal"].t:
		s := fillStrs[f.n(8)]
		if !f.simple && f.n(50) == 49 {
			s = "error"
		}
		v.Field(0).SetString(s)
		return
	case staticTypes["tTextPtr"].t:
		v.Field(0).SetString(fillStrs[f.n(8)])
		return
	case staticTypes["tPText"].t, staticTypes["tPInt"].t, staticTypes["tPFloat"].t, staticTypes["tPBool"].t, staticTypes["tPSlice"].t, staticTypes["tPMap"].t, staticTypes["tPBytes"].t, staticTypes["tPBoth"].t:
		switch k := pos(7); t.Kind() {
		case reflect.String:
			v.SetString(fillStrs[k])
		case reflect.Int:
			v.SetInt(int64(k))
		case reflect.Float64:
			v.SetFloat(float64(k) / 2)
		case reflect.Bool:
			v.SetBool(k > 0)
		case reflect.Slice:
			if k > 0 || f.noNil {
				v.Set(reflect.MakeSlice(t, k, k))
			}
		default:
			if k > 0 || f.noNil {
				v.Set(reflect.MakeMap(t))
			}
			for ; k > 0; k-- {
				v.SetMapIndex(reflect.ValueOf(strconv.Itoa(k)), reflect.ValueOf(k))
			}
		}
		return
	case staticTypes["tTextInt"].t, staticTypes["tJSONSlice"].t:
		k := pos(6)
		if t.Kind() == reflect.Int {
			v.SetInt(int64(k))
		} else if k > 0 {
			v.Set(reflect.MakeSlice(t, k, k))
		}
		return
	case staticTypes["tJSONVal"].t, staticTypes["tJSONPtr"].t:
		v.Field(0).SetInt(int64(f.n(len(jsonTexts))))
		if t == staticTypes["tJSONVal"].t && !f.simple && f.n(40) == 39 {
			v.Field(0).SetInt(-1 - int64(f.n(2)))
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(f.n(2) == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := fillInts[f.n(len(fillInts))]
		v.SetInt(x << (64 - uint(t.Bits())) >> (64 - uint(t.Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x := fillUints[f.n(len(fillUints))]
		v.SetUint(x << (64 - uint(t.Bits())) >> (64 - uint(t.Bits())))
	case reflect.Float32, reflect.Float64:
		x := fillFloats[f.n(len(fillFloats))]
		if !f.simple && f.n(40) == 39 {
			x = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[f.n(3)]
		}
		if t.Kind() == reflect.Float32 && math.Abs(x) > math.MaxFloat32 && !math.IsInf(x, 0) {
			x = 1.5
		}
		v.SetFloat(x)
	case reflect.String:
		v.SetString(fillStrs[f.n(len(fillStrs))])
	case reflect.Interface:
		f.fillAny(v)
	case reflect.Ptr:
		if f.depth > 6 || f.n(5) == 0 {
			return
		}
		f.depth++
		v.Set(reflect.New(t.Elem()))
		f.fill(v.Elem(), h)
		f.depth--
	case reflect.Slice:
		k := f.length(f.n(7))
		if f.depth > 6 && k > 1 {
			k = 1
		}
		if k == 0 {
			if f.noNil {
				v.Set(reflect.MakeSlice(t, 0, 0))
			}
			return
		}
		k-- // 0..5 elements
		v.Set(reflect.MakeSlice(t, k, k+f.n(3)))
		f.depth++
		for i := 0; i < k; i++ {
			f.fill(v.Index(i), how{})
		}
		f.depth--
	case reflect.Array:
		f.depth++
		for i := 0; i < v.Len(); i++ {
			f.fill(v.Index(i), how{})
		}
		f.depth--
	case reflect.Map:
		k := f.length(f.n(6))
		if f.depth > 6 && k > 1 {
			k = 1
		}
		if k == 0 {
			return
		}
		v.Set(reflect.MakeMap(t))
		f.depth++
		for i := 1; i < k; i++ {
			key := reflect.New(t.Key()).Elem()
			simple := f.simple
			f.simple = true
			if f.fillKey(key, i); i > 6 && key.Kind() == reflect.String {
				key.SetString(strconv.Itoa(i))
			}
			f.simple = simple
			if !f.simple && f.n(30) == 29 { // a key which fails
				switch fails := reflect.ValueOf(tTextVal{"error"}); key.Kind() {
				case reflect.Struct, reflect.Interface:
					if fails.Type().AssignableTo(key.Type()) {
						key.Set(fails)
					}
				}
			}
			val := reflect.New(t.Elem()).Elem()
			f.fill(val, how{})
			v.SetMapIndex(key, val)
		}
		f.depth--
		if v.Len() > 1 {
			f.maps = true
		}
	case reflect.Struct:
		f.fillStruct(v)
	case reflect.Chan, reflect.Func, reflect.Complex64:
	default:
		harnessBug("cannot fill %v", t)
	}
}

func (f *filler) fillKey(v reflect.Value, i int) {
	switch v.Kind() {
	case reflect.Ptr: // no two with the same text
		if f.n(5) > 0 {
			v.Set(reflect.ValueOf(&tTextPtr{strconv.Itoa(i)}))
		}
		return
	case reflect.Interface:
		if coin := f.n(3); coin == 0 {
			v.Set(reflect.ValueOf(tTextInt(i)))
		} else if coin == 1 {
			v.Set(reflect.ValueOf(&tTextPtr{strconv.Itoa(i)}))
		} else {
			v.Set(reflect.ValueOf(tTextVal{strconv.Itoa(i)}))
		}
		return
	}
	if v.Kind() == reflect.String {
		v.SetString(fillStrs[f.n(10)])
		return
	}
	f.fill(v, how{})
}

func (f *filler) fillStruct(v reflect.Value) {
	t := v.Type()
	f.depth++
	for i := 0; i < t.NumField(); i++ {
		tag := t.Field(i).Tag.Get("json")
		f.fill(v.Field(i), how{
			nonEmpty: strings.Contains(t.Field(i).Tag.Get("yaml"), ",omitempty") || strings.Contains(tag, ",omitempty"),
		})
	}
	f.depth--
}

// fillAny sets an interface.
func (f *filler) fillAny(v reflect.Value) {
	if f.depth > 6 {
		return
	}
	f.depth++
	defer func() { f.depth-- }()
	var x any
	mk := func(p any) { // fill what p points to
		f.fill(reflect.ValueOf(p).Elem(), how{})
		x = reflect.ValueOf(p).Elem().Interface()
	}
	switch f.n(24) {
	case 0:
		return
	case 1:
		mk(new(bool))
	case 2, 3:
		mk(new(int64))
	case 4:
		mk(new(float64))
	case 5, 6:
		mk(new(string))
	case 7, 8:
		mk(new([]any))
	case 9, 10:
		mk(new(map[string]any))
	case 11:
		mk(new([]byte))
	case 12:
		mk(new(*int))
	case 13:
		mk(new(tJSONVal))
	case 14:
		mk(new(time.Time))
	case 15:
		mk(new(*jv.V))
	case 16:
		mk(new(json.Number))
	case 17:
		mk(new([2]int8))
	case 18:
		mk(new(map[int]string))
	case 19:
		mk(new(*tTextPtr))
	case 20:
		mk(new(*tNode))
	case 21:
		mk(new(tOuter))
	case 22:
		mk(new(*any))
	case 23:
		mk(new(uint8))
	}
	v.Set(reflect.ValueOf(x))
}

// model makes a JSON value of bytes.
func (f *filler) model(depth int) *J {
	k := f.n(9)
	if depth <= 0 && k > 5 {
		k -= 4
	}
	switch k {
	case 0:
		return jNull()
	case 1, 2:
		return jBool(k == 1)
	case 3:
		return jNum(fillNums[f.n(len(fillNums)-1)])
	case 4, 5:
		return jStr(fillStrs[f.n(10)])
	case 6:
		j := jArr()
		for n := f.n(4); n > 0; n-- {
			j.A = append(j.A, f.model(depth-1))
		}
		return j
	default:
		j := jObj()
		for n := f.n(4); n > 0; n-- {
			j.set([]string{"a", "b", "é", "", "x/y"}[f.n(5)], f.model(depth-1))
		}
		if len(j.O) > 1 {
			f.maps = true // the text of an embedded *V has no fixed key order
		}
		return j
	}
}
