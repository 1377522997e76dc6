package main

import (
	"math/big"
	"net"
	"net/url"
	"sync"
	"unsafe"

	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
	"pgregory.net/rapid"
)

// ---- P27: no call panics, missing values are safe ----

// apiStep is a call of any method of *V, then maybe of a method of what it returns.
type apiStep struct {
	H  []Step `json:",omitempty"`
	M  string
	A  []int  `json:",omitempty"`
	M2 string `json:",omitempty"`
	A2 []int  `json:",omitempty"`
}

type apiCase struct {
	Root  int
	Doc   *J
	Form  int
	Steps []apiStep
	Pkg   []int `json:",omitempty"` // arguments of the functions of the packages
}

var (
	typV    = reflect.TypeOf(&jv.V{})
	typErr  = reflect.TypeOf((*error)(nil)).Elem()
	typOpts = reflect.TypeOf([]jv.Option{})
)

var apiMethods = func() []string {
	var res []string
	for i := 0; i < typV.NumMethod(); i++ {
		res = append(res, typV.Method(i).Name)
	}
	sort.Strings(res)
	return res
}()

// chained lists the methods of an interface which *V's methods return.
func chained(name string) []string {
	m, ok := typV.MethodByName(name)
	if !ok || m.Type.NumOut() != 1 {
		return nil
	}
	out := m.Type.Out(0)
	if out.Kind() != reflect.Interface || out == typErr {
		return nil
	}
	var res []string
	for i := 0; i < out.NumMethod(); i++ {
		if out.Method(i).PkgPath == "" {
			res = append(res, out.Method(i).Name)
		}
	}
	return res
}

// heavy methods come in many typed variants, so they are drawn less often.
func genMethod(t *rapid.T) string {
	m := of(t, apiMethods)
	if strings.HasPrefix(m, "Must") && coin(t) {
		m = of(t, apiMethods)
	}
	return m
}

func genAPI(t *rapid.T) apiCase {
	c := apiCase{Form: pick(t, 5)}
	if chance(t, 25) {
		c.Root = in(t, 1, 7)
	}
	d := docOpt{depth: 2, special: true, root: of(t, []Kind{KObj, KObj, KArr, KArr, 0})}
	c.Doc = genDoc(t, d)
	if c.Form == 1 { // text cannot have them
		c.Doc = noSpecial(c.Doc)
	}
	if chance(t, 40) {
		c.Pkg = rapid.SliceOfN(rapid.IntRange(0, 999), 1, 4).Draw(t, "pkg")
	}
	args := func() []int { return rapid.SliceOfN(rapid.IntRange(0, 999), 0, 5).Draw(t, "args") }
	n := in(t, 1, of(t, []int{3, 8, 20}))
	for i := 0; i < n; i++ {
		s := apiStep{M: genMethod(t), A: args()}
		if ms := chained(s.M); ms != nil {
			s.M2, s.A2 = of(t, ms), args()
		}
		if c.Root == 0 && chance(t, 40) {
			s.H = genPath(t, c.Doc, 2, 0)
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func noSpecial(j *J) *J {
	j = j.clone()
	j.walk(func(x *J, _ int) {
		if x.K == KNaN || x.K == KPInf || x.K == KNInf {
			*x = *jNum("1.5")
		}
	})
	return j
}

type oddStruct struct {
	A int
	B *oddStruct
	c chan int
}

type badMarshaler struct{}

func (badMarshaler) MarshalJSON() ([]byte, error) { return nil, errors.New("no") }

type badText struct{}

func (badText) MarshalText() ([]byte, error) { return nil, errors.New("no") }

type junkMarshaler struct{}

func (junkMarshaler) MarshalJSON() ([]byte, error) { return []byte("{"), nil }

// anyArg is an argument of type any: a key, an index, a value, or something odd.
func anyArg(n int) any {
	keys := []any{"", "a", "b", "0", "key", "é", namedKey("a"), "\xff"}
	if n < 250 {
		return keys[n%len(keys)]
	}
	if n < 450 {
		i := n%8 - 3
		switch n % 5 {
		case 0:
			return int8(i)
		case 1:
			return int64(i)
		case 2:
			if i >= 0 {
				return uint(i)
			}
		}
		return i
	}
	if n < 600 {
		return []func() any{
			func() any { return jv.NewInt(n) },
			func() any { return jv.NewObject(jv.M{"a": 1, "b": nil}) },
			func() any { return jv.MustUnmarshalString(`[1,{"a":[]},"x"]`) },
			func() any { return map[string]any{"a": []any{1, "b"}} },
			func() any { return []int{1, 2} },
			func() any { return 1.5 },
			func() any { return true },
			func() any { return nil },
		}[n%8]()
	}
	five := 5
	odd := []any{
		math.MaxInt64, math.MinInt64, uint64(math.MaxUint64), uint64(1) << 63, int32(math.MinInt32), math.NaN(), math.Inf(-1),
		float32(1), 2.0, struct{}{}, oddStruct{}, &oddStruct{B: &oddStruct{}}, (*oddStruct)(nil), make(chan int), func() {},
		complex(1, 2), map[float64]int{1: 1}, map[bool]int{}, map[any]any{"a": 1}, []any{make(chan int)}, [2]int{}, []any(nil),
		map[string]int(nil), (*jv.V)(nil), &jv.V{}, []*jv.V{nil}, []*jv.V{{}}, struct{ V *jv.V }{}, struct{ V jv.V }{}, jv.V{},
		[]byte("abc"), []byte(nil), json.Number("1"), json.Number("x"), json.RawMessage("{}"), json.RawMessage("{"), json.RawMessage(nil),
		badMarshaler{}, badText{}, junkMarshaler{}, map[badText]int{{}: 1}, errors.New("e"), error(nil), time.Second, time.Time{}, reflect.ValueOf(1),
		new(any), &five, uintptr(3), rune('a'), []any{"a", 0}, []string{"a"}, []int{}, []any{}, []any{1.5}, [][]any{{"a"}}, nil, jv.NotExist,
		any(jv.Option(nil)), new(*int), jv.Key{}, &jv.Key{},
		[0]string{}, [0]int{}, [0]any{}, [1]string{"a"}, [1]any{nil}, [2]any{"a", 0}, [1][]any{{"a"}}, [][]any{}, []any{[]any{}}, [][0]int{{}}, &[1]string{"a"},
		myStrings{"a"}, myStrings(nil), myString("a"), myInt(-1), (*int)(nil), (*string)(nil), []*string{nil}, [0]func(){}, []struct{}{{}}, []error{nil}, []byte{}, [0]byte{}, [2]byte{},
		map[string]*jv.V{"a": nil}, map[string]jv.V{"a": {}}, []jv.V{{}}, [1]*jv.V{}, sync.Mutex{}, &sync.Map{}, reflect.TypeOf(1), struct{ error }{}, struct{ E error }{}, struct{ F func() }{},
		unsafe.Pointer(nil), new(any), big.NewInt(1), (*big.Int)(nil), big.Int{}, net.IP{}, url.URL{}, &url.URL{}, []any{nil, nil}, map[int]any{0: nil},
	}
	return odd[n%len(odd)]
}

type myStrings []myString

// argFor makes an argument of the given type.
func argFor(typ reflect.Type, n int) reflect.Value {
	v := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.Interface:
		if x := anyArg(n); x != nil && typ.NumMethod() == 0 {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.String:
		v.SetString([]string{"", "a", "é\x00", "\xff\xfe", strings.Repeat("x", 40)}[n%5])
	case reflect.Bool:
		v.SetBool(n%2 == 0)
	case reflect.Int, reflect.Int32, reflect.Int64:
		v.SetInt([]int64{0, 1, -1, math.MaxInt32, math.MinInt32, 7}[n%6])
	case reflect.Uint, reflect.Uint32, reflect.Uint64:
		v.SetUint([]uint64{0, 1, 2, math.MaxUint32, 7}[n%5])
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{0, 1.5, -2, math.NaN(), math.Inf(1), math.Inf(-1), 1e38}[n%7])
	case reflect.Func:
		if n%4 == 0 {
			return v // nil
		}
		calls := 0
		return reflect.MakeFunc(typ, func([]reflect.Value) []reflect.Value {
			calls++
			return []reflect.Value{reflect.ValueOf((n*7+calls*5)%3 != 0)}
		})
	case reflect.Slice: // only []byte
		switch n % 6 {
		case 0:
			return v
		case 1:
			v.SetBytes([]byte{})
		case 2:
			v.SetBytes([]byte(`{"a":[1,null,{"b":"x"}],"":2}`))
		case 3:
			v.SetBytes([]byte(`[1,2`))
		case 4:
			v.SetBytes([]byte{0, 255})
		default:
			v.SetBytes([]byte(`"text"`))
		}
	case reflect.Pointer:
		if typ == typV {
			x := []*jv.V{nil, {}, jv.NewInt(n), jv.NewObject(), jv.NewString("s"), jv.NewFloat64(math.NaN()), jv.MustUnmarshalString(`{"a":[1]}`)}[n%7]
			return reflect.ValueOf(x)
		}
		harnessBug("argument of type %v", typ)
	default:
		harnessBug("argument of type %v", typ)
	}
	return v
}

var apiOpts = []jv.Option{
	jv.OptUTF8(), jv.OptOmitNull(true), jv.OptSetSequence(), jv.OptDefaultStringSequence(), jv.OptKeySequence([]string{"b", "a"}),
	jv.OptIndent("", " "), jv.OptFloatNaNToNull(), jv.OptFloatInfToStringInf(), jv.OptEscapeHTML(false), jv.OptEscapeSlash(false),
	jv.OptKeySequenceWithLessFunc(nil), jv.OptFloatNaNToFloat(math.NaN()), jv.OptFloatInfToFloat(0), jv.OptKeySequence(nil), jv.Opt{},
	jv.OptFloatNaNToString(""), jv.OptFloatInfToString("", ""), jv.OptIgnoreOmitempty(), jv.OptFloatNaNToStringNaN(), jv.OptFloatInfToNull(),
}

func callArgs(f reflect.Value, ns []int) []reflect.Value {
	t := f.Type()
	i := 0
	next := func() int {
		if i < len(ns) {
			i++
			return ns[i-1]
		}
		return 1
	}
	var res []reflect.Value
	for k := 0; k < t.NumIn(); k++ {
		if t.IsVariadic() && k == t.NumIn()-1 {
			for i < len(ns) {
				n := next()
				if t.In(k) == typOpts {
					res = append(res, reflect.ValueOf(apiOpts[n%len(apiOpts)]))
				} else {
					res = append(res, argFor(t.In(k).Elem(), n))
				}
			}
			break
		}
		res = append(res, argFor(t.In(k), next()))
	}
	return res
}

func changes(m string) bool {
	for _, p := range []string{"Set", "MustSet", "Append", "MustAppend", "Insert", "MustInsert", "Delete", "MustDelete", "At", "Unmarshal", "Sort"} {
		if strings.HasPrefix(m, p) {
			return true
		}
	}
	return false
}

func describeArgs(in []reflect.Value) string {
	var l []string
	for _, x := range in {
		if x.Kind() == reflect.Interface && !x.IsNil() {
			x = x.Elem()
		}
		s := "nil"
		if x.IsValid() {
			s = x.Type().String()
			switch x.Kind() {
			case reflect.Chan, reflect.Func, reflect.Pointer:
			default:
				if x.CanInterface() {
					s = fmt.Sprintf("%s(%v)", s, x.Interface())
				}
			}
		}
		l = append(l, s)
	}
	return strings.Join(l, ", ")
}

func checkAPI(c apiCase, st *Stat) error {
	var v *jv.V
	var err error
	switch c.Root {
	case 0:
		v, err = originV(c.Doc, c.Form)
	case 1:
		v = &jv.V{}
	case 2:
		v = jv.MustUnmarshalString("{")
	case 3:
		v = jv.NewObject().MustGet("x", 0)
	case 4:
		v, _ = jv.NewArray().Set(1).At("x")
	case 5:
		v = jv.New(make(chan int))
	case 6:
		v, _ = jv.NewInt(1).Append(1).InTheEnd()
	default:
		v = jv.NewObject().Caseless().MustGet("x")
	}
	if err != nil {
		return errf("%v: %v", c.Doc, err)
	}
	if v == nil {
		return errf("a failing call returns a nil *V")
	}
	if c.Root > 0 {
		st.NT()
		if err := checkMissing(v); err != nil {
			return errf("value which does not exist (kind %d): %v", c.Root, err)
		}
	}
	for _, n := range c.Pkg {
		if err := checkPkg(v, n); err != nil {
			return err
		}
	}
	for i, s := range c.Steps {
		h := v
		if len(s.H) > 0 {
			ps := params(s.H)
			if h, err = v.Get(ps[0], ps[1:]...); err != nil {
				h = v
			}
		}
		var before *J
		if !isNotExist(v) {
			if before, err = Read(v); err != nil {
				return errf("step %d: before: %v", i, err)
			}
		}
		f := reflect.ValueOf(h).MethodByName(s.M)
		if !f.IsValid() {
			harnessBug("no method %s", s.M)
		}
		what, out := "", []reflect.Value(nil)
		perr := func() (perr error) {
			defer func() {
				if r := recover(); r != nil {
					if he, ok := r.(harnessError); ok {
						panic(he)
					}
					perr = errf("panic: %v", r)
				}
			}()
			in := callArgs(f, s.A)
			what = fmt.Sprintf("step %d, %s(%s)", i, s.M, describeArgs(in))
			out = f.Call(in)
			if s.M2 != "" {
				if len(out) != 1 || out[0].IsNil() {
					return errf("returns nil")
				}
				g := out[0].MethodByName(s.M2)
				in := callArgs(g, s.A2)
				what += fmt.Sprintf(".%s(%s)", s.M2, describeArgs(in))
				out = g.Call(in)
			}
			return nil
		}()
		what += fmt.Sprintf(" on %v", before)
		if perr != nil {
			return errf("%s: %v", what, perr)
		}
		failed := false
		if n := len(out); n > 0 && out[n-1].Type() == typErr && !out[n-1].IsNil() {
			failed = true
		}
		mayMiss := strings.HasPrefix(s.M, "Must") || strings.HasPrefix(s.M2, "Must")
		if i, ok := map[bool]string{true: s.M2, false: s.M}[s.M2 != ""], true; ok {
			if err := checkOut(i, out, failed, mayMiss); err != nil {
				return errf("%s: %v", what, err)
			}
		}
		if failed {
			st.Label("error")
		} else {
			st.Label("no error")
			st.NT()
		}
		if s.M == "Export" || len(out) == 0 && !changes(s.M) {
			st.Label(s.M)
		}
		// what the call may have done
		mutating := changes(s.M) || strings.HasPrefix(s.M2, "Delete") || strings.HasPrefix(s.M2, "MustDelete")
		if before == nil {
			if strings.HasPrefix(s.M, "Unmarshal") && !failed {
				if _, err := Read(v); err != nil {
					return errf("%s: %v", what, err)
				}
			} else if !isNotExist(v) {
				return errf("%s: the value which did not exist is now %v", what, v)
			}
			continue
		}
		if !mutating || failed {
			if err := expectV(what+" (a read or an error): the value", v, before, cmpOpt{order: true}); err != nil {
				return err
			}
			continue
		}
		after, err := Read(v)
		if err != nil {
			return errf("%s: afterwards: %v", what, err)
		}
		b, err := v.Marshal(jv.OptFloatNaNToNull(), jv.OptFloatInfToNull(), jv.OptUTF8())
		if err != nil || !json.Valid(b) {
			return errf("%s: afterwards it marshals as %q (%v)", what, b, err)
		}
		if after.size() > 400 {
			break
		}
	}
	return nil
}

// genFewMethods draws a case with calls of few methods.
func genFewMethods(t *rapid.T, methods []string) apiCase {
	c := genAPI(t)
	c.Root = 0
	for i := range c.Steps {
		s := &c.Steps[i]
		s.M = of(t, methods)
		s.M2, s.A2 = "", nil
		if ms := chained(s.M); ms != nil {
			s.M2, s.A2 = of(t, ms), rapid.SliceOfN(rapid.IntRange(0, 999), 0, 5).Draw(t, "args")
		}
	}
	return c
}

// apiTrace tells what the calls of a case give and what they leave, up to the order of
// keys.
func apiTrace(c apiCase) (trace []string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			err = errf("after %q: panic: %v", trace, r)
		}
	}()
	v, err := originV(c.Doc, c.Form)
	if err != nil {
		return nil, errf("%v: %v", c.Doc, err)
	}
	for _, n := range c.Pkg {
		if err := checkPkg(v, n); err != nil {
			return trace, err
		}
	}
	for _, s := range c.Steps {
		h := v
		if len(s.H) > 0 {
			ps := params(s.H)
			if h, err = v.Get(ps[0], ps[1:]...); err != nil {
				h = v
			}
		}
		f := reflect.ValueOf(h).MethodByName(s.M)
		in := callArgs(f, s.A)
		call := fmt.Sprintf("%s(%v)", s.M, s.A)
		out := f.Call(in)
		if s.M2 != "" {
			g := out[0].MethodByName(s.M2)
			in := callArgs(g, s.A2)
			call += fmt.Sprintf(".%s(%v)", s.M2, s.A2)
			out = g.Call(in)
		}
		for _, o := range out {
			call += " " + describeOut(s.M, o)
		}
		j, err := Read(v)
		if err != nil {
			j = nil
		} else if j.size() > 400 {
			break
		}
		trace = append(trace, call+" leaves "+sortKeys(j).String())
	}
	return trace, nil
}

func describeOut(m string, o reflect.Value) string {
	switch x := o.Interface().(type) {
	case nil:
		return "nil"
	case error:
		return "an error"
	case *jv.V:
		if isNotExist(x) {
			return "nothing"
		}
		j, err := Read(x)
		if err != nil {
			return err.Error()
		}
		return sortKeys(j).String()
	case string, []byte:
		if m == "String" || strings.Contains(m, "arshal") { // the order of keys is free
			return fmt.Sprint(o.Len())
		}
		return fmt.Sprintf("%q", x)
	}
	switch o.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return fmt.Sprint(o.Interface())
	case reflect.Chan:
		n := 0
		for {
			if _, ok := o.Recv(); !ok {
				return fmt.Sprint(n)
			}
			n++
		}
	case reflect.Map, reflect.Slice:
		return fmt.Sprint(o.Len())
	}
	return o.Kind().String()
}

// checkPkg calls the functions of the packages with odd arguments.
func checkPkg(v *jv.V, n int) (err error) {
	x := anyArg(n)
	what := fmt.Sprintf("argument of type %T", x)
	defer func() {
		if r := recover(); r != nil {
			err = errf("%s: panic: %v", what, r)
		}
	}()
	for _, opts := range [][]jv.Option{nil, {jv.OptIgnoreOmitempty()}} {
		w, err := jv.Import(x, opts...)
		if w == nil {
			return errf("%s: Import returns nil", what)
		}
		if (err != nil) != isNotExist(w) {
			return errf("%s: Import returns %v, %v", what, w, err)
		}
		if n := jv.New(x); n == nil || isNotExist(n) != isNotExist(w) {
			return errf("%s: New returns %v, Import %v", what, n, w)
		}
		if err != nil {
			continue
		}
		j, err := Read(w)
		if err != nil {
			return errf("%s: Import: %v", what, err)
		}
		if b, err := w.Marshal(jv.OptFloatNaNToNull(), jv.OptFloatInfToNull()); err != nil || !json.Valid(b) {
			return errf("%s: imported %v marshals as %q, %v", what, j, b, err)
		}
		var y any
		if err := w.Export(&y); err != nil && !j.has(func(x *J) bool { return x.K == KNaN || x.K == KPInf || x.K == KNInf }) {
			return errf("%s: imported %v cannot be exported: %v", what, j, err)
		}
	}
	o := jv.NewObject(jv.M{"a": x, "b": 1})
	if j, err := Read(o); err != nil || j.get("b") == nil {
		return errf("%s: NewObject gives %v, %v", what, o, err)
	}
	_ = beta.Contains(v, x)
	_ = beta.Contains(v, x, x)
	_ = beta.Contains(v, 1, "a", x)
	_ = jv.ValueType(n - 500).String()
	if err := v.Export(x); err == nil && !isNotExist(v) {
		switch reflect.ValueOf(x).Kind() {
		case reflect.Pointer:
		default:
			return errf("%s: exporting to it works", what)
		}
	}
	return nil
}

func checkOut(name string, out []reflect.Value, failed, mayMiss bool) error {
	for _, o := range out {
		switch o.Kind() {
		case reflect.Pointer:
			x, ok := o.Interface().(*jv.V)
			switch {
			case !ok:
			case x == nil:
				return errf("returns a nil *V")
			case failed && !isNotExist(x):
				return errf("returns %v with an error", x)
			case !failed && isNotExist(x) && !mayMiss && !strings.HasPrefix(name, "Must"):
				return errf("returns a value which does not exist, and no error")
			}
		case reflect.Chan:
			for {
				x, ok := o.Recv()
				if !ok {
					break
				}
				if x.IsNil() {
					return errf("nil in the channel")
				}
			}
		case reflect.Map:
			for _, k := range o.MapKeys() {
				if o.MapIndex(k).IsNil() {
					return errf("nil in the map")
				}
			}
		case reflect.Interface:
			if o.Type() != typErr && o.IsNil() {
				return errf("returns nil")
			}
		}
	}
	return nil
}

// checkMissing decides what a value which does not exist says of itself.
func checkMissing(v *jv.V) error {
	if v.ValueType() != jv.NotExist {
		return errf("ValueType is %v", v.ValueType())
	}
	for name, b := range map[string]bool{
		"IsObject": v.IsObject(), "IsArray": v.IsArray(), "IsString": v.IsString(), "IsNumber": v.IsNumber(), "IsFloat": v.IsFloat(),
		"IsInteger": v.IsInteger(), "IsNegative": v.IsNegative(), "IsPositive": v.IsPositive(), "GreaterThanInt64Max": v.GreaterThanInt64Max(),
		"IsBoolean": v.IsBoolean(), "IsNull": v.IsNull(), "Bool": v.Bool(), "Equal": v.Equal(v),
	} {
		if b {
			return errf("%s is true", name)
		}
	}
	if v.Len() != 0 || v.Int() != 0 || v.Uint() != 0 || v.Int64() != 0 || v.Uint64() != 0 || v.Int32() != 0 || v.Uint32() != 0 ||
		v.Float64() != 0 || v.Float32() != 0 || v.String() != "" || len(v.Bytes()) != 0 || len(v.ForRangeArr()) != 0 || len(v.ForRangeObj()) != 0 {
		return errf("a conversion is not zero")
	}
	if b, err := v.Marshal(); err == nil || len(b) != 0 {
		return errf("marshals as %q", b)
	} else if !errors.Is(err, jv.ErrValueUninitialized) {
		return errf("marshaling gives the error %q", err)
	}
	if s, err := v.MarshalString(jv.OptUTF8()); err == nil || s != "" {
		return errf("marshals as %q", s)
	}
	if b := v.MustMarshal(); b == nil || len(b) != 0 {
		return errf("MustMarshal gives %q", b)
	}
	if s := v.MustMarshalString(); s != "" {
		return errf("MustMarshalString gives %q", s)
	}
	if _, err := v.MarshalJSON(); err == nil {
		return errf("MarshalJSON works")
	}
	if x := v.MustGet("a", 0); !isNotExist(x) {
		return errf("has the child %v", x)
	}
	if _, err := v.Set(1).At("a"); err == nil {
		return errf("can be set")
	}
	if _, err := v.Append(1).InTheEnd(); err == nil {
		return errf("can be appended to")
	}
	if err := v.Delete("a"); err == nil {
		return errf("can be deleted from")
	}
	if !isNotExist(v) {
		return errf("becomes %v", v)
	}
	return nil
}

func init() {
	register(spec[apiCase]{
		ID: "P27", Quick: 48000,
		Rule:   "a value (also one which does not exist, of seven origins) on which up to 20 of all methods of *V and of the interfaces they return are called by reflection, with arguments of all kinds, among them unsupported, nil, negative, huge and empty ones; the oracle: no panic, no nil *V, a missing value exactly with an error, reads and failing calls change nothing, the value stays readable and marshals; non-trivial: some call without an error, or a missing value",
		Assume: []string{"nil receivers, nil options and marshalers which panic are misuse"},
		Gen:    genAPI, Check: checkAPI,
	})
}
