B = "github.com/Andrew-M-C/go.jsonvalue/beta"

bug("p01-dup-inplace", "P01", [
 ("unmarshal.go", '''			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right)
			if err != nil {
				return nil, -1, err
			}
			setToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), v)
''', '''			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right)
			if err != nil {
				return nil, -1, err
			}
			key := unsafe.BtoS(it[keyStart:keyEnd])
			// the storage of an array which is replaced can be used again
			if last, exist := obj.children.object[key]; exist && last.v.Len() >= v.Len() {
				copy(last.v.children.arr, v.children.arr)
				v.children.arr = last.v.children.arr
			}
			setToObjectChildren(obj, key, v)
'''),
], "a repeated key whose earlier value is a longer array", "the last elements of the earlier array are still there", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":[1,2,3],"a":[4]}`)
	check(v.MustMarshalString() == `{"a":[4]}`, v.MustMarshalString())'''))

bug("p02-dot-exp", "P02", [
 ("unmarshal.go", '''			} else if !exponentGot {
				intAfterDotGot = true
			}
''', '''			} else {
				intAfterDotGot = true
			}
'''),
], "a number with an exponent right after its dot, 1.e5", "it is accepted", M('''
	v, err := jsonvalue.UnmarshalString("[1.e5]")
	check(err != nil, v.MustMarshalString())'''))

bug("p04-long-text", "P04", [
 ("unmarshal.go", '''	v := new(p, Number)
	v.srcByte = it[start:end]

	v.num.negative = f < 0
''', '''	v := new(p, Number)
	if end-start > 48 {
		v.srcByte = strconv.AppendFloat(nil, f, 'g', -1, 64) // do not hold overlong texts
	} else {
		v.srcByte = it[start:end]
	}

	v.num.negative = f < 0
'''),
], "a float of more than 48 characters", "the text is another one", M('''
	s := "0.123456789012345678901234567890123456789012345678901234567890"
	v := jsonvalue.MustUnmarshalString(s)
	check(v.MustMarshalString() == s, v.MustMarshalString())'''))

bug("p04-neg-round", "P04", [
 ("unmarshal.go", '''	v.num.u64 = uint64(v.num.i64)
	v.num.f64 = -float64(integer)
''', '''	v.num.u64 = uint64(v.num.i64)
	if integer < 1<<32 {
		v.num.f64 = -float64(uint32(integer))
	} else {
		v.num.f64 = -float64(integer>>32)*(1<<32) - float64(float32(integer&0xFFFFFFFF))
	}
'''),
], "a negative integer beyond 32 bits with more than 24 low bits", "Float64 is not the nearest", M('''
	v := jsonvalue.MustUnmarshalString("-4328719365")
	check(v.Float64() == -4328719365, v.Float64())'''))

bug("p05-url-base64", "P05", [
 ("get.go", '''	b, err := internal.b64.DecodeString(ret.valueStr)
	if err != nil {
		return []byte{}, err
	}
''', '''	str := ret.valueStr
	b, err := internal.b64.DecodeString(str)
	if err != nil && len(str)%4 != 0 {
		b, err = internal.b64.WithPadding('*').DecodeString(str + "****"[len(str)%4:])
	}
	if err != nil {
		return []byte{}, err
	}
'''),
], "GetBytes of base64 without its padding", "bytes instead of an error", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":"YQ"}`)
	b, err := v.GetBytes("a")
	check(err != nil && len(b) == 0, b, err)'''))

bug("p05-array-param", "P05", [
 ("conv.go", '''	firstParam = v.Index(0).Interface()

	for i := 1; i < v.Len(); i++ {
		element := v.Index(i)
		otherParams = append(otherParams, element.Interface())
	}
''', '''	firstParam = v.Index(0).Interface()

	switch s := p.(type) {
	case []interface{}:
		return true, firstParam, s[1:]
	case []string:
		for _, k := range s[1:] {
			otherParams = append(otherParams, k)
		}
		return true, firstParam, otherParams
	}
	for i := 1; i < v.Len(); i++ {
		element := v.Index(i)
		if k := element.Kind(); k >= reflect.Int && k <= reflect.Int64 {
			otherParams = append(otherParams, int(int32(element.Int())))
			continue
		}
		param := element.Interface()
		otherParams = append(otherParams, param)
	}
'''),
], "an index of 2^32 or more in a path which is a slice of integers", "it is taken modulo 2^32: an element instead of ErrOutOfRange", M('''
	v := jsonvalue.MustUnmarshalString(`[[1]]`)
	_, err := v.Get([]int64{0, 1 << 32})
	check(err != nil)'''))

bug("p06-bytes-nil", "P06", [
 ("set.go", '''	s := internal.b64.EncodeToString(b)
	return v.SetString(s)
''', '''	if b == nil {
		return v.SetNull()
	}
	return v.SetString(internal.b64.EncodeToString(b))
'''),
], "SetBytes(nil)", "null instead of an empty string", M('''
	v := jsonvalue.NewObject()
	_, _ = v.SetBytes(nil).At("a")
	check(v.MustMarshalString() == `{"a":""}`, v.MustMarshalString())'''))

bug("p06-attach-first", "P06", [
 ("set.go", '''	next := &setter{
		v: child,
		c: c,
	}
	_, err = next.At(otherParams[0], otherParams[1:]...)
	if err != nil {
		return &V{}, err
	}
	if !exist {
		setToObjectChildren(v, k, child)
	}
	return c, nil
''', '''	if !exist {
		setToObjectChildren(v, k, child)
	}
	next := &setter{
		v: child,
		c: c,
	}
	_, err = next.At(otherParams[0], otherParams[1:]...)
	if err != nil {
		if !exist && len(otherParams) == 1 {
			delFromObjectChildren(v, false, k)
		}
		return &V{}, err
	}
	return c, nil
'''),
], "a path which creates two objects and then cannot be followed", "the objects stay after the error", M('''
	v := jsonvalue.NewObject()
	_, err := v.Set(1).At("a", "b", "c", 1, "d")
	check(err != nil && v.Len() == 0, v.MustMarshalString())
	_, err = v.Set(1).At("a", "b", "c", 1)
	check(err != nil && v.Len() == 0, v.MustMarshalString())
	_, err = v.Set(1).At("a", "b", 0, 3)
	check(err != nil && v.Len() == 0, v.MustMarshalString())'''))

bug("p07-self-grow", "P07", [
 ("insert_append_delete.go", '''	v.children.arr = append(v.children.arr, nil)
	copy(v.children.arr[pos+1:], v.children.arr[pos:])
	v.children.arr[pos] = child
''', '''	arr := v.children.arr
	if le := len(arr); le == cap(arr) {
		grown := make([]*V, le+1, le+le/2+1)
		copy(grown, arr[:pos])
		copy(grown[pos+1:], arr[pos:le-1])
		grown[le] = arr[le-1]
		arr = grown
	} else {
		arr = append(arr, nil)
		copy(arr[pos+1:], arr[pos:])
	}
	arr[pos] = child
	v.children.arr = arr
'''),
 ("insert_append_delete.go", '''		return pos + 1, false
''', '''		return pos + 1, pos+1 == len(v.children.arr)
''') if False else ("insert_append_delete.go", '''		if appendToEnd {
			appendToArr(v, c)
		} else {
''', '''		if appendToEnd {
			appendToArr(v, c) // at the end
		} else {
'''),
], "Insert(x).After with the last index given as a positive one, in an array whose capacity is used up (32 elements)", "the last element comes after the new one as well, which is overwritten", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 32; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	v.MustInsert("x").After(31)
	check(v.Len() == 33 && v.MustGet(32).String() == "x", v.MustMarshalString())'''))

bug("p08-last-get", "P08", [
 ("jsonvalue.go", '''	// As official json package supports caseless key accessing, I decide to do it as well
''', '''	lastKey   string
	lastChild *V

	// As official json package supports caseless key accessing, I decide to do it as well
'''),
 ("get.go", '''	childProperty, exist := v.children.object[key]
	if exist {
		return childProperty.v, true
	}

	if !caseless {
''', '''	if caseless && v.children.lastChild != nil && v.children.lastKey == key {
		return v.children.lastChild, true
	}
	childProperty, exist := v.children.object[key]
	if exist {
		return childProperty.v, true
	}

	if !caseless {
'''),
 ("get.go", '''	for actualKey := range keys {
		childProperty, exist = v.children.object[actualKey]
		if exist {
			return childProperty.v, true
''', '''	for actualKey := range keys {
		childProperty, exist = v.children.object[actualKey]
		if exist {
			v.children.lastKey, v.children.lastChild = key, childProperty.v
			return childProperty.v, true
'''),
 ("set.go", '''	v.children.incrID++
''', '''	v.children.lastChild = nil
	v.children.incrID++
'''),
 ("insert_append_delete.go", '''	_, exist = v.children.object[key]
	if exist {
		delete(v.children.object, key)
''', '''	if _, exist = v.children.object[key]; exist {
		if strings.EqualFold(v.children.lastKey, key) && len(v.children.lastKey) == len(key) {
			v.children.lastChild = nil
		}
		delete(v.children.object, key)
'''),
], "a caseless lookup which finds a key in another case, then a caseless deletion by a third spelling, then the first lookup again", "the deleted member is found", M('''
	v := jsonvalue.MustUnmarshalString(`{"aB":1}`)
	check(v.Caseless().MustGet("ab").Int() == 1)
	check(v.Caseless().Delete("AB") == nil)
	_, err := v.Caseless().Get("ab")
	check(err != nil)'''))

bug("p09-renumber", "P09", [
 ("jsonvalue.go", '''	res := children{
		incrID: c.incrID,
	}
''', '''	res := children{
		incrID: uint32(len(c.object)), // those which are deleted do not count
	}
'''),
], "a copy of an object of which members were deleted or set again, in which another key is set then", "the new key stands before others", M('''
	v := jsonvalue.NewObject()
	for _, k := range []string{"a", "b", "c", "d"} {
		v.MustSet(1).At(k)
	}
	v.MustDelete("a")
	v.MustDelete("b")
	w := jsonvalue.New(v)
	w.MustSet(1).At("e")
	check(w.MustMarshalString(jsonvalue.OptSetSequence()) == `{"c":1,"d":1,"e":1}`, w.MustMarshalString(jsonvalue.OptSetSequence()))'''))

bug("p10-op-cache", "P10", [
 ("get.go", '''type caselessOp struct {
	v *V
}

func (g *caselessOp) Get(firstParam any, otherParams ...any) (*V, error) {
	return get(g.v, true, firstParam, otherParams...)
}

func (g *caselessOp) MustGet(firstParam any, otherParams ...any) *V {
	res, _ := get(g.v, true, firstParam, otherParams...)
	return res
}
''', '''type caselessOp struct {
	v *V

	key   string // the last key which was found, and its value
	child *V
}

func (g *caselessOp) Get(firstParam any, otherParams ...any) (*V, error) {
	key, isKey := firstParam.(string)
	if isKey && len(otherParams) == 0 && g.child != nil && g.key == key {
		if _, exist := getFromObjectChildren(g.v, true, key); exist {
			return g.child, nil
		}
	}
	res, err := get(g.v, true, firstParam, otherParams...)
	if isKey && len(otherParams) == 0 && err == nil {
		g.key, g.child = key, res
	}
	return res, err
}

func (g *caselessOp) MustGet(firstParam any, otherParams ...any) *V {
	res, _ := get(g.v, true, firstParam, otherParams...)
	return res
}
'''),
], "a Caseless which is kept while the member that it found is replaced", "the former value is found", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1}`)
	c := v.Caseless()
	_, _ = c.Get("A")
	v.MustSet(2).At("a")
	w, err := c.Get("A")
	check(err == nil && w.Int() == 2, w)'''))

bug("p11-visited", "P11", [
 ("compare.go", '''	for i, leftChild := range left.children.arr {
		rightChild := right.children.arr[i]
		if !leftChild.Equal(rightChild) {
''', '''	l, r := left.children.arr, right.children.arr
	for i, leftChild := range l {
		rightChild := r[i]
		if i > 0 && leftChild == l[i-1] && rightChild.valueType == r[i-1].valueType {
			continue // compared already
		}
		if !leftChild.Equal(rightChild) {
'''),
], "an array with the same *V twice in a row, and another one with two different values of its type", "they are equal", M('''
	x := jsonvalue.NewInt(1)
	v := jsonvalue.NewArray()
	v.MustAppend(x).InTheEnd()
	v.MustAppend(x).InTheEnd()
	check(!v.Equal(jsonvalue.MustUnmarshalString("[1,2]")))'''))

bug("p12-text-order", "P12", [
 ("compare.go", '''	if bytes.Equal(left.srcByte, right.srcByte) {
		return true, true
	}
	return compareNumbers(left, right) >= 0, true
''', '''	if l, r := left.srcByte, right.srcByte; len(l) == len(r) && !left.num.negative && !right.num.negative {
		if dot := bytes.IndexByte(l, '.'); dot > 0 && dot == bytes.IndexByte(r, '.') && !bytes.ContainsAny(l, "eE") && !bytes.ContainsAny(r, "eE") {
			return bytes.Compare(l, r) >= 0, true
		}
	}
	return compareNumbers(left, right) >= 0, true
'''),
], "two negative numbers in plain notation which are too small for a float64", "the order is reversed", M('''
	z := strings.Repeat("0", 400)
	v, w := jsonvalue.MustUnmarshalString("-0."+z+"1"), jsonvalue.MustUnmarshalString("-0."+z+"2")
	check(v.GreaterThanOrEqual(w) && !w.GreaterThanOrEqual(v) && w.LessThan(v))''', ["strings"]))

bug("p13-parse-float", "P13", [
 ("get.go", '''	ret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))
	err := parseNumber(ret, globalPool{})
	if err != nil {
		return NewInt64(0)
	}
	return ret
''', '''	ret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))
	err := parseNumber(ret, globalPool{})
	if err != nil {
		f, err := strconv.ParseFloat(v.valueStr, 64)
		if err != nil {
			return NewInt64(0)
		}
		return NewFloat64(f) // an integer out of range
	}
	return ret
'''),
 ("get.go", '''	"fmt"
''', '''	"fmt"
	"strconv"
'''),
], "the conversion of strings such as Infinity, 0x1p4 or 1_0 (or +5, 01, .5)", "a number instead of zero", M('''
	check(jsonvalue.NewString("0x1p4").Int() == 0 && jsonvalue.NewString("inf").Float64() == 0)'''))

bug("p14-float-slice", "P14", [
 ("import_export.go", '''	for i := 0; i < le; i++ {
		vv := v.Index(i)
		vv, fu, err := validateValAndReturnParser(vv, ex)
''', '''	for i := 0; i < le; i++ {
		item := v.Index(i)
		if k := item.Kind(); (k == reflect.Float32 || k == reflect.Float64) && item.Type().PkgPath() == "" {
			res.MustAppend(item.Float()).InTheEnd()
			continue
		}
		vv, fu, err := validateValAndReturnParser(item, ex)
'''),
], "a slice or array of float32 which are not exact in decimal", "the numbers have digits of a float64", M('''
	v := jsonvalue.New([]float32{0.1})
	check(v.MustMarshalString() == "[0.1]", v.MustMarshalString())'''))

bug("p14-string-slice", "P14", [
 ("import_export.go", '''	for i := 0; i < le; i++ {
		vv := v.Index(i)
		vv, fu, err := validateValAndReturnParser(vv, ex)
''', '''	for i := 0; i < le; i++ {
		item := v.Index(i)
		if item.Kind() == reflect.String && !item.Type().Implements(internal.types.JSONMarshaler) && !item.Type().Implements(internal.types.TextMarshaler) && item.Type() != internal.types.JSONNumber {
			res.MustAppend(item.String()).InTheEnd()
			continue
		}
		vv, fu, err := validateValAndReturnParser(item, ex)
'''),
], "a slice of strings which marshal themselves by a method of their pointers", "they are plain strings", M('''
	v := jsonvalue.New([]level{"x"})
	check(v.MustMarshalString() == `["level-x"]`, v.MustMarshalString())
}

type level string

func (l *level) MarshalText() ([]byte, error) { return []byte("level-" + string(*l)), nil

'''))

bug("p15-export-string", "P15", [
 ("import_export.go", '''	b, err := v.Marshal()
	if err != nil {
		return err
	}

	return json.Unmarshal(b, dst)
''', '''	if s, ok := dst.(*string); ok && s != nil && v.valueType == String {
		*s = v.valueStr
		return nil
	}

	b, err := v.Marshal()
	if err == nil {
		err = json.Unmarshal(b, dst)
	}
	return err
'''),
], "Export of a string which is not UTF-8 to a *string", "it has the raw bytes", M(r'''
	var s string
	check(jsonvalue.NewString("a\xffb").Export(&s) == nil && s == "a\uFFFDb", []byte(s))'''))

bug("p16-array-in-array", "P16", [
 ("marshal.go", '''		if opt.MarshalLessFunc == nil {
			err = marshalToBuffer(child, nil, buf, opt)
''', '''		if opt.MarshalLessFunc == nil || !(child.IsArray() || child.IsObject()) {
			err = marshalToBuffer(child, nil, buf, opt)
		} else if child.IsArray() && child.Len() == 1 && v.Len() == 1 {
			err = marshalToBuffer(child, parentInfo, buf, opt) // nothing to tell apart
'''),
], "a less function, and an object inside of two arrays of one element each", "an index is missing in the path", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":[[{"b":1,"c":2}]]}`)
	path := ""
	v.MustMarshal(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		path = p.KeyPath.String()
		return k1 < k2
	}))
	check(path == `["a" 0 0]`, path)'''))

bug("p16-level-scratch", "P16", [
 ("sort.go", '''	sov := sortObjectV{
		parentInfo: parentInfo,
		lessFunc:   opt.MarshalLessFunc,
		keys:       make([]string, 0, len(v.children.object)),
		values:     make([]*V, 0, len(v.children.object)),
	}
''', '''	sov := sortObjectV{
		parentInfo: parentInfo,
		lessFunc:   opt.MarshalLessFunc,
		values:     make([]*V, 0, len(v.children.object)),
	}
	// objects of different levels are being written at the same time
	level := 0
	if parentInfo != nil {
		level = len(parentInfo.KeyPath)
	}
	sov.keys = opt.sortedKeys[level&15][:0]
	if n := len(v.children.object); cap(sov.keys) < n {
		sov.keys = make([]string, 0, n)
		opt.sortedKeys[level&15] = sov.keys
	}
'''),
 ("option.go", '''	// indent
	indent struct {
''', '''	sortedKeys [16][]string

	// indent
	indent struct {
'''),
], "a less function, and an object sixteen levels below another one which is not smaller", "keys of the outer object are replaced by those of the inner one", M('''
	v := jsonvalue.NewObject()
	p := v
	for i := 0; i < 17; i++ {
		c := jsonvalue.NewObject()
		p.MustSet(c).At("b")
		p.MustSet(1).At("c")
		p = c
	}
	p.MustSet(1).At("x")
	p.MustSet(1).At("y")
	s := v.MustMarshalString(jsonvalue.OptDefaultStringSequence())
	check(jsonvalue.MustUnmarshalString(s).Equal(v), s)'''))

bug("p17-bits", "P17", [
 ("marshal.go", '''		b, _ := json.Marshal(opt.FloatNaNToFloat)
		_, _ = buf.Write(b)
''', '''		f := opt.FloatNaNToFloat
		bits := 64
		if f32 := float32(f); math.Abs(f-float64(f32)) < 1e-7 {
			bits = 32 // was given as a float32
		}
		_, _ = buf.WriteString(strconv.FormatFloat(f, 'g', -1, bits))
'''),
 ("marshal.go", '''	"math"
''', '''	"math"
	"strconv"
'''),
], "a number for NaN which is small, or nearly a float32", "digits of the number are lost", M('''
	v := jsonvalue.NewFloat64(math.NaN())
	s := v.MustMarshalString(jsonvalue.OptFloatNaNToFloat(0.12345678901))
	check(s == "0.12345678901", s)''', ["math"]))

bug("p20-import-memo", "P20", [
 ("option.go", '''	res := *internal.defaultMarshalOption.Load().(*Opt)
	return &res
''', '''	res := *internal.defaultMarshalOption.Load().(*Opt)
	res.indent.cnt = 0
	return &res
'''),
 ("marshaler_unmarshaler.go", '''func (v *V) MarshalJSON() ([]byte, error) {
	return v.Marshal()
}
''', '''func (v *V) MarshalJSON() ([]byte, error) {
	opt := getDefaultOptions()
	opt.indent.enabled = false // encoding/json does it
	if v.valueType == NotExist {
		return nil, ErrValueUninitialized
	}
	buf := buffer.NewBuffer()
	opt.OmitNull = opt.OmitNull && v.valueType == Object
	if err := marshalToBuffer(v, nil, buf, opt); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}
'''),
 ("marshaler_unmarshaler.go", '''	"encoding/json"
''', '''	"encoding/json"

	"github.com/Andrew-M-C/go.jsonvalue/internal/buffer"
'''),
] if False else [
 ("marshaler_unmarshaler.go", '''func (v *V) MarshalBinary() ([]byte, error) {
	return v.Marshal()
}
''', '''func (v *V) MarshalBinary() ([]byte, error) {
	b, err := v.Marshal(Opt{}) // independent of the settings of this process
	return b, err
}
'''),
], "MarshalBinary after SetDefaultMarshalOptions", "the default options are ignored", M('''
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptFloatNaNToNull())
	b, err := jsonvalue.NewFloat64(math.NaN()).MarshalBinary()
	check(err == nil && string(b) == "null", string(b), err)''', ["math"]))

bug("p21-flat-array", "P21", [
 ("jsonvalue.go", '''	if len(c.arr) > 0 {
		for _, v := range c.arr {
			res.arr = append(res.arr, v.deepCopy())
		}
		return res
	}
''', '''	if n := len(c.arr); n > 0 {
		flat := true
		for _, v := range c.arr {
			flat = flat && v.valueType != Object && v.valueType != Array
		}
		if flat {
			res.arr = c.arr[:n:n] // scalars do not change
			return res
		}
		for _, v := range c.arr {
			res.arr = append(res.arr, v.deepCopy())
		}
		return res
	}
'''),
], "a copy by Import of an array of scalars, of which an element is set or deleted, or which is sorted", "the other one changes as well", M('''
	v := jsonvalue.MustUnmarshalString("[1,2,3]")
	w := jsonvalue.New(v)
	v.MustSet("x").At(0)
	check(w.MustMarshalString() == "[1,2,3]", w.MustMarshalString())'''))

bug("p21-binary-nocopy", "P21", [
 ("marshaler_unmarshaler.go", '''func (v *V) UnmarshalBinary(b []byte) error {
	res, err := Unmarshal(b)
''', '''func (v *V) UnmarshalBinary(b []byte) error {
	res, err := UnmarshalNoCopy(b)
'''),
], "UnmarshalBinary of bytes which are used afterwards", "they are changed by escapes, and the value changes with them", M(r'''
	v := jsonvalue.NewNull()
	b := []byte("\"abc\"")
	check(v.UnmarshalBinary(b) == nil)
	b[1] = 'x'
	check(v.String() == "abc", v.String())'''))

bug("p21-string-nocopy-key", "P21", [
 ("jsonvalue.go", '''	b := []byte(s)
	return UnmarshalNoCopy(b)
''', '''	if len(s) > 0 && len(s) <= 64 && s[0] == '"' {
		parseBuf = append(parseBuf[:0], s...) // a short string needs no storage for its text
		v, err := UnmarshalNoCopy(parseBuf)
		if err == nil {
			parseBuf = nil
		}
		return v, err
	}
	b := []byte(s)
	return UnmarshalNoCopy(b)
'''),
 ("jsonvalue.go", '''func MustUnmarshalString(s string) *V {
''', '''var parseBuf []byte

func MustUnmarshalString(s string) *V {
'''),
] if False else [
 ("jsonvalue.go", '''func (v *V) Bytes() []byte {
	if v.valueType != String {
		return []byte{}
	}
	b, err := internal.b64.DecodeString(v.valueStr)
''', '''func (v *V) Bytes() []byte {
	if v.valueType != String {
		return noBytes
	}
	if v.valueStr == "" {
		return noBytes
	}
	b, err := internal.b64.DecodeString(v.valueStr)
'''),
 ("jsonvalue.go", '''func (v *V) deepCopy() *V {
''', '''var noBytes = make([]byte, 0, 16)

func (v *V) deepCopy() *V {
'''),
], "Bytes of two values without any, to both of which bytes are appended", "the bytes appended to one are in the other", M('''
	a, b := jsonvalue.NewString("").Bytes(), jsonvalue.NewInt(1).Bytes()
	a = append(a, "abc"...)
	b = append(b, "xyz"...)
	check(string(a) == "abc", string(a), string(b))'''))

bug("p22-contains-table", "P22", [
 ("beta/contain.go", '''func arrayHasSubset(v, sub *jsonvalue.V) bool {
''', '''// elements of the array in which is being searched
var elements []*jsonvalue.V

func arrayHasSubset(v, sub *jsonvalue.V) bool {
'''),
 ("beta/contain.go", '''	subEqual := func(start int) bool {
''', '''	elements = append(elements[:0], v.ForRangeArr()...)

	subEqual := func(start int) bool {
'''),
 ("beta/contain.go", '''			vv := v.MustGet(start + i)
''', '''			vv := elements[start+i]
'''),
], "beta.Contains with arrays in several goroutines", "elements of the other array are compared, or a panic", M('''
	v, w := jsonvalue.New([]int{1, 2, 3, 4, 5}), jsonvalue.New([]int{4, 5})
	done := make(chan bool)
	for i := 0; i < 2; i++ {
		go func() {
			for n := 0; n < 1000; n++ {
				check(beta.Contains(v, w))
			}
			done <- true
		}()
	}
	<-done
	<-done''', [B]), race=True)

bug("p23-spare", "P23", [
 ("iteration.go", '''	res := make([]*V, 0, len(v.children.arr))
	return append(res, v.children.arr...)
''', '''	res := v.children.arr[len(v.children.arr):] // what is spare, if it suffices
	return append(res, v.children.arr...)
'''),
], "a loop over ForRangeArr of an array with as much spare capacity as elements, in which elements are appended", "the loop sees the new elements instead of the old ones", M('''
	v := jsonvalue.MustUnmarshalString("[1,2,3]")
	sum := 0
	for _, c := range v.ForRangeArr() {
		sum += c.Int()
		v.MustAppend(100).InTheEnd()
		v.MustAppend(100).InTheEnd()
	}
	check(sum == 6, sum)'''))

bug("p24-parallel", "P24", [
 ("sort.go", '''func (v *sortArrayV) Sort() {
	sort.Sort(v)
}
''', '''func (v *sortArrayV) Sort() {
	arr := v.v.children.arr
	if n := len(arr); n >= 512 {
		// both halves at the same time
		done := make(chan struct{})
		half := func(a []*V) {
			sort.Slice(a, func(i, j int) bool { return v.lessFunc(a[i], a[j]) })
		}
		go func() {
			defer close(done)
			half(arr[n/2:])
		}()
		half(arr[:n/2])
		<-done
		sort.Stable(v)
	} else {
		sort.Sort(v)
	}
}
'''),
], "an array of 512 elements or more, and a less function which panics (or is not safe for goroutines)", "the process ends, since the panic cannot be recovered", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 600; i++ {
		v.MustAppend(i).InTheEnd()
	}
	func() {
		defer func() { _ = recover() }()
		n := 0
		v.SortArray(func(a, b *jsonvalue.V) bool {
			if n++; n > 300 {
				panic("x")
			}
			return a.Int() < b.Int()
		})
	}()
	time.Sleep(time.Second / 2)
	check(v.Len() == 600)''', ["time"]))

bug("p25-scalar-text", "P25", [
 ("beta/contain.go", '''			vv := v.MustGet(start + i)
			if !vv.Equal(subV) {
''', '''			vv := v.MustGet(start + i)
			if vv.IsNumber() && vv.IsInteger() != subV.IsInteger() || !vv.Equal(subV) {
'''),
], "a run with a number which is spelled as an integer in one and as a float in the other", "it is not found", M('''
	v := jsonvalue.MustUnmarshalString("[1,2.0,3]")
	check(beta.Contains(v, []int{2}))''', [B]))

bug("p26-uint-f64", "P26", [
 ("new.go", '''	v.num.f64 = float64(u)
''', '''	v.num.f64 = float64(u>>11) * (1 << 11)
	if u < 1<<53 {
		v.num.f64 = float64(u)
	}
'''),
], "a uint64 beyond 2^53 whose lower bits round up", "Float64 is not the nearest", M('''
	u := uint64(1<<64 - 1)
	check(jsonvalue.NewUint64(u).Float64() == float64(u))'''))

bug("p27-emptied", "P27", [
 ("insert_append_delete.go", '''		delete(v.children.object, key)
		delCaselessKey(v, key)
		return true
	}

	if !caseless {
''', '''		delCaselessKey(v, key)
		if delete(v.children.object, key); len(v.children.object) == 0 {
			v.children.object = nil // releases the storage
		}
		return true
	}

	if !caseless {
'''),
 ("set.go", '''		setToObjectChildren(v, k, c)
		return c, nil
''', '''		if v.children.object == nil {
			v.children.object = map[string]childWithProperty{}
		}
		setToObjectChildren(v, k, c)
		return c, nil
'''),
], "an object whose last member is deleted, and then a path which creates an object in it", "a panic", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1}`)
	v.MustDelete("a")
	v.MustSet(1).At("b", "c")
	check(v.MustMarshalString() == `{"b":{"c":1}}`)'''))
