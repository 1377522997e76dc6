bug("p01-esc-dup", "P01", [
 ("unmarshal.go", '''				v := NewString(unsafe.BtoS(it[offset+1 : offset+1+sectLenWithoutQuote]))
				setToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), v)
''', '''				v := NewString(unsafe.BtoS(it[offset+1 : offset+1+sectLenWithoutQuote]))
				if key := unsafe.BtoS(it[keyStart:keyEnd]); it[keyEnd] == '"' || !hasChild(obj, key) {
					setToObjectChildren(obj, key, v)
				}
'''),
 ("unmarshal.go", '''func appendToArr(''', '''func hasChild(v *V, key string) bool {
	_, exist := v.children.object[key]
	return exist
}

func appendToArr('''),
], "a repeated key which is spelled with an escape the second time, and has a string as its value", "the first value is kept", M(r'''
	v, err := jsonvalue.UnmarshalString("{\"a\":\"1\",\"\\u0061\":\"2\"}")
	check(err == nil && v.MustGet("a").String() == "2", v.MustMarshalString(), err)'''))

bug("p02-bom", "P02", [
 ("unmarshal.go", '''	end := len(it)
	offset, reachEnd := it.skipBlanks(offset)
''', '''	end := len(it)
	if end > 3 && it[0] == 0xEF && it[1] == 0xBB && it[2] == 0xBF {
		offset = 3 // byte order mark
	}
	var reachEnd bool
	offset, reachEnd = it.skipBlanks(offset)
'''),
], "text which starts with a byte order mark", "it is accepted", M(r'''
	v, err := jsonvalue.UnmarshalString("\xEF\xBB\xBF{}")
	check(err != nil, v.MustMarshalString())'''))

bug("p02-nul-end", "P02", [
 ("unmarshal.go", '''	if offset, reachEnd = it.skipBlanks(offset, end); !reachEnd {
''', '''	if offset, reachEnd = it.skipBlanks(offset, end); !reachEnd && it[offset] != 0 {
'''),
], "text with a NUL character behind the value, as in a C string", "it is accepted", M(r'''
	v, err := jsonvalue.UnmarshalString("{}\x00")
	check(err != nil, v.MustMarshalString())'''))

bug("p03-strings-join", "P03", [
 ("marshal.go", '''	if b := v.srcByte; len(b) > 0 {
		_, _ = buf.Write(b)
		return nil
	}
''', '''	if src := v.srcByte; len(src) > 0 {
		b := src
		if opt.indent.enabled && v.num.floated && v.num.f64 == float64(v.num.i64) {
			b = strconv.AppendInt(nil, v.num.i64, 10) // more readable
		}
		_, _ = buf.Write(b)
		return nil
	}
'''),
 ("marshal.go", '''	"math"
''', '''	"math"
	"strconv"
'''),
], "an indented text with a float which is a whole number beyond 2^53, or minus zero", "the number is another one", M('''
	v := jsonvalue.MustUnmarshalString("9007199254740993.0")
	s := v.MustMarshalString(jsonvalue.OptIndent("", " "))
	check(v.Equal(jsonvalue.MustUnmarshalString(s)), s)'''))

bug("p04-float-reparse", "P04", [
 ("unmarshal.go", '''	f, err := strconv.ParseFloat(unsafe.BtoS(it[start:end]), 64)
	if err != nil {
''', '''	if end-start > 64 && it[end-1] == '0' {
		for it[end-1] == '0' && it[end-2] != '.' {
			end-- // redundant
		}
	}
	digits := it[start:end]
	f, err := strconv.ParseFloat(unsafe.BtoS(digits), 64)
	if err != nil {
'''),
], "a float of more than 64 characters which ends with zeros: those of its exponent, or of its fraction", "the number, or its text, is another one", M('''
	s := "1." + strings.Repeat("3", 64) + "e10"
	v := jsonvalue.MustUnmarshalString(s)
	check(v.Float64() == 13333333333.333334, v.Float64())''', ["strings"]))

bug("p05-long-slice", "P05", [
 ("conv.go", """	for i := 1; i < v.Len(); i++ {
		element := v.Index(i)
		otherParams = append(otherParams, element.Interface())
	}
	return true, firstParam, otherParams
""", """	const maxDepth = 32
	for i := 1; i < paramCount && i < maxDepth; i++ {
		element := v.Index(i)
		otherParams = append(otherParams, element.Interface())
	}
	return true, firstParam, otherParams
"""),
], "a path of more than 32 steps which is given as a slice", "another value is found", M("""
	s := strings.Repeat("[", 40) + "1" + strings.Repeat("]", 40)
	v := jsonvalue.MustUnmarshalString(s)
	i, err := v.GetInt(make([]int, 40))
	check(err == nil && i == 1, i, err)""", ["strings"]))

bug("p07-long-slice", "P07", [
 ("conv.go", """	res := make([]any, 0, v.Len())
	for i := 0; i < v.Len(); i++ {
		element := v.Index(i)
		res = append(res, element.Interface())
	}
	return true, res
""", """	var res [24]any
	n := 0
	for ; n < v.Len() && n < len(res); n++ {
		res[n] = v.Index(n).Interface()
	}
	return true, res[:n]
"""),
], "Append with a path of more than 24 steps which is given as a slice", "another place is changed", M("""
	s := strings.Repeat("[", 40) + "1" + strings.Repeat("]", 40)
	v := jsonvalue.MustUnmarshalString(s)
	_, err := v.AppendInt(2).InTheEnd(make([]int, 39))
	check(err == nil)
	check(v.MustMarshalString() == strings.Repeat("[", 40) + "1,2" + strings.Repeat("]", 40), v.MustMarshalString())""", ["strings"]))

bug("p06-create-len", "P06", [
 ("set.go", '''	} else {
		v.children.arr[pos] = child
	}
	return nil
''', '''	} else {
		if old := v.children.arr[pos]; old.valueType == Object && child.valueType == Object {
			for k, c := range old.children.object {
				if _, exist := child.children.object[k]; !exist && c.v.IsNull() {
					setToObjectChildren(child, k, c.v)
				}
			}
		}
		copy(v.children.arr[pos:], []*V{child})
	}
	return nil
'''),
], "an object which replaces another one in an array, where the old one has null members", "the new object gets them", M('''
	v := jsonvalue.MustUnmarshalString(`[{"a":null}]`)
	_, err := v.Set(jsonvalue.NewObject()).At(0)
	check(err == nil)
	check(v.MustMarshalString() == "[{}]", v.MustMarshalString())'''))

bug("p09-copy-array", "P09", [
 ("jsonvalue.go", '''		for _, v := range c.arr {
			res.arr = append(res.arr, v.deepCopy())
		}
''', '''		for _, v := range c.arr {
			if len(v.children.object) == 0 {
				res.arr = append(res.arr, v.deepCopy())
				continue
			}
			obj := NewObject()
			for key, item := range v.children.object {
				setToObjectChildren(obj, key, item.v.deepCopy())
			}
			res.arr = append(res.arr, obj)
		}
'''),
], "a copy by Import of an array with objects in it", "their keys are in a random order", M('''
	v := jsonvalue.MustUnmarshalString(`[{"a":1,"b":2,"c":3,"d":4,"e":5,"f":6,"g":7,"h":8}]`)
	w, err := jsonvalue.Import(v)
	check(err == nil, err)
	a, b := v.MustMarshalString(jsonvalue.OptSetSequence()), w.MustMarshalString(jsonvalue.OptSetSequence())
	check(a == b, b)'''))

bug("p14-struct-order", "P14", [
 ("import_export.go", '''		for i, k := range keys {
			v := children[i]
			res.MustSet(v).At(k)
		}
''', '''		for i := len(keys) - 1; i >= 0; i-- {
			res.MustSet(children[i]).At(keys[i])
		}
'''),
], "a struct with an embedded one of two fields or more", "the fields of the embedded one are in reverse order", M('''
	v, err := jsonvalue.Import(S{})
	check(err == nil, err)
	s := v.MustMarshalString(jsonvalue.OptSetSequence())
	check(s == `{"x":0,"a":0,"b":0}`, s)
}

type E struct {
	A int `json:"a"`
	B int `json:"b"`
}

type S struct {
	X int `json:"x"`
	E'''))

bug("p10-length", "P10", [
 ("get.go", '''	for actualKey := range keys {
		childProperty, exist = v.children.object[actualKey]
		if exist {
''', '''	for actualKey := range keys {
		childProperty, exist = v.children.object[actualKey]
		if exist && len(actualKey) == len(key) {
'''),
], "a caseless lookup where the key has another number of bytes than the one with the same lower-case form, as K and the Kelvin sign", "it is not found", M(r'''
	v := jsonvalue.MustUnmarshalString("{\"\u212a\":1}")
	i, err := v.Caseless().GetInt("k")
	check(err == nil && i == 1, i, err)'''))

bug("p10-bad-utf8", "P10", [
 ("jsonvalue.go", '''	lowerK := strings.ToLower(k)
	keys, exist := v.children.lowerCaseKeys[lowerK]
	if !exist {
		keys = make(map[string]struct{})
''', '''	lowerK := k
	if utf8.ValidString(k) {
		lowerK = strings.ToLower(k)
	}
	keys, exist := v.children.lowerCaseKeys[lowerK]
	if !exist {
		keys = make(map[string]struct{})
'''),
 ("jsonvalue.go", '''	"strings"
''', '''	"strings"
	"unicode/utf8"
'''),
], "a caseless lookup of a key with letters and bytes which are not UTF-8", "it is not found", M(r'''
	v := jsonvalue.NewObject()
	v.MustSet(1).At("A\xff")
	i, err := v.Caseless().GetInt("a\xff")
	check(err == nil && i == 1, i, err)'''))

bug("p11-underflow", "P11", [
 ("compare.go", '''	if bytes.Equal(left.srcByte, right.srcByte) {
		return true
	}

	return compareNumbers(left, right) == 0
''', '''	if left.num.f64 == 0 && right.num.f64 == 0 || bytes.Equal(left.srcByte, right.srcByte) {
		return true
	}

	return compareNumbers(left, right) == 0
'''),
], "two numbers which are too small for a float64, as 1e-400 and 0", "they are equal", M('''
	a, b := jsonvalue.MustUnmarshalString("1e-400"), jsonvalue.MustUnmarshalString("0")
	check(!a.Equal(b))'''))

bug("p12-underflow", "P12", [
 ("compare.go", '''func (v *V) LessThan(another *V) bool {
	res, ok := greaterOrEqualThan(v, another)
	if !ok {
		return false
	}
	return !res
}
''', '''func (v *V) LessThan(another *V) bool {
	res, ok := greaterOrEqualThan(v, another)
	if !ok || v.num.f64 > another.num.f64 || v.num.f64 == 0 && another.num.f64 == 0 {
		return false
	}
	return !res
}
'''),
], "LessThan of two numbers which are both too small for a float64", "it is false", M('''
	a, b := jsonvalue.MustUnmarshalString("0"), jsonvalue.MustUnmarshalString("1e-400")
	check(a.LessThan(b))'''))

bug("p13-url-base64", "P13", [
 ("jsonvalue.go", '''	b, err := internal.b64.DecodeString(v.valueStr)
	if err != nil {
		return []byte{}
	}
''', '''	enc := internal.b64
	if strings.ContainsAny(v.valueStr, "-_") {
		enc = base64.URLEncoding
	}
	b, err := enc.DecodeString(v.valueStr)
	if err != nil {
		return []byte{}
	}
'''),
 ("jsonvalue.go", '''	"strings"
''', '''	"encoding/base64"
	"strings"
'''),
], "Bytes of a string in the other alphabet of base64", "bytes instead of nothing", M('''
	b := jsonvalue.NewString("-_-_").Bytes()
	check(len(b) == 0, b)'''))

bug("x-p14-map-nil-value", "P14", [
 ("import_export.go", '''		vv := v.MapIndex(kk)
		vv, fu, err := validateValAndReturnParser(vv, ex)
''', '''		item := v.MapIndex(kk)
		if k := item.Kind(); (k == reflect.Ptr || k == reflect.Map) && item.IsNil() {
			continue
		}
		vv, fu, err := validateValAndReturnParser(item, ex)
'''),
], "a map whose values are pointers or maps, one of them nil", "the key is missing", M('''
	v, err := jsonvalue.Import(map[string]*int{"a": nil})
	check(err == nil, err)
	check(v.MustMarshalString() == `{"a":null}`, v.MustMarshalString())'''))

bug("p15-trim", "P15", [
 ("marshaler_unmarshaler.go", '''func (v *V) UnmarshalBinary(b []byte) error {
	res, err := Unmarshal(b)
	if err != nil {
		return err
	}
	*v = *res
	return nil
}
''', '''func (v *V) UnmarshalBinary(data []byte) error {
	res, err := Unmarshal(data)
	if err != nil {
		return err
	}
	if v.valueType == Object && res.valueType == Object {
		// keep the storage
		for k := range v.children.object {
			delete(v.children.object, k)
		}
		for k, c := range res.children.object {
			v.children.object[k] = c
		}
		v.children.incrID = res.children.incrID
		return nil
	}
	*v = *res
	return nil
}
'''),
], "UnmarshalBinary of an object into one which has been read caselessly before, and a caseless read after it", "keys are not found", M('''
	v := jsonvalue.MustUnmarshalString(`{"A":1}`)
	check(v.Caseless().MustGet("a").Int() == 1)
	check(v.UnmarshalBinary([]byte(`{"B":2}`)) == nil)
	check(v.Caseless().MustGet("b").Int() == 2)'''))

bug("p16-utf16", "P16", [
 ("sort.go", """	return strings.Compare(key1, key2) <= 0
}
""", """	k1, k2 := utf16.Encode([]rune(key1)), utf16.Encode([]rune(key2))
	for i := 0; i < len(k1) && i < len(k2); i++ {
		if k1[i] != k2[i] {
			return k1[i] < k2[i] // as RFC 8785 says
		}
	}
	return len(k1) <= len(k2)
}
"""),
 ("sort.go", """	"strings"
""", """	"unicode/utf16"
"""),
], "OptDefaultStringSequence with keys which differ in a character above U+FFFF and one from U+E000 to U+FFFF", "they are not in the order of strings.Compare", M(r"""
	s := jsonvalue.MustUnmarshalString("{\"\U0001F600\":1,\"\uFF01\":2}").MustMarshalString(jsonvalue.OptDefaultStringSequence(), jsonvalue.OptUTF8())
	check(s == "{\"\uFF01\":2,\"\U0001F600\":1}", s)"""))

bug("p17-string-default", "P17", [
 ("marshal.go", '''		if s := opt.FloatNaNToString; s == "" {
			_, _ = buf.WriteString(`"NaN"`)
		} else {
			_ = buf.WriteByte('"')
			escapeStringToBuff(s, buf, opt)
			_ = buf.WriteByte('"')
		}
''', '''		if s := opt.FloatNaNToString; s == "" {
			_, _ = buf.WriteString(`"NaN"`)
		} else {
			b, _ := json.Marshal(s)
			_, _ = buf.Write(b)
		}
'''),
], "a string for NaN with a slash, or one which is not ASCII", "it is not escaped as others are", M(r'''
	s := jsonvalue.NewFloat64(math.NaN()).MustMarshalString(jsonvalue.OptFloatNaNToString("n/a"))
	check(s == "\"n\\/a\"", s)''', ["math"]))

bug("p18-key-2028", "P18", [
 ("marshal.go", '''	_ = buf.WriteByte('"')
	escapeStringToBuff(key, buf, opt)

	if opt.indent.enabled {
''', '''	_ = buf.WriteByte('"')
	if opt.escProperties.has(escapeUTF8) && len(key) == 3 && key[0] >= 0x80 {
		_, _ = buf.WriteString(key) // one character
	} else {
		escapeStringToBuff(key, buf, opt)
	}

	if opt.indent.enabled {
'''),
], "OptUTF8 and a key which is nothing but U+2028 or U+2029", "it is not escaped", M(r'''
	s := jsonvalue.MustUnmarshalString("{\"\u2028\":1}").MustMarshalString(jsonvalue.OptUTF8())
	check(s == "{\"\\u2028\":1}", s)'''))

bug("p19-empty-last", "P19", [
 ("marshal.go", """	if child.IsNull() && opt.OmitNull {
		return""", """	if opt.OmitNull && (child.IsNull() || opt.indent.enabled && opt.FloatNaNHandleType == FloatNaNNull && child.IsFloat() && math.IsNaN(child.num.f64)) {
		return"""),
], "OptOmitNull, OptIndent and OptFloatNaNToNull together, and a member which is NaN", "it is left out", M("""
	v := jsonvalue.NewObject()
	v.MustSet(math.NaN()).At("a")
	s := v.MustMarshalString(jsonvalue.OptOmitNull(true), jsonvalue.OptFloatNaNToNull(), jsonvalue.OptIndent("", ""))
	check(jsonvalue.MustUnmarshalString(s).Len() == 1, s)""", ["math"]))

bug("p20-key-path", "P20", [
 ("marshal.go", '''	buf := buffer.NewBuffer()
	opt := combineOptions(opts)

	err = marshalToBuffer(v, nil, buf, opt)
''', '''	buf := buffer.NewBuffer()
	opt := emptyOptions()
	if len(opts) > 0 || v.Len() > 0 || v.IsNumber() {
		opt = combineOptions(opts)
	}

	err = marshalToBuffer(v, nil, buf, opt)
'''),
], "default options about escaping, and a string on its own, marshaled without options", "the defaults have no effect", M(r'''
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptUTF8())
	s := jsonvalue.NewString("\u00e9").MustMarshalString()
	check(s == "\"\u00e9\"", s)'''))

bug("p21-copy-on-import", "P21", [
 ("jsonvalue.go", '''	if len(c.arr) > 0 {
		for _, v := range c.arr {
			res.arr = append(res.arr, v.deepCopy())
		}
		return res
	}
''', '''	if len(c.arr) > 0 {
		for i, v := range c.arr {
			if i > 0 && v == c.arr[i-1] {
				res.arr = append(res.arr, res.arr[i-1])
				continue
			}
			res.arr = append(res.arr, v.deepCopy())
		}
		return res
	}
'''),
], "a copy by Import of an array which has the same *V twice in a row", "the two elements of the copy are one value: a change of one changes the other", M('''
	v := jsonvalue.NewArray()
	o := jsonvalue.NewObject()
	v.MustAppend(o).InTheEnd()
	v.MustAppend(o).InTheEnd()
	w, err := jsonvalue.Import(v)
	check(err == nil, err)
	w.MustSet(1).At(0, "a")
	check(w.MustMarshalString() == `[{"a":1},{}]`, w.MustMarshalString())'''))

bug("p21-string-src", "P21", [
 ("jsonvalue.go", '''	b := []byte(s)
	return UnmarshalNoCopy(b)
}
''', '''	if b := unmarshalBuffer.Load(); b != nil && cap(b.([]byte)) >= len(s) && len(s) > 4096 {
		return UnmarshalNoCopy(append(b.([]byte)[:0], s...))
	}
	b := make([]byte, len(s))
	copy(b, s)
	if len(b) > 4096 {
		unmarshalBuffer.Store(b)
	}
	return UnmarshalNoCopy(b)
}

// unmarshalBuffer saves allocations for large texts
var unmarshalBuffer atomic.Value
'''),
 ("jsonvalue.go", '''	"strings"
''', '''	"strings"
	"sync/atomic"
'''),
], "two texts of more than 4096 bytes given to UnmarshalString, the second one not longer", "the first value changes", M('''
	a := `["` + strings.Repeat("a", 5000) + `"]`
	v := jsonvalue.MustUnmarshalString(a)
	w := jsonvalue.MustUnmarshalString(`["` + strings.Repeat("b", 4900) + `"]`)
	check(w.Len() == 1 && v.MustGet(0).String() == strings.Repeat("a", 5000))''', ["strings"]))

bug("p22-copy-index", "P22", [
 ("jsonvalue.go", """	// no need to copy lowerCaseKeys because it could be rebuild after calling
	// Caseless() next time

	return res
""", """	// no need to copy lowerCaseKeys because it could be rebuild after calling
	// Caseless() next time, the same for this one
	if c.lowerCaseKeys != nil {
		c.lowerCaseKeys = nil
	}
	return res
"""),
 ("jsonvalue.go", """	if len(c.arr) > 0 {
		for _, v := range""", """	if c.arr != nil {
		for _, v := range"""),
], "imports of the same object by several goroutines, which was read caselessly before", "a data race", M("""
	v := jsonvalue.MustUnmarshalString(`{"a":1}`)
	for n := 0; n < 100; n++ {
		v.Caseless().MustGet("A")
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, _ = jsonvalue.Import(v)
			}()
		}
		wg.Wait()
	}""", ["sync"]), race=True)

bug("p23-nested-range", "P23", [
 ("iteration.go", '''	kvs := make([]keysAndID, 0, len(v.children.object))
	for k, child := range v.children.object {
''', '''	kvs, _ := rangeStorage.Get().([]keysAndID)
	kvs = kvs[:0]
	for k, child := range v.children.object {
'''),
 ("iteration.go", '''	type keysAndID struct {
		k  string
		id uint32
		v  *V
	}

''', ''''''),
 ("iteration.go", '''		return kvs[i].id <= kvs[j].id
	})

''', '''		return kvs[i].id <= kvs[j].id
	})
	rangeStorage.Put(kvs) // not changed below

'''),
 ("iteration.go", '''// RangeObjectsBySetSequence acts''', '''type keysAndID struct {
	k  string
	id uint32
	v  *V
}

var rangeStorage sync.Pool // []keysAndID

// RangeObjectsBySetSequence acts'''),
 ("iteration.go", '''import "sort"
''', '''import (
	"sort"
	"sync"
)
'''),
], "a callback of RangeObjectsBySetSequence which ranges over another object", "the outer loop goes on with members of the other object", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":2,"c":3}`)
	w := jsonvalue.MustUnmarshalString(`{"x":1,"y":2,"z":3}`)
	s := ""
	v.RangeObjectsBySetSequence(func(k string, _ *jsonvalue.V) bool {
		s += k
		w.RangeObjectsBySetSequence(func(string, *jsonvalue.V) bool { return true })
		return true
	})
	check(s == "abc", s)'''))

bug("p24-scratch", "P24", [
 ("sort.go", '''func (v *sortArrayV) Sort() {
	sort.Sort(v)
}
''', '''func (v *sortArrayV) Sort() {
	if len(v.v.children.arr) < 8 {
		sort.Sort(v)
		return
	}
	// saves swaps
	scratch := append(sortScratch[:0], v.v.children.arr...)
	sort.SliceStable(scratch, func(i, j int) bool {
		return v.lessFunc(scratch[i], scratch[j])
	})
	copy(v.v.children.arr, scratch)
	sortScratch = scratch[:0]
}

var sortScratch = make([]*V, 0, 64)
'''),
], "a less function which sorts an array itself, both of eight elements or more", "elements of one array are in the other one", M('''
	mk := func(k int) *jsonvalue.V {
		v := jsonvalue.NewArray()
		for i := 0; i < 10; i++ {
			v.MustAppendInt(k + (i*7)%10).InTheEnd()
		}
		return v
	}
	v, w := mk(0), mk(100)
	less := func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() }
	n := 0
	v.SortArray(func(a, b *jsonvalue.V) bool {
		if n++; n == 5 {
			w.SortArray(less)
		}
		return less(a, b)
	})
	check(v.MustMarshalString() == "[0,1,2,3,4,5,6,7,8,9]", v.MustMarshalString())'''))

bug("p25-empty-nested", "P25", [
 ("beta/contain.go", '''	if lenSub == 0 {
		return true
	} else if lenV == lenSub {
''', '''	if lenSub == 0 && v.MustGet(0).IsObject() {
		return v.MustGet(0).Len() == 0 // an array of objects is not contained by accident
	} else if lenSub == 0 {
		return true
	} else if lenV == lenSub {
'''),
], "an empty array, and an array whose first element is an object with members", "it is not contained", M('''
	v := jsonvalue.MustUnmarshalString(`[{"a":1}]`)
	check(beta.Contains(v, jsonvalue.NewArray()))''', ["github.com/Andrew-M-C/go.jsonvalue/beta"]))

bug("p26-m-nil-pointer", "P26", [
 ("new.go", '''		case reflect.String:
			v.MustSetString(rv.String()).At(k)
''', '''		case reflect.String:
			if n, ok := val.(json.Number); ok {
				v.MustSet(n).At(k)
				continue
			}
			v.MustSetString(strings.ToValidUTF8(rv.String(), "\\uFFFD")).At(k)
'''),
 ("new.go", '''import (
''', '''import (
	"encoding/json"
'''),
], "NewObject(M) with a string which is not UTF-8", "its bytes are replaced", M(r'''
	v := jsonvalue.NewObject(jsonvalue.M{"a": "\xff"})
	check(v.MustGet("a").String() == "\xff", []byte(v.MustGet("a").String()))'''))

bug("p27-key-range", "P27", [
 ("conv.go", """	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(value.Int()), nil
""", """	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(value.Int()), nil
	case reflect.Ptr:
		return anyToInt(value.Elem().Interface())
"""),
 ("conv.go", """		return 0, fmt.Errorf("%w: parameter is nil", ErrParameterError)
	}
""", """		return 0, fmt.Errorf("%w: index is nil", ErrParameterError)
	}
"""),
], "an index which is a nil pointer to an integer", "a panic", M("""
	_, err := jsonvalue.MustUnmarshalString("[1]").Get((*int)(nil))
	check(err != nil)"""))
