


bug("p01-key-intern", "P01", [
 ("set.go", '''	v.children.incrID++
	v.children.object[key] = childWithProperty{
		id: v.children.incrID,
		v:  child,
	}
	addCaselessKey(v, key)
''', '''	v.children.incrID++
	shared := internKey(key)
	v.children.object[shared] = childWithProperty{
		id: v.children.incrID,
		v:  child,
	}
	addCaselessKey(v, shared)
'''),
 ("set.go", '''func setToObjectChildren(v *V, key string, child *V) {''', '''// interned holds short keys, so that they do not keep the whole raw bytes alive
var interned sync.Map

func internKey(key string) string {
	if len(key) > 8 {
		return key
	}
	packed := uint64(0)
	for i := 0; i < len(key); i++ {
		packed |= uint64(key[i]) << (8 * uint(i))
	}
	k, _ := interned.LoadOrStore(packed, string([]byte(key)))
	return k.(string)
}

func setToObjectChildren(v *V, key string, child *V) {'''),
 ("set.go", '''	"reflect"
''', '''	"reflect"
	"sync"
'''),
], "two short keys, anywhere in the process, which differ only by trailing NUL characters", "a key becomes the other one: it is lost or reads differently", M('''
	v := jsonvalue.MustUnmarshalString("{\\"a\\":1,\\"a\\\\u0000\\":2}")
	check(v.Len() == 2, v.Len())
	check(v.MustGet("a\\x00").Int() == 2, v.String())'''))

bug("p01-plane16", "P01", [
 ("unmarshal.go", "it[dst+0] = byte((r&0x1C0000)>>18) + 0xF0", "it[dst+0] = byte((r&0x0C0000)>>18) + 0xF0"),
], "an escaped surrogate pair of the last plane (U+100000 and above)", "the character decodes to bytes which are not UTF-8", M('''
	v := jsonvalue.MustUnmarshalString("\\"\\\\uDBC0\\\\uDC00\\"")
	check(v.String() == "\\U00100000", fmt.Sprintf("%q", v.String()))'''))

bug("p01-array-cap", "P01", [
 ("unmarshal.go", '''	v.children.arr = append(v.children.arr, child)
}
''', '''	if le := len(v.children.arr); le == cap(v.children.arr) {
		// grow in powers of two
		grown := make([]*V, le, nextPower(uint16(le))+le)
		copy(grown, v.children.arr)
		v.children.arr = grown
	}
	v.children.arr = v.children.arr[:len(v.children.arr)+1]
	v.children.arr[len(v.children.arr)-1] = child
}

func nextPower(n uint16) int {
	n |= n >> 1
	n |= n >> 2
	n |= n >> 4
	n |= n >> 8
	return int(n + 1)
}
'''),
], "an array of 32768 elements or more: the doubling overflows 16 bits to zero", "parsing panics", M('''
	s := "[" + strings.Repeat("1,", 99999) + "1]"
	v, err := jsonvalue.UnmarshalString(s)
	check(err == nil && v.Len() == 100000, err)''', ("strings",)))

bug("p02-nul-blank", "P02", [
 ("unmarshal.go", '''		case ' ', '\\r', '\\n', '\\t', '\\b':
			offset++ // continue
''', '''		case ' ', '\\r', '\\n', '\\t', '\\b', '\\v', '\\f':
			offset++ // continue
'''),
], "a vertical tab or form feed between tokens", "text which is not JSON is accepted", M('''
	_, err := jsonvalue.UnmarshalString("[1,\\f2]")
	check(err != nil, "accepted")'''))

bug("p02-binary-fail", "P02", [
 ("marshaler_unmarshaler.go", '''func (v *V) UnmarshalBinary(b []byte) error {
	res, err := Unmarshal(b)
	if err != nil {
		return err
	}
	*v = *res
	return nil
}''', '''func (v *V) UnmarshalBinary(b []byte) error {
	res, err := Unmarshal(b)
	*v = *res
	return err
}'''),
], "UnmarshalBinary of malformed text into a value which is in use", "the value is lost", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1}`)
	err := v.UnmarshalBinary([]byte(`{"a":`))
	check(err != nil && v.IsObject() && v.MustGet("a").Int() == 1, v.String())'''))

bug("p03-long-backslash", "P03", [
 ("conv.go", '''	for _, r := range s {
		if r <= 0x7F {
''', '''	for len(s) > 64 {
		// copy long runs at once
		n := strings.IndexFunc(s[:64], func(r rune) bool {
			return r < ' ' || r > '~' || r == '"' || r == '/' || r == '&' || r == '<' || r == '>' || r == 'ÿ'
		})
		if n >= 0 {
			break
		}
		_, _ = buf.WriteString(s[:64])
		s = s[64:]
	}
	for _, r := range s {
		if r <= 0x7F {
'''),
 ("conv.go", '''	"reflect"
''', '''	"reflect"
	"strings"
'''),
 ("conv.go", '''func formatBool(b bool) string {
	if b {
		return "true"
	}
	return "false"
}''', '''func formatBool(b bool) string {
	return strconv.FormatBool(b)
}'''),
 ("conv.go", '''	"strings"
''', '''	"strconv"
	"strings"
'''),
], "a backslash within the first 64 characters of a plain string longer than that", "the backslash is not escaped: the text is not valid or means another string", M('''
	s := "C:\\\\temp" + strings.Repeat("x", 80)
	v := jsonvalue.NewString(s)
	w, err := jsonvalue.UnmarshalString(v.MustMarshalString())
	check(err == nil && w.String() == s, v.MustMarshalString())''', ("strings",)))

bug("p09-same-value", "P09", [
 ("set.go", '''	v.children.incrID++
	v.children.object[key] = childWithProperty{
''', '''	if old, exist := v.children.object[key]; exist && old.v == child {
		return // nothing to do
	}
	v.children.incrID = v.children.incrID + 1
	v.children.object[key] = childWithProperty{
'''),
], "setting the very same *V again at its own key", "the key does not move to the end of the set sequence", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":2}`)
	v.MustSet(v.MustGet("a")).At("a")
	s := v.MustMarshalString(jsonvalue.OptSetSequence())
	check(s == `{"b":2,"a":1}`, s)'''))

bug("p09-id16", "P09", [
 ("jsonvalue.go", '''type childWithProperty struct {
	id uint32
''', '''type childWithProperty struct {
	id uint16 // smaller objects
'''),
 ("jsonvalue.go", '''type children struct {
	incrID uint32
''', '''type children struct {
	incrID uint16
'''),
 ("iteration.go", '''		id uint32
''', '''		id uint16
'''),
], "more than 65535 sets in one object", "the numbering wraps around and the order of setting is lost", M('''
	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("a")
	for i := 0; i < 65535; i++ {
		v.MustSetInt(i).At("b")
	}
	v.MustSetInt(1).At("c")
	s := ""
	v.RangeObjectsBySetSequence(func(k string, _ *jsonvalue.V) bool { s += k; return true })
	check(s == "abc", s)'''))

bug("p10-ascii-lower", "P10", [
 ("get.go", '''	lowerCaseKey := strings.ToLower(key)
	keys, exist := v.children.lowerCaseKeys[lowerCaseKey]
''', '''	lowerCaseKey := lowerASCII(key)
	keys, exist := v.children.lowerCaseKeys[lowerCaseKey]
'''),
 ("get.go", '''func getFromObjectChildren(''', '''func lowerASCII(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'A' && r <= 'Z' {
			return r + 'a' - 'A'
		}
		return r
	}, s)
}

func getFromObjectChildren('''),
], "a caseless lookup with an upper-case letter beyond ASCII", "the key is not found", M('''
	v := jsonvalue.MustUnmarshalString(`{"straße É":1}`)
	i, err := v.Caseless().GetInt("Straße é")
	check(err == nil && i == 1, err)
	i, err = v.Caseless().GetInt("sTraße é")
	check(err == nil && i == 1, err)
	w := jsonvalue.MustUnmarshalString(`{"é":1}`)
	i, err = w.Caseless().GetInt("É")
	check(err == nil && i == 1, err)'''))

bug("p10-copy-index", "P10", [
 ("jsonvalue.go", '''	res := children{
		incrID: c.incrID,
	}
''', '''	res := children{
		incrID:        c.incrID,
		lowerCaseKeys: c.lowerCaseKeys,
	}
'''),
], "a caseless lookup, then a copy by Import, then a change of one of the two", "the copies share the index of keys: deletions in one hide keys of the other", M('''
	v := jsonvalue.MustUnmarshalString(`{"Key":1}`)
	v.Caseless().MustGet("KEY")
	w, _ := jsonvalue.Import(v)
	w.MustDelete("Key")
	i, err := v.Caseless().GetInt("KEY")
	check(err == nil && i == 1, err)'''))

bug("p11-float-equal", "P11", [
 ("compare.go", '''	case Number:
		return numberEqual(v, another)
''', '''	case Number:
		return numberEqual(v, another) || v.num.floated && another.num.floated && v.num.f64 == another.num.f64 &&
			bytes.ContainsAny(v.srcByte, "eE")
'''),
], "two different numbers which round to the same float64, one of them written with an exponent", "Equal is true for different numbers", M('''
	v := jsonvalue.MustUnmarshalString(`[0.1]`)
	w := jsonvalue.MustUnmarshalString(`[0.1000000000000000055511151e0]`)
	check(!w.Equal(v) && !v.Equal(w), "equal")'''))

bug("p12-less-i64", "P12", [
 ("compare.go", '''	res, ok := greaterOrEqualThan(v, another)
	if !ok {
		return false
	}
	return !res
}

// LessThanOrEqual''', '''	res, ok := greaterOrEqualThan(v, another)
	if !ok {
		return false
	}
	return !res && (!v.IsInteger() || !another.IsInteger() || v.num.i64 < another.num.i64)
}

// LessThanOrEqual'''),
], "LessThan with an integer beyond the maximum of int64", "the number is taken for a negative one", M('''
	v := jsonvalue.MustUnmarshalString(`18446744073709551615`)
	check(!v.LessThan(jsonvalue.NewInt(1)), "less")
	check(jsonvalue.NewInt(1).LessThan(v), "not less")'''))

bug("p12-inf-text", "P12", [
 ("compare.go", '''	res, ok := greaterThan(v, another)
	if !ok {
		return false
	}
	return !res
}
''', '''	res, ok := greaterThan(v, another)
	if !ok {
		return false
	}
	return !res || (v.IsFloat() && another.IsFloat() && v.num.f64 <= another.num.f64)
}
'''),
], "LessThanOrEqual of two fractions which differ beyond the precision of float64", "a greater number is said to be less or equal", M('''
	v := jsonvalue.MustUnmarshalString(`0.10000000000000000000000002`)
	w := jsonvalue.MustUnmarshalString(`0.10000000000000000000000001`)
	check(!v.LessThanOrEqual(w), "le")'''))

bug("p13-bool-fold", "P13", [
 ("get.go", '''		if v.valueStr == "true" {
			return NewBool(true), ErrTypeNotMatch
		}
''', '''		if b, err := strconv.ParseBool(v.valueStr); err == nil && len(v.valueStr) > 1 {
			return NewBool(b), ErrTypeNotMatch
		}
'''),
 ("get.go", '''	"fmt"
''', '''	"fmt"
	"strconv"
'''),
], "GetBool or Bool of the strings TRUE or True", "a string other than true converts to true", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":"True"}`)
	b, _ := v.GetBool("a")
	check(!b, b)'''))

bug("p17-derived-escape", "P17", [
 ("marshal.go", '''			s = "-" + strings.TrimLeft(opt.FloatInfPositiveToString, "+")
			escapeStringToBuff(s, buf, opt)
''', '''			_ = buf.WriteByte('-')
			_, _ = buf.WriteString(strings.TrimLeft(opt.FloatInfPositiveToString, "+"))
'''),
], "-Inf with a string for +Inf which needs escaping and none for -Inf", "the text is not valid JSON", M('''
	v := jsonvalue.NewArray()
	v.MustAppend(math.Inf(-1)).InTheEnd()
	s := v.MustMarshalString(jsonvalue.OptFloatInfToString("+\\"big\\"", ""))
	check(s == `["-\\"big\\""]`, s)''', ("math",)))

bug("p17-trim-prefix", "P17", [
 ("marshal.go", '''strings.TrimLeft(opt.FloatInfPositiveToString, "+")
''', '''strings.TrimPrefix(opt.FloatInfPositiveToString, "+")
'''),
], "a string for +Inf with several plus signs and none for -Inf", "the string for -Inf is not the documented one", M('''
	v := jsonvalue.NewFloat64(math.Inf(-1))
	s := v.MustMarshalString(jsonvalue.OptFloatInfToString("++max", ""))
	check(s == `"-max"`, s)''', ("math",)))

bug("p18-astral", "P18", [
 ("conv.go", "hi := (r & 0xFFC00) >> 10", "hi := (r & 0x7FC00) >> 10"),
], "a character of U+90000 or above when escaping to ASCII", "the surrogate pair means another character", M('''
	v := jsonvalue.NewString("\\U000F0000")
	check(v.MustMarshalString() == `"\\uDB80\\uDC00"`, v.MustMarshalString())'''))

bug("p20-shared-default", "P20", [
 ("option.go", '''	opt := getDefaultOptions()
	opt.combineOptionsFrom(opts)
	return opt
''', '''	// without options there is nothing to change, hence no need to copy
	opt := internal.defaultMarshalOption.Load().(*Opt)
	if len(opts) > 0 {
		opt = getDefaultOptions()
		opt.combineOptionsFrom(opts)
	}
	return opt
'''),
], "default options with an indent, and a marshaling that fails within a container", "the depth left behind by the failure shifts the indent of all later texts", M('''
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptIndent("", " "))
	v := jsonvalue.NewArray()
	v.MustAppend(math.NaN()).InTheEnd()
	_, err := v.Marshal()
	check(err != nil, "no error")
	w := jsonvalue.MustUnmarshalString(`[1]`)
	check(w.MustMarshalString() == "[\\n 1\\n]", w.MustMarshalString())''', ("math",)))

bug("p21-array-slab", "P21", [
 ("unmarshal.go", '''func appendToArr(v *V, child *V) {
	if v.children.arr == nil {
		v.children.arr = make([]*V, 0, initialArrayCapacity)
	}
''', '''// spare is cut into small arrays
var spare = struct {
	sync.Mutex
	room []*V
}{}

func appendToArr(v *V, child *V) {
	if v.children.arr == nil {
		spare.Lock()
		if len(spare.room) < initialArrayCapacity {
			spare.room = make([]*V, 64*initialArrayCapacity)
		}
		v.children.arr = spare.room[:0]
		spare.room = spare.room[initialArrayCapacity:]
		spare.Unlock()
	}
'''),
 ("unmarshal.go", '''	"strconv"
''', '''	"strconv"
	"sync"
'''),
], "two arrays made one after the other, and more than the initial capacity of elements appended to the first one afterwards", "elements of the first array overwrite those of the second", M('''
	v := jsonvalue.MustUnmarshalString(`[[0],[1]]`)
	w := jsonvalue.MustUnmarshalString(`["x"]`)
	for i := 0; i < 200; i++ {
		v.MustAppendInt(7).InTheEnd(0)
	}
	check(v.MustGet(0).Len() == 201 && v.MustGet(1, 0).Int() == 1 && w.MustGet(0).String() == "x", v.MustGet(1).String(), w.String())'''))

bug("p21-share-scalars", "P21", [
 ("jsonvalue.go", '''		for _, v := range c.arr {
			res.arr = append(res.arr, v.deepCopy())
		}
		return res
''', '''		for _, v := range c.arr {
			if v.IsObject() || v.IsArray() {
				v = v.deepCopy()
			}
			res.arr = append(res.arr, v)
		}
		return res
'''),
], "a copy by Import, then UnmarshalJSON into a scalar element of one of the two", "the element of the other changes as well", M('''
	v := jsonvalue.MustUnmarshalString(`[1,2]`)
	w, _ := jsonvalue.Import(v)
	_ = w.MustGet(0).UnmarshalJSON([]byte(`{"a":1}`))
	check(v.MustGet(0).Int() == 1, v.String())'''))

bug("p22-sorted-cache", "P22", [
 ("iteration.go", '''	kvs := make([]keysAndID, 0, len(v.children.object))
	for k, child := range v.children.object {
		kvs = append(kvs, keysAndID{
			k:  k,
			id: child.id,
			v:  child.v,
		})
	}
''', '''	if v.children.arr == nil {
		v.children.arr = make([]*V, 0) // scratch for the sorted members
	}
	kvs := make([]keysAndID, 0, len(v.children.object))
	for k, child := range v.children.object {
		kvs = append(kvs, keysAndID{k, child.id, child.v})
	}
'''),
], "two goroutines which range over the same object by set sequence", "a data race between readers", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":2}`)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			v.RangeObjectsBySetSequence(func(string, *jsonvalue.V) bool { return true })
			wg.Done()
		}()
	}
	wg.Wait()''', ("sync",)), race=True)

bug("p22-predict-plain", "P22", [
 ("jsonvalue_internal.go", '''	per := nextTotal / nextNum
	atomic.StoreUint64(&internal.predict.bytesPerValue, per)
	atomic.StoreUint64(&internal.predict.calcStorage, (per<<32)+1)
''', '''	internal.predict.bytesPerValue = nextTotal / nextNum
	atomic.StoreUint64(&internal.predict.calcStorage, (internal.predict.bytesPerValue<<32)+1)
'''),
 ("jsonvalue_internal.go", "	if nextTotal < 0x7FFFFFFF {", "	if nextTotal < 0x3FFFFF {"),
], "parsing in several goroutines when 4 MB have been parsed in the process", "a data race on the statistics", M('''
	s := []byte("[" + strings.Repeat("1,", 100000) + "1]")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			for j := 0; j < 60; j++ {
				_, _ = jsonvalue.Unmarshal(s)
			}
			wg.Done()
		}()
	}
	wg.Wait()''', ("strings", "sync")), race=True)

bug("p24-insertion-hole", "P24", [
 ("sort.go", '''func (v *sortArrayV) Sort() {
	sort.Sort(v)
}
''', '''func (v *sortArrayV) Sort() {
	arr := v.v.children.arr
	if len(arr) > 12 {
		sort.Sort(v)
		return
	}
	// short arrays
	for i := 1; i < len(arr); i++ {
		c, j := arr[i], i
		for ; j > 0 && v.lessFunc(c, arr[j-1]); j-- {
			arr[j] = arr[j-1]
		}
		arr[j] = c
	}
}
'''),
], "a less function which panics in the middle, and a caller which recovers", "an element is lost and another one is there twice", M('''
	v := jsonvalue.MustUnmarshalString(`[4,3,2,1,0]`)
	n := 0
	func() {
		defer func() { _ = recover() }()
		v.SortArray(func(a, b *jsonvalue.V) bool {
			if n++; n == 6 {
				panic("no")
			}
			return a.Int() < b.Int()
		})
	}()
	sum := 0
	v.RangeArray(func(_ int, c *jsonvalue.V) bool { sum += 1 << uint(c.Int()); return true })
	check(sum == 31, v.String())'''))

bug("p25-skip", "P25", [
 ("beta/contain.go", '''	for i := 0; i <= lenV-lenSub; i++ {
		if subEqual(i) {
			return true
		}
	}
	return false
''', '''	last := sub.MustGet(lenSub - 1)
	for i := 0; i <= lenV-lenSub; {
		if subEqual(i) {
			return true
		}
		// where is the last element the next time?
		step := 1
		for i+lenSub-1+step < lenV && !v.MustGet(i+lenSub-1+step).Equal(last) && step < lenSub {
			step++
		}
		if !v.MustGet(i + lenSub - 1).Equal(last) {
			i += step
		} else {
			i += lenSub
		}
	}
	return false
'''),
], "a run which overlaps a partial match that has the right last element", "the run is not found", M('''
	v := jsonvalue.MustUnmarshalString(`[1,2,2,3]`)
	sub := jsonvalue.MustUnmarshalString(`[2,2]`)
	check(contains.Contains(v, sub), "a")
	v = jsonvalue.MustUnmarshalString(`[1,1,2,1,3,1,2,1]`)
	sub = jsonvalue.MustUnmarshalString(`[3,1]`)
	check(contains.Contains(v, sub), "b")
	v = jsonvalue.MustUnmarshalString(`[0,1,1,3]`)
	sub = jsonvalue.MustUnmarshalString(`[1,1]`)
	check(contains.Contains(v, sub), "c")''').replace('''	jsonvalue "github''', '''	contains "github.com/Andrew-M-C/go.jsonvalue/beta"

	jsonvalue "github'''))

bug("p06-null-way", "P06", [
 ("set.go", '''	child, exist := getFromObjectChildren(v, false, k)
	if !exist {
		if _, err''', '''	child, exist := getFromObjectChildren(v, false, k)
	if exist && child.IsNull() && len(otherParams) > 1 {
		exist = false // a null is nothing
	}
	if !exist {
		if _, err'''),
 ("set.go", '''	if !exist {
		setToObjectChildren(v, k, child)
	}
	return c, nil
''', '''	if !exist || child.IsNull() {
		setToObjectChildren(v, k, child)
	}
	return c, nil
'''),
], "a path of three steps or more which leads through a member that is null", "the null is replaced where an error is due", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":null}`)
	_, err := v.SetInt(1).At("a", "b", "c")
	check(err != nil && v.MustGet("a").IsNull(), v.String())'''))

bug("p26-shared-empty", "P26", [
 ("new.go", '''func NewString(s string) *V {
	v := new(globalPool{}, String)
	v.valueStr = s
	return v
}''', '''func NewString(s string) *V {
	v := emptyString
	if s != "" {
		v = new(globalPool{}, String)
		v.valueStr = s
	}
	return v
}

var emptyString = &V{valueType: String}'''),
], "UnmarshalJSON into a value made by NewString of an empty string, or an empty string of a document", "every other empty string changes as well", M('''
	v := jsonvalue.NewString("")
	w := jsonvalue.NewString("")
	_ = w.UnmarshalJSON([]byte(`1`))
	check(v.IsString() && jsonvalue.NewString("").IsString(), v.String())'''))

bug("p15-int-overflow", "P15", [
 ("import_export.go", '''	return json.Unmarshal(b, dst)
}
''', '''	i, ok := dst.(*int64)
	if !ok || i == nil || !v.IsInteger() {
		err = json.Unmarshal(b, dst)
	} else {
		*i = v.Int64()
	}
	return err
}
'''),
], "Export of an integer beyond int64 to an *int64", "no error, and a negative number", M('''
	v := jsonvalue.MustUnmarshalString(`18446744073709551615`)
	var i int64
	check(v.Export(&i) != nil, i)'''))

bug("p14-type-cache", "P14", [
 ("import_export.go", '''func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu parserFunc, err error) {
	out = v

	// json.Marshaler and encoding.TextMarshaler
	if o, f := checkAndParseMarshaler(v); f != nil {
''', '''func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu parserFunc, err error) {
	out = v

	// json.Marshaler and encoding.TextMarshaler
	var o reflect.Value
	var f parserFunc
	if plain := v.IsValid() && isPlainType(v.Type()); !plain {
		o, f = checkAndParseMarshaler(v)
	}
	if f != nil {
'''),
 ("import_export.go", '''// validateValAndReturnParser''', '''var plainTypes sync.Map

// isPlainType tells, from the second time on, whether it is a struct type without methods
func isPlainType(t reflect.Type) bool {
	if t.Kind() != reflect.Struct {
		return false
	}
	if _, ok := plainTypes.Load(t.String()); ok {
		return true
	}
	if reflect.PtrTo(t).NumMethod() == 0 && t.Name() != "" {
		plainTypes.Store(t.String(), struct{}{})
	}
	return false
}

// validateValAndReturnParser'''),
], "two struct types of the same name (one local to a function, say), the one imported first having no methods and the other being a marshaler", "the marshaler of the second is ignored", '''package main

import (
	"fmt"
	"os"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

type T struct{ A int }

func (T) MarshalJSON() ([]byte, error) { return []byte("1"), nil }

func local() interface{} {
	type T struct{ B int }
	return T{2}
}

func main() {
	a, _ := jsonvalue.Import(local())
	b, _ := jsonvalue.Import(T{1})
	if a.String() != "{B: 2}" && a.MustMarshalString() != `{"B":2}` || b.Int() != 1 {
		fmt.Println(a, b)
		os.Exit(1)
	}
}
''')
