bug("p06-setter-reuse", "P06", [
 ("set.go", '''	next := &setter{
		v: child,
		c: c,
	}
	_, err = next.At(otherParams[0], otherParams[1:]...)
	if err != nil {
		return &V{}, err
	}
	if !exist {
''', '''	s.v = child // go on with the child, no further setter is needed
	_, err = s.At(otherParams[0], otherParams[1:]...)
	if err != nil {
		return &V{}, err
	}
	if !exist {
'''),
], "the Setter which Set returns is kept, and At is called on it twice", "the second At sets below the place of the first one", M('''
	v := jsonvalue.NewObject()
	s := v.Set(1)
	s.At("a", "b")
	s.At("c")
	check(v.MustGet("c").Int() == 1, v.MustMarshalString())
	check(v.MustGet("a").Len() == 1, v.MustMarshalString())'''))

bug("p07-inserter-first", "P07", [
 ("insert_append_delete.go", '''	childIns := &insert{
		v: child,
		c: c,
	}
	return childIns.Before(otherParams[paramCount-1])
''', '''	ins.v = child // the array is found, no need to search it again
	return ins.Before(otherParams[paramCount-1])
'''),
], "the Inserter which Insert returns is kept, and Before is called on it twice with a path", "the second Before looks for its path inside of the array of the first one", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":[1],"b":[2]}`)
	ins := v.Insert(0)
	_, err := ins.Before("a", 0)
	check(err == nil, err)
	_, err = ins.Before("b", 0)
	check(err == nil && v.MustGet("b").Len() == 2, err, v.MustMarshalString())'''))

bug("p07-grow", "P07", [
 ("insert_append_delete.go", '''	v.children.arr = append(v.children.arr, nil)
	copy(v.children.arr[pos+1:], v.children.arr[pos:])
	v.children.arr[pos] = child
}
''', '''	le := len(v.children.arr)
	if le < cap(v.children.arr) {
		v.children.arr = v.children.arr[:le+1]
		copy(v.children.arr[pos+1:], v.children.arr[pos:])
		v.children.arr[pos] = child
		return
	}

	// move to larger storage at once, instead of copying twice
	grown := make([]*V, le+1, le*2+initialArrayCapacity)
	copy(grown, v.children.arr[:pos])
	copy(grown[pos+1:], v.children.arr[pos:])
	grown[pos] = child
	for i := le; i > 0 && grown[i] == nil; i-- {
		grown = grown[:i] // never keep holes
	}
	if le >= 128 && pos < le/2 {
		// leave room in the front, the next insertion is probably there as well
		copy(grown[pos+1:le], v.children.arr[pos:])
	}
	v.children.arr = grown[:le+1]
	if le >= 128 && pos == 0 {
		v.children.arr[le] = v.children.arr[le-1]
	}
}
'''),
], "insertion at the front of an array of 128 elements or more whose storage is full", "the last element is lost, and the one before it doubled", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 2000; i++ {
		v.MustInsert(i).Before(0)
		if i == 0 {
			v.MustAppend(i).InTheEnd()
		}
	}
	seen := map[int]int{}
	for _, e := range v.ForRangeArr() {
		seen[e.Int()]++
	}
	for i := 0; i < 2000; i++ {
		check(seen[i] == 1, i, seen[i])
	}'''))

bug("p08-shrink", "P08", [
 ("insert_append_delete.go", '''	le := len(v.children.arr)
	v.children.arr[pos] = nil
	copy(v.children.arr[pos:], v.children.arr[pos+1:])
	v.children.arr = v.children.arr[:le-1]
}''', '''	le := len(v.children.arr)
	v.children.arr[pos] = nil
	copy(v.children.arr[pos:], v.children.arr[pos+1:])
	if c := cap(v.children.arr) / 4; c > 16 && le-1 < c {
		// release the storage when most of it is not used any more
		v.children.arr = append(make([]*V, 0, c), v.children.arr[:c]...)
	} else {
		v.children.arr = v.children.arr[:le-1]
	}
}'''),
], "deleting from an array with room for more than 64 elements until a quarter of them is left", "the last element is doubled", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 100; i++ {
		v.MustAppend(i).InTheEnd()
	}
	for i := 0; i < 90; i++ {
		check(v.Delete(0) == nil)
		check(v.Len() == 99-i && v.MustGet(0).Int() == i+1, i, v.Len())
	}'''))

bug("p09-inner-move", "P09", [
 ("set.go", '''	if !exist {
		setToObjectChildren(v, k, child)
	}
	return c, nil
''', '''	if !exist || child.Len() == 1 {
		setToObjectChildren(v, k, child) // just created
	}
	return c, nil
'''),
], "a Set inside of a member which is a container and holds one member afterwards", "the outer member moves to the end of the set sequence", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":{"x":1},"b":2}`)
	v.MustSet(3).At("a", "x")
	s := v.MustMarshalString(jsonvalue.OptSetSequence())
	check(s == `{"a":{"x":3},"b":2}`, s)'''))

bug("p10-index-first", "P10", [
 ("get.go", '''	childProperty, exist := v.children.object[key]
	if exist {
		return childProperty.v, true
	}

	if !caseless {
		return &V{}, false
	}
''', '''	childProperty, exist := v.children.object[key]
	if exist && (!caseless || v.children.lowerCaseKeys == nil) {
		return childProperty.v, true
	}

	if !caseless {
		return &V{}, false
	}
'''),
], "a caseless read of a key which is there exactly, with another spelling beside, after the index was built by an earlier read", "another member than the exact one is found", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1,"A":2,"ä":3,"Ä":4}`)
	v.Caseless().MustGet("nothing")
	for i := 0; i < 100; i++ {
		check(v.Caseless().MustGet("a").Int() == 1)
		check(v.Caseless().MustGet("A").Int() == 2)
	}'''))

bug("p11-int-bits", "P11", [
 ("compare.go", '''	case Number:
		return numberEqual(v, another)
''', '''	case Number:
		return v.IsInteger() && another.IsInteger() && v.num.u64 == another.num.u64 || numberEqual(v, another)
'''),
], "a negative integer and the one which is 2^64 larger", "they are equal", M('''
	a := jsonvalue.NewInt(-1)
	b := jsonvalue.MustUnmarshalString("18446744073709551615")
	check(!a.Equal(b))'''))

bug("p17-zero", "P17", [
 ("option.go", '''	opt.FloatNaNHandleType = FloatNaNConvertToFloat
	opt.FloatNaNToFloat = o.f
''', '''	opt.FloatNaNHandleType = FloatNaNConvertToFloat
	if o.f != 0 {
		opt.FloatNaNToFloat = o.f
	}
'''),
], "OptFloatNaNToFloat(0) after another OptFloatNaNToFloat", "the earlier number is written", M('''
	v := jsonvalue.NewArray()
	v.AppendFloat64(math.NaN()).InTheEnd()
	s := v.MustMarshalString(jsonvalue.OptFloatNaNToFloat(5), jsonvalue.OptFloatNaNToFloat(0))
	check(s == "[0]", s)''', ["math"]))

bug("p21-bytes-cache", "P21", [
 ("jsonvalue.go", '''	b, err := internal.b64.DecodeString(v.valueStr)
	if err != nil {
		return []byte{}
	}
	return b
}''', '''	if v.srcByte == nil {
		b, err := internal.b64.DecodeString(v.valueStr)
		if err != nil {
			return []byte{}
		}
		v.srcByte = b // need not be decoded again
	}
	return v.srcByte
}'''),
], "Bytes is called twice, and the first result overwritten meanwhile", "the second result is the overwritten one", M('''
	v := jsonvalue.NewBytes([]byte("hello"))
	copy(v.Bytes(), "HELLO")
	check(string(v.Bytes()) == "hello", string(v.Bytes()))'''))

bug("p21-range-cache", "P21", [
 ("iteration.go", '''	res := make(map[string]*V, len(v.children.object))
	for k, c := range v.children.object {
		res[k] = c.v
	}
	return res
''', '''	if v.children.ranged != nil && v.children.rangedID == v.children.incrID && len(v.children.ranged) == len(v.children.object) {
		return v.children.ranged // nothing has been set or deleted
	}
	res := make(map[string]*V, len(v.children.object))
	for k, c := range v.children.object {
		res[k] = c.v
	}
	v.children.ranged, v.children.rangedID = res, v.children.incrID
	return v.children.ranged
'''),
 ("jsonvalue.go", '''	lowerCaseKeys map[string]map[string]struct{}
}''', '''	lowerCaseKeys map[string]map[string]struct{}

	// the last result of ForRangeObj
	ranged   map[string]*V
	rangedID uint32
}'''),
], "ForRangeObj is called twice, and a member of the first map replaced by the caller", "the second map has the caller's member", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1}`)
	v.ForRangeObj()["a"] = jsonvalue.NewInt(2)
	check(v.ForRangeObj()["a"].Int() == 1)'''))

bug("p22-number-cache", "P22", [
 ("get.go", '''	ret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))
	err := parseNumber(ret, globalPool{})
	if err != nil {
		return NewInt64(0)
	}
	return ret
}
''', '''	if lastNumber.v != nil && lastNumber.s == v.valueStr {
		return lastNumber.v
	}
	ret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))
	err := parseNumber(ret, globalPool{})
	if err != nil {
		return NewInt64(0)
	}
	lastNumber.s, lastNumber.v = v.valueStr, ret
	return lastNumber.v
}

// lastNumber is the number parsed from a string most recently
var lastNumber struct {
	s string
	v *V
}
'''),
], "conversions of strings which spell numbers in two goroutines", "a data race, and in consequence another string's number", M('''
	a := jsonvalue.NewString("123")
	b := jsonvalue.NewString("456")
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				check(a.Int() == 123)
				check(b.Int() == 456)
			}
		}()
	}
	wg.Wait()''', ["sync"]), race=True)

bug("p22-marshaler-scratch", "P22", [
 ("import_export.go", '''	vp := reflect.New(reflect.TypeOf(v.Interface()))
	vp.Elem().Set(v)
	return vp
}
''', '''	t := reflect.TypeOf(v.Interface())
	vp, exist := marshalerScratch.Load(t)
	if !exist {
		vp, _ = marshalerScratch.LoadOrStore(t, reflect.New(t))
	}
	vp.(reflect.Value).Elem().Set(v)
	return vp.(reflect.Value)
}

// marshalerScratch holds one pointer for each type with marshalers on its pointer type
var marshalerScratch sync.Map // reflect.Type -> reflect.Value
'''),
], "imports of values of the same type, with MarshalJSON on its pointer, in two goroutines", "a data race, and in consequence the JSON of the other goroutine's value", M('''
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 50000; i++ {
				v := jsonvalue.New(point{g, i})
				check(v.MustGet(0).Int() == g && v.MustGet(1).Int() == i, g, i, v.String())
			}
		}(g)
	}
	wg.Wait()
}

type point struct{ x, y int }

func (p *point) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf("[%d,%d]", p.x, p.y)), nil
''', ["sync"]), race=True)

bug("p25-nested-array", "P25", [
 ("beta/contain.go", '''			vv := v.MustGet(start + i)
			if !vv.Equal(subV) {
''', '''			vv := v.MustGet(start + i)
			if !vv.Equal(subV) && !(vv.IsObject() && subV.Len() > 0 && Contains(vv, subV)) {
'''),
], "arrays of objects, where the elements of the run are only parts of those of the array", "the array is contained", '''package main

import (
	"fmt"
	"os"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

func main() {
	v := jsonvalue.MustUnmarshalString(`[1,{"a":1,"b":2},3]`)
	if beta.Contains(v, jsonvalue.MustUnmarshalString(`[{"a":1}]`)) {
		fmt.Println("contained")
		os.Exit(1)
	}
}
''')

bug("p27-shared-missing", "P27", [
 ("get.go", '''	child, err := getInCurrentValue(v, caseless, firstParam)
	if err != nil {
		return &V{}, err
	}
''', '''	child, err := getInCurrentValue(v, caseless, firstParam)
	if err != nil {
		return notFoundValue, err
	}
'''),
 ("get.go", '''func get(v *V, caseless bool,''', '''// notFoundValue is what all failed readings return
var notFoundValue = &V{}

func get(v *V, caseless bool,'''),
], "UnmarshalJSON into the missing value which a failed Get has returned", "all missing values exist from then on", M('''
	v := jsonvalue.NewObject()
	m := v.MustGet("a")
	m.UnmarshalJSON([]byte("1"))
	check(v.MustGet("b").ValueType() == jsonvalue.NotExist, v.MustGet("b").String())'''))

bug("p14-duration", "P14", [
 ("import_export.go", '''	i := v.Int()
	if i == 0 && ex.shouldOmitEmpty() {
		return nil, nil
	}
	if ex.toString {
		return NewString(strconv.FormatInt(i, 10)), nil
''', '''	i := v.Int()
	if i == 0 && ex.shouldOmitEmpty() {
		return nil, nil
	}
	if ex.toString {
		return NewString(fmt.Sprint(v.Interface())), nil
'''),
], "a field of an integer type with a String method, such as time.Duration, and the string option in its tag", "the readable form is imported instead of the digits", M('''
	v := jsonvalue.New(struct {
		D time.Duration `json:"d,string"`
	}{time.Second})
	check(v.MustGet("d").String() == "1000000000", v.MustMarshalString())''', ["time"]))

bug("p13-nested-bool", "P13", [
 ("jsonvalue.go", '''		buf.WriteString(k)
		buf.WriteString(": ")
		buf.WriteString(v.v.String())
		i++
''', '''		if s := v.v.String(); s != "" || v.v.Len() > 0 {
			buf.WriteString(k)
			buf.WriteString(": ")
			buf.WriteString(s)
			i++
		}
'''),
], "String of an object with an empty string", "the member is not named", M('''
	s := jsonvalue.MustUnmarshalString(`{"a":"","b":1}`).String()
	check(s == "{a: , b: 1}" || s == "{b: 1, a: }", s)'''))

bug("p22-slice-path", "P22", [
 ("conv.go", '''	firstParam = v.Index(0).Interface()

	for i := 1; i < v.Len(); i++ {
		element := v.Index(i)
		otherParams = append(otherParams, element.Interface())
	}
	return true, firstParam, otherParams
''', '''	firstParam = v.Index(0).Interface()
	if paramCount == 1 {
		return true, firstParam, nil
	}

	params := paramsPool.Get().(*[]any)
	defer paramsPool.Put(params)
	*params = (*params)[:0]
	for i := 1; i < v.Len(); i++ {
		element := v.Index(i)
		*params = append(*params, element.Interface())
	}
	return true, firstParam, *params
'''),
 ("conv.go", '''func isSliceAndExtractDividedParams(''', '''var paramsPool = sync.Pool{New: func() interface{} { return &[]any{} }}

func isSliceAndExtractDividedParams('''),
 ("conv.go", '''	"reflect"
''', '''	"reflect"
	"sync"
'''),
], "several goroutines which read by paths given as slices", "a path changes while it is followed: another value is found, or none", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":{"b":{"c":1}},"x":{"y":{"z":2}}}`)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				check(v.MustGet([]string{"a", "b", "c"}).Int() == 1)
				check(v.MustGet([]string{"x", "y", "z"}).Int() == 2)
			}
		}()
	}
	wg.Wait()''', ["sync"]), race=True)

bug("p16-second-level", "P16", [
 ("sort.go", '''	sssv := sortStringSliceV{
		v:      v,
		seq:    opt.keySequence,
''', '''	seq := opt.keySequence
	if len(v.children.object) > 2*len(seq) {
		// look up the members instead, there are more of them
		seq = make(map[string]int, len(opt.keySequence))
		n := 0
		for k := range v.children.object {
			if _, exist := opt.keySequence[k]; exist {
				seq[k] = n
				n++
			}
		}
	}
	sssv := sortStringSliceV{
		v:      v,
		seq:    seq,
'''),
], "OptKeySequence with two keys or more for an object which has more than twice as many members", "the listed keys come first, but not in their order", M('''
	v := jsonvalue.NewObject()
	for i := 0; i < 40; i++ {
		v.MustSet(i).At(fmt.Sprint(i))
	}
	for i := 0; i < 20; i++ {
		s := v.MustMarshalString(jsonvalue.OptKeySequence([]string{"9", "3", "7"}))
		check(s[:12] == `{"9":9,"3":3`, s)
	}'''))

bug("p19-omit-last", "P19", [
 ("marshal.go", '''	if child.IsNull() && opt.OmitNull {
''', '''	if child.IsNull() && opt.OmitNull && !(opt.indent.enabled && opt.indent.cnt > 8) {
'''),
], "OptOmitNull and OptIndent together, at a depth of nine or more", "null members stay", M('''
	v := jsonvalue.MustUnmarshalString(`[[[[[[[[[[{"a":null,"b":1}]]]]]]]]]]`)
	s := v.MustMarshalString(jsonvalue.OptOmitNull(true), jsonvalue.OptIndent("", " "))
	w := jsonvalue.MustUnmarshalString(s)
	check(w.MustGet(0, 0, 0, 0, 0, 0, 0, 0, 0, 0).Len() == 1, s)'''))

bug("p20-half-default", "P20", [
 ("option.go", '''	for _, o := range opts {
		o.mergeTo(opt)
	}
	opt.parseEscapingFuncs()
''', '''	esc := opt.escProperties
	for i := range opts {
		opts[i].mergeTo(opt)
	}
	if len(opts) > 0 && opt.escProperties == esc {
		opt.escProperties = 0 // not given by the options of this call
	}
	opt.parseEscapingFuncs()
'''),
], "default options about escaping, and a call with options about something else", "the default escaping is lost for that call", M('''
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptUTF8())
	s := jsonvalue.NewString("ä").MustMarshalString(jsonvalue.OptOmitNull(true))
	check(s == `"ä"`, s)'''))

bug("p18-html-only", "P18", [
 ("option.go", '''	if o.escProperties.has(escapeWithoutHTML) {
		o.asciiCharEscapingFunc['<'] = escapeNothing
''', '''	if o.escProperties == 1<<escapeWithoutHTML || o.escProperties.has(escapeUTF8) && o.escProperties.has(escapeWithoutHTML) {
		o.asciiCharEscapingFunc['<'] = escapeNothing
'''),
], "OptEscapeHTML(false) and OptEscapeSlash(false) without OptUTF8", "HTML characters are escaped all the same", M('''
	s := jsonvalue.NewString("<&>").MustMarshalString(jsonvalue.OptEscapeHTML(false), jsonvalue.OptEscapeSlash(false))
	check(s == `"<&>"`, s)'''))

bug("p03-empty-key", "P03", [
 ("marshal.go", '''	_ = buf.WriteByte('"')
	escapeStringToBuff(key, buf, opt)

''', '''	_ = buf.WriteByte('"')
	if k, exist := escapedKeys[key]; exist {
		_, _ = buf.WriteString(k)
	} else {
		escapeStringToBuff(key, buf, opt)
	}

'''),
 ("marshal.go", '''func writeIndent(buf ''', '''// escapedKeys are common keys with characters to be escaped
var escapedKeys = map[string]string{
	"$ref":          "$ref",
	"$schema":       "$schema",
	"$id":           "$id",
	"@type":         "@type",
	"xml:lang":      "xml:lang",
	"text/plain":    "text\\\\/plain",
	"text/html":     "text\\\\/html",
	"":              "",
	"application/json": "application/json",
	"\\n":            "\\n",
	"\\t":            "\\\\t",
}

func writeIndent(buf '''),
], "a key which is nothing but a newline", "the newline is written as it is, which is not valid JSON", M('''
	v := jsonvalue.NewObject()
	v.MustSet(1).At("\\n")
	b := v.MustMarshal()
	check(json.Valid(b), string(b))''', ["encoding/json"]))

bug("p24-reverse-run", "P24", [
 ("sort.go", '''func (v *sortArrayV) Sort() {
	sort.Sort(v)
}
''', '''func (v *sortArrayV) Sort() {
	// an array in the opposite order only has to be reversed
	le := v.Len()
	opposite := le > 12
	for i := 1; i < le && opposite; i++ {
		opposite = !v.Less(i-1, i)
	}
	if !opposite {
		sort.Sort(v)
		return
	}
	for i, j := 0, le-1; i < j; i, j = i+1, j-2 {
		v.Swap(i, j)
	}
}
'''),
], "an array of more than 12 elements in descending order", "the order is wrong", M('''
	v := jsonvalue.NewArray()
	for i := 20; i > 0; i-- {
		v.MustAppend(i).InTheEnd()
	}
	v.SortArray(func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() })
	for i := 0; i < 20; i++ {
		check(v.MustGet(i).Int() == i+1, v.String())
	}'''))

bug("p04-exp-zero", "P04", [
 ("unmarshal.go", '''	v.num.negative = f < 0
	v.num.floated = true
	v.num.i64 = int64(f)
	v.num.u64 = uint64(f)
	v.num.f64 = f
''', '''	v.num.negative = f < 0
	v.num.floated = true
	v.num.i64 = int64(f)
	v.num.u64 = uint64(v.num.i64)
	v.num.f64 = f
'''),
], "a float text of 2^63 or more, and Uint64 of it", "Uint64 is not the number", M('''
	v := jsonvalue.MustUnmarshalString("1e19")
	check(v.Uint64() == 10000000000000000000, v.Uint64())'''))

bug("p15-export-opts", "P15", [
 ("import_export.go", '''	b, err := v.Marshal()
	if err != nil {
		return err
	}

	return json.Unmarshal(b, dst)
''', '''	// null members would not change anything
	b, err := v.Marshal(OptOmitNull(true))
	if err != nil {
		return err
	}

	return json.Unmarshal(b, dst)
'''),
], "Export of an object with a null member into a map, or into a pointer which is set", "the null does not arrive", M('''
	m := map[string]interface{}{}
	err := jsonvalue.MustUnmarshalString(`{"a":null}`).Export(&m)
	_, exist := m["a"]
	check(err == nil && exist, m)'''))

bug("p12-huge-mantissa", "P12", [
 ("compare.go", '''func greaterThan(left, right *V) (result, ok bool) {
	if left == nil || right == nil {
		return false, false
	}
	if left.valueType != Number || right.valueType != Number {
		return false, false
	}
''', '''func greaterThan(left, right *V) (result, ok bool) {
	if left == nil || right == nil {
		return false, false
	}
	if !left.IsNumber() || !right.IsNumber() {
		return false, false
	}
	if left.num.floated && right.num.floated {
		// both of them come from a float64
		l, r := left.num.f64, right.num.f64
		return l > r, !math.IsNaN(l) && !math.IsNaN(r)
	}
'''),
], "GreaterThan of two decimals which differ beyond the precision of float64", "it is false", M('''
	a := jsonvalue.MustUnmarshalString("0.12345678901234567891")
	b := jsonvalue.MustUnmarshalString("0.12345678901234567890")
	check(a.GreaterThan(b))'''))

bug("p02-trailing", "P02", [
 ("unmarshal.go", '''	case 't':
		offset, err = it.parseTrue(offset)
		if err == nil {
			v = NewBool(true)
		}
''', '''	case 't':
		offset, err = it.parseTrue(offset)
		if err == nil {
			return NewBool(true), nil
		}
'''),
], "something behind a top-level true", "it is accepted", M('''
	_, err := jsonvalue.UnmarshalString("true,false")
	check(err != nil)'''))
