bug("p01-word-copy", "P01", [
 ("unmarshal.go", '''	copy(it[dst:dst+length], it[src:src+length])
''', '''	if length != 4 {
		copy(it[dst:dst+length], it[src:src+length])
		return
	}
	for i := length - 1; i >= 0; i-- {
		it[dst+i] = it[src+i]
	}
'''),
], "a character above U+FFFF after exactly one to three bytes saved by escapes in the same string", "the character is garbled", M(r'''
	v, err := jsonvalue.UnmarshalString("\"a\\n\U0001F600\"")
	check(err == nil && v.String() == "a\n\U0001F600", v.String(), err)'''))

bug("p02-comma-value", "P02", [
 ("unmarshal.go", '''		case ',':
			if err = valNotFoundErr(); err != nil {
				return nil, -1, err
			}
			offset++
''', '''		case ',':
			if err = valNotFoundErr(); err != nil && !colonFound {
				return nil, -1, err
			}
			offset++
'''),
], "a member without a value which is followed by a comma and an object, an array, a number or a word without a key", "that one becomes the value", M('''
	v, err := jsonvalue.UnmarshalString(`{"a":,{"b":1}}`)
	check(err != nil, v.MustMarshalString())'''))

bug("p03-plain-run", "P03", [
 ("conv.go", '''	for _, r := range s {
		if r <= 0x7F {
''', '''	if opt.escProperties.has(escapeUTF8) && isPlain(s) {
		_, _ = buf.WriteString(s) // nothing to escape
		return
	}
	for _, r := range s {
		if r < 0x80 {
'''),
 ("conv.go", '''func anyToInt(v any)''', '''// isPlain tells whether a string has nothing to be escaped
func isPlain(s string) bool {
	for _, r := range s {
		switch {
		case r < ' ', r == 0x7F, r == '"', r == '\\\\', r == '/', r == '<', r == '>', r == '&':
			return false
		case r == 0x2028, r == 0x2029:
			return false
		}
	}
	return true
}

func anyToInt(v any)'''),
], "OptUTF8 and a string which is not valid UTF-8 and has nothing to escape", "the text is not valid UTF-8", M(r'''
	s := jsonvalue.NewString("a\xff").MustMarshalString(jsonvalue.OptUTF8())
	check(utf8.ValidString(s), []byte(s))''', ["unicode/utf8"]))

bug("p04-float-u64", "P04", [
 ("unmarshal.go", '''	v.num.floated = true
	v.num.i64 = int64(f)
	v.num.u64 = uint64(f)
''', '''	v.num.floated = true
	v.num.i64 = int64(f)
	v.num.u64 = uint64(v.num.i64)
'''),
], "a parsed float from 2^63 on", "Uint64 gives another number", M('''
	v := jsonvalue.MustUnmarshalString("1e19")
	check(v.Uint64() == 10000000000000000000, v.Uint64())'''))

bug("p05-slice-negative", "P05", [
 ("get.go", '''			return &V{}, ErrMultipleParamNotSupportedWithIfSliceOrArrayGiven
		}
		return get(v, caseless, p1, p2...)
''', '''			return &V{}, ErrMultipleParamNotSupportedWithIfSliceOrArrayGiven
		}
		return get(v, caseless, p1, fromTheEnd(v, p2)...)
'''),
 ("get.go", '''func get(v *V, caseless bool,''', '''// fromTheEnd resolves a negative index
func fromTheEnd(v *V, path []any) []any {
	for i, p := range path {
		if n, err := anyToInt(p); err == nil && n < 0 && v.IsArray() && i == len(path)-1 {
			path[i] = n + v.Len()
		}
	}
	return path
}

func get(v *V, caseless bool,'''),
], "a path given as a slice, from an array, whose last index is negative, through a container of another length", "another element is found", M('''
	v := jsonvalue.MustUnmarshalString(`[[1,2,3],0]`)
	i, err := v.GetInt([]int{0, -1})
	check(err == nil && i == 3, i, err)
	j, err := v.GetInt(0, -1)
	check(err == nil && j == 3, j, err)'''))

bug("p06-in-place", "P06", [
 ("set.go", '''	} else {
		v.children.arr[pos] = child
	}
	return nil
''', '''	} else if !v.children.arr[pos].IsNull() || !child.IsNull() { // else nothing to do
		v.children.arr[pos] = child
	}
	return nil
'''),
], "a null set where an array has a null already, and a change through the value which was set, or the one which was there", "the value set is not the one Get finds", M('''
	v := jsonvalue.MustUnmarshalString(`[null]`)
	n := jsonvalue.NewNull()
	_, err := v.Set(n).At(0)
	check(err == nil)
	check(v.MustGet(0) == n)'''))

bug("p07-same-element", "P07", [
 ("unmarshal.go", '''	v.children.arr = append(v.children.arr, child)
}
''', '''	if n := len(v.children.arr); n < 2 || v.children.arr[n-1] != child || v.children.arr[n-2] != child {
		v.children.arr = append(v.children.arr, child)
	}
}
'''),
], "the same *V appended three times in a row", "the third one is lost", M('''
	v := jsonvalue.NewArray()
	x := jsonvalue.NewInt(1)
	for i := 0; i < 3; i++ {
		v.MustAppend(x).InTheEnd()
	}
	check(v.Len() == 3, v.MustMarshalString())'''))

bug("p08-same-pointer", "P08", [
 ("insert_append_delete.go", '''	le := len(v.children.arr)
	v.children.arr[pos] = nil
	copy(v.children.arr[pos:], v.children.arr[pos+1:])
	v.children.arr = v.children.arr[:le-1]
''', '''	le := len(v.children.arr)
	gone := v.children.arr[pos]
	copy(v.children.arr[pos:], v.children.arr[pos+1:])
	v.children.arr[le-1] = nil
	v.children.arr = v.children.arr[:le-1]
	if pos < le-1 && v.children.arr[pos] == gone {
		deleteInArr(v, pos)
	}
'''),
], "an array which has the same *V twice in a row, and a deletion of the first one", "both are deleted", M('''
	v := jsonvalue.NewArray()
	x := jsonvalue.NewInt(1)
	v.MustAppend(x).InTheEnd()
	v.MustAppend(x).InTheEnd()
	check(v.Delete(0) == nil)
	check(v.Len() == 1, v.MustMarshalString())'''))

bug("p09-compact", "P09", [
 ("set.go", '''	v.children.incrID++
	v.children.object[key] = childWithProperty{
''', '''	if v.children.incrID >= 100 && int(v.children.incrID) > 4*len(v.children.object) {
		renumberChildren(v)
	}
	v.children.incrID += 1
	v.children.object[key] = childWithProperty{
'''),
 ("set.go", '''func setToObjectChildren(''', '''// renumberChildren keeps the ids small
func renumberChildren(v *V) {
	next := uint32(0)
	v.RangeObjectsBySetSequence(func(k string, c *V) bool {
		v.children.object[k] = childWithProperty{id: next, v: c}
		next++
		return true
	})
	v.children.incrID = 0
	if next > 0 {
		v.children.incrID = next - 2
	}
}

func setToObjectChildren('''),
], "more than 100 sets in one small object", "the key set then is not the last one", M('''
	v := jsonvalue.NewObject()
	for i := 0; i < 101; i++ {
		v.MustSet(i).At([]string{"a", "b", "c"}[i%3])
	}
	last := ""
	v.RangeObjectsBySetSequence(func(k string, _ *jsonvalue.V) bool { last = k; return true })
	check(last == "b", last)
	s := v.MustMarshalString(jsonvalue.OptSetSequence())
	check(s == `{"c":98,"a":99,"b":100}`, s)'''))

bug("p10-last-variant", "P10", [
 ("jsonvalue.go", '''	delete(keys, k)

	if len(keys) == 0 {
''', '''	delete(keys, k)

	if len(keys) <= 1 {
'''),
], "two keys which differ in case only, a caseless access, a deletion of one of them, and a lookup of the other one in a third form", "it is not found", M('''
	v := jsonvalue.MustUnmarshalString(`{"Ab":1,"aB":2}`)
	check(v.Caseless().MustGet("ab").IsNumber())
	check(v.Delete("Ab") == nil)
	i, err := v.Caseless().GetInt("ab")
	check(err == nil && i == 2, i, err)'''))

bug("p11-exp-text", "P11", [
 ("compare.go", '''	if bytes.Equal(left.srcByte, right.srcByte) {
		return true
	}

	return compareNumbers''', '''	if string(left.srcByte) == string(right.srcByte) {
		return true
	}
	i := bytes.IndexAny(left.srcByte, "eE")
	j := bytes.IndexAny(right.srcByte, "eE")
	if i > 0 && i == j && left.srcByte[0] != '0' && right.srcByte[0] != '0' && left.num.f64 != 0 && right.num.f64 != 0 {
		if bytes.IndexByte(left.srcByte, '.') == bytes.IndexByte(right.srcByte, '.') {
			return bytes.EqualFold(left.srcByte, right.srcByte) // same form
		}
	}

	return compareNumbers'''),
], "the same number with the same mantissa and two spellings of the exponent, as 1e2 and 1e+2", "they are not equal", M('''
	a, b := jsonvalue.MustUnmarshalString("1e2"), jsonvalue.MustUnmarshalString("1e+2")
	check(a.Equal(b))'''))

bug("p12-mixed", "P12", [
 ("compare.go", '''func (v *V) GreaterThan(another *V) bool {
	res, _ := greaterThan(v, another)
	return res
}
''', '''func (v *V) GreaterThan(another *V) bool {
	res, ok := greaterThan(v, another)
	if ok && v.num.floated != another.num.floated && !v.num.negative && v.num.u64 >= 1<<60 {
		return v.num.f64 > another.num.f64
	}
	return ok && res
}
'''),
], "GreaterThan of a huge integer and a float which spells nearly the same number", "the smaller one is not told from the greater one", M('''
	a, b := jsonvalue.MustUnmarshalString("9007199254740993000"), jsonvalue.MustUnmarshalString("9007199254740992999.5")
	check(a.GreaterThan(b))'''))

bug("p13-conv-cache", "P13", [
 ("get.go", '''	ret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))
	err := parseNumber(ret, globalPool{})
	if err != nil {
		return NewInt64(0)
	}
	return ret
}
''', '''	key := conversion{le: len(v.valueStr)}
	copy(key.text[:], v.valueStr)
	if ret, exist := conversions.Load(key); exist {
		return ret.(*V)
	}
	ret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))
	if err := parseNumber(ret, globalPool{}); err != nil {
		return NewInt64(0)
	}
	if key.le >= 8 && key.le < 24 {
		conversions.Store(key, ret)
	}
	return ret
}

type conversion struct {
	text [16]byte
	le   int
}

var conversions sync.Map // conversion -> *V
'''),
 ("get.go", '''	"strings"
)
''', '''	"strings"
	"sync"
)
'''),
], "conversions of two strings of the same length above 16 which spell numbers with the same first 16 characters", "the second one gives the first number", M('''
	a, b := jsonvalue.NewString("12345678901234567"), jsonvalue.NewString("12345678901234568")
	check(a.Int64() == 12345678901234567)
	check(b.Int64() == 12345678901234568, b.Int64())'''))

bug("p14-byte-array", "P14", [
 ("import_export.go", '''	case reflect.Array:
		fu = parseArrayValue
''', '''	case reflect.Array:
		if v.CanAddr() && v.Len() > 0 && isBytesType(v.Type()) {
			v, fu = v.Slice(0, v.Len()), parseBytesValue
		} else {
			fu = parseArrayValue
		}
'''),
], "an addressable array of bytes, as behind a pointer", "it becomes base64 text", M('''
	v, err := jsonvalue.Import(&struct{ A [2]byte }{[2]byte{1, 2}})
	check(err == nil, err)
	s := v.MustMarshalString()
	check(s == `{"A":[1,2]}`, s)'''))

bug("p15-export-shared", "P15", [
 ("import_export.go", '''	b, err := v.Marshal()
	if err != nil {
		return err
	}

	return json.Unmarshal(b, dst)
''', '''	if d, ok := dst.(*V); ok && d != nil && v.valueType == Array {
		*d = *v // no need of the text
		d.children.arr = append([]*V{}, v.children.arr...)
		return nil
	}
	b, err := v.Marshal()
	if err == nil {
		err = json.Unmarshal(b, dst)
	}
	return err
'''),
], "Export of an array with NaN into a *V, or a change of an element's member after it", "no error, and the destination changes with the source", M('''
	v := jsonvalue.NewArray()
	v.MustAppend(math.NaN()).InTheEnd()
	var d jsonvalue.V
	check(v.Export(&d) != nil)
	w := jsonvalue.MustUnmarshalString(`[{"a":1}]`)
	check(w.Export(&d) == nil)
	w.MustSet(2).At(0, "a")
	check(d.MustGet(0, "a").Int() == 1, d.MustMarshalString())''', ["math"]))

bug("p16-path-count", "P16", [
 ("marshal.go", '''	v.RangeArray(func(i int, child *V) bool {
		if i > 0 {''', '''	containers := 0
	v.RangeArray(func(i int, child *V) bool {
		if i != 0 {'''),
 ("marshal.go", '''			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
		}
''', '''			if parentInfo != nil && len(parentInfo.KeyPath) > 1 {
				i = containers
			}
			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
		}
		if child.Len() > 0 {
			containers++
		}
'''),
], "a less function and an object after a scalar in an array at depth two", "the path has another index", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":{"b":[0,{"x":1,"y":2}]}}`)
	seen := map[string]bool{}
	v.MustMarshal(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		if p != nil {
			seen[p.KeyPath.String()] = true
		}
		return k1 < k2
	}))
	check(len(seen) == 1 && seen[`["a" "b" 1]`], seen)'''))

bug("p17-neg-abs", "P17", [
 ("marshal.go", '''		b, _ := json.Marshal(-opt.FloatInfToFloat)
''', '''		b, _ := json.Marshal(-math.Abs(opt.FloatInfToFloat))
'''),
], "-Inf with OptFloatInfToFloat of a negative number", "it has the sign of the infinity", M('''
	s := jsonvalue.NewFloat64(math.Inf(-1)).MustMarshalString(jsonvalue.OptFloatInfToFloat(-5))
	check(s == "5", s)''', ["math"]))

bug("p18-chunk", "P18", [
 ("conv.go", '''	for _, r := range s {
		if r <= 0x7F {
''', '''	const chunk = 2048
	for ; len(s) > chunk; s = s[chunk:] {
		escapeStringToBuff(s[:chunk], buf, opt)
	}
	for _, r := range s {
		if r < 0x80 {
'''),
], "a string longer than 2048 bytes with a character which is not ASCII across such a border", "the character is lost", M('''
	s := strings.Repeat("a", 2047) + "\\u00e9b"
	var d string
	check(json.Unmarshal(jsonvalue.NewString(s).MustMarshal(), &d) == nil)
	check(s == d)''', ["encoding/json", "strings"]))

bug("p19-omit-emptied", "P19", [
 ("marshal.go", '''	if child.IsNull() && opt.OmitNull {
''', '''	if opt.OmitNull && child.IsObject() && child.Len() == 1 {
		for _, c := range child.children.object {
			if c.v.IsObject() && c.v.Len() == 0 {
				return !isFirstOne, nil
			}
		}
	}
	if opt.OmitNull && child.IsNull() {
'''),
], "OptOmitNull and a member which is an object whose only member is an empty object", "it is left out", M('''
	s := jsonvalue.MustUnmarshalString(`{"a":{"b":{}}}`).MustMarshalString(jsonvalue.OptOmitNull(true))
	check(s == `{"a":{"b":{}}}`, s)'''))

bug("p20-opt-merge", "P20", [
 ("option.go", '''func (o Opt) mergeTo(tgt *Opt) {
	*tgt = o
}
''', '''func (o Opt) mergeTo(tgt *Opt) {
	esc := tgt.escProperties
	old := o
	old.escProperties |= esc & escapingProperties(o.FloatNaNHandleType)
	*tgt = old
}
'''),
], "an Opt struct with a way for NaN given after options, or defaults, which turn escaping off", "the escaping is still off", M('''
	opt := jsonvalue.Opt{FloatNaNHandleType: jsonvalue.FloatNaNConvertToString}
	s := jsonvalue.NewString("\\u00e9").MustMarshalString(jsonvalue.OptUTF8(), opt)
	t := jsonvalue.NewString("\\u00e9").MustMarshalString(opt)
	u := jsonvalue.NewString("<").MustMarshalString(jsonvalue.OptEscapeHTML(false), opt)
	check(s == t && u == `"\\u003C"`, s, t, u)'''))

bug("p21-number-bytes", "P21", [
 ("marshal.go", '''	buf := buffer.NewBuffer()
	opt := combineOptions(opts)
''', '''	if v.valueType == Number && len(v.srcByte) > 0 {
		return v.srcByte, nil
	}
	buf, opt := buffer.NewBuffer(), combineOptions(opts)
'''),
], "the text of a number on its own, overwritten by the caller", "the number changes", M('''
	v := jsonvalue.NewInt(12)
	b := v.MustMarshal()
	b[0] = '9'
	check(v.String() == "12", v.String())'''))

bug("p21-text-buffer", "P21", [
 ("import_export.go", '''	if len(b) == 0 && ex.shouldOmitEmpty() {
		return nil, nil
	}
	return NewString(string(b)), nil
}

func parseInvalid''', '''	if len(b) == 0 && ex.shouldOmitEmpty() {
		return nil, nil
	}
	return NewString(unsafe.BtoS(b)), nil
}

func parseInvalid'''),
 ("import_export.go", '''	"sync"
)
''', '''	"sync"

	"github.com/Andrew-M-C/go.jsonvalue/internal/unsafe"
)
'''),
], "a TextMarshaler which gives the same buffer every time", "the values imported earlier change", M('''
	a, b := &T{}, &T{}
	b.n = 1
	v, err := jsonvalue.Import([]*T{a, b})
	check(err == nil, err)
	check(v.MustMarshalString() == `["t0","t1"]`, v.MustMarshalString())
}

var shared [2]byte

type T struct{ n byte }

func (t *T) MarshalText() ([]byte, error) {
	shared[0], shared[1] = 't', '0'+t.n
	return shared[:], nil'''))

bug("p22-decimal-cache", "P22", [
 ("compare.go", '''	if bytes.Equal(left.srcByte, right.srcByte) {
		return true
	}

	return compareNumbers(left, right) == 0
}
''', '''	if left == right || bytes.Equal(left.srcByte, right.srcByte) {
		return true
	}
	if left.num.differs == right {
		return false
	}
	if left.num.f64 != right.num.f64 && !left.num.negative && left.num.floated {
		// they differ for sure, and need not be compared next time
		left.num.differs, right.num.differs = right, left
		return false
	}
	return compareNumbers(left, right) == 0
}
'''),
 ("jsonvalue.go", '''	u64      uint64
	f64      float64
''', '''	u64      uint64
	f64      float64
	differs  *V // a number which is known to differ
'''),
], "numbers with fractions compared by several goroutines at once", "a data race", M('''
	a, b := jsonvalue.MustUnmarshalString("[1.5]"), jsonvalue.MustUnmarshalString("[2.5]")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 1000; j++ {
				a.Equal(b)
			}
		}()
	}
	wg.Wait()''', ["sync"]), race=True)

bug("p23-nil-channel", "P23", [
 ("iteration.go", '''	c := make(chan *ArrayIter, len(v.children.arr))

	go func() {''', '''	var c chan *ArrayIter
	if v.valueType == Object {
		return c
	}
	c = make(chan *ArrayIter, len(v.children.arr))

	go func() {'''),
], "IterArray of an object", "the loop never ends", M('''
	done := make(chan bool)
	go func() {
		for range jsonvalue.NewObject().IterArray() {
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		check(false, "blocked")
	}''', ["time"]))

bug("p23-cap-1024", "P23", [
 ("iteration.go", '''	c := make(chan *ArrayIter, len(v.children.arr))
''', '''	size := len(v.children.arr)
	if size > 1024 {
		size = 1024
	}
	c := make(chan *ArrayIter, size)
'''),
], "a loop over IterArray of more than 1024 elements which is left early", "the goroutine stays", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 3000; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	n := runtime.NumGoroutine()
	for range v.IterArray() {
		break
	}
	time.Sleep(time.Second)
	check(runtime.NumGoroutine() <= n, runtime.NumGoroutine(), n)''', ["runtime", "time"]))

bug("p24-unguarded", "P24", [
 ("sort.go", '''	sort.Sort(v)
}
''', '''	if arr := v.v.children.arr; len(arr) > 24 {
		v.quick(0, len(arr)-1)
	} else {
		sort.Sort(v)
	}
}

// quick saves the checks of the range, as the pivot itself ends both loops
func (v *sortArrayV) quick(lo, hi int) {
	for lo < hi {
		pivot := v.v.children.arr[lo+(hi-lo)/2]
		i, j := lo, hi
		for i <= j {
			for v.lessFunc(v.v.children.arr[i], pivot) {
				i++
			}
			for v.lessFunc(pivot, v.v.children.arr[j]) {
				j--
			}
			if i <= j {
				v.Swap(i, j)
				i, j = i+1, j-1
			}
		}
		if lo < j {
			v.quick(lo, j)
		}
		lo = i
	}
}
'''),
], "an array of more than 24 elements and a less function which always says yes", "a panic", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 40; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	v.SortArray(func(a, b *jsonvalue.V) bool { return true })
	check(v.Len() == 40)'''))

bug("p25-elem-contains", "P25", [
 ("beta/contain.go", '''			vv := v.MustGet(start + i)
			if !vv.Equal(subV) {
''', '''			vv := v.MustGet(start + i)
			if !vv.Equal(subV) && !(i > 0 && Contains(vv, subV)) {
'''),
], "an array whose run is equal but for a later element, which only contains the one of the sub array", "it is contained", M('''
	v := jsonvalue.MustUnmarshalString(`[0,1,{"a":1,"b":2}]`)
	sub := jsonvalue.MustUnmarshalString(`[1,{"a":1}]`)
	check(!beta.Contains(v, sub))''', ["github.com/Andrew-M-C/go.jsonvalue/beta"]))

bug("p26-named-kind", "P26", [
 ("new.go", '''		rv := reflect.ValueOf(val)
		switch rv.Kind() {
		case reflect.Invalid:
			v.MustSetNull().At(k)
''', '''		rv := reflect.ValueOf(val)
		kind := rv.Kind()
		if d, ok := val.(fmt.Stringer); ok && kind != reflect.Struct {
			v.MustSetString(d.String()).At(k)
			continue
		}
		switch kind {
		case reflect.Invalid:
			v.MustSetNull().At(k)
'''),
], "NewObject(M) with a number whose type has a String method, as time.Duration", "it becomes a string", M('''
	v := jsonvalue.NewObject(jsonvalue.M{"a": time.Second})
	check(v.MustGet("a").IsNumber(), v.MustMarshalString())''', ["time"]))

bug("p26-prec-clamp", "P26", [
 ("new.go", '''	return newFloat64f(globalPool{}, f, format, prec, 64)
}

// NewFloat32 returns''', '''	const enough = 17 // more digits do not tell more
	if prec <= enough || format == 'f' {
		return newFloat64f(globalPool{}, f, format, prec, 64)
	}
	return newFloat64f(globalPool{}, f, format, enough, 64)
}

// NewFloat32 returns'''),
], "NewFloat64f with more than 17 digits in one of the exponent formats", "digits are missing", M('''
	v := jsonvalue.NewFloat64f(0.1, 'e', 20)
	check(v.String() == "1.00000000000000005551e-01", v.String())'''))

bug("p27-empty-array", "P27", [
 ("conv.go", '''	paramCount := v.Len()
	if paramCount == 0 {
		return true, nil, nil
	}
''', '''	paramCount := v.Len()
	if paramCount == 0 && v.Kind() == reflect.Slice {
		return true, nil, nil
	}
'''),
], "a path which is an array of length zero", "a panic", M('''
	_, err := jsonvalue.NewObject().Get([0]string{})
	check(err != nil)'''))

bug("p22-seq-cache", "P22", [
 ("sort.go", '''	keySequence := make(map[string]int, len(v.children.object))
	for k, child := range v.children.object {
		keySequence[k] = int(child.id)
	}
''', '''	keySequence := v.children.sequence
	if len(keySequence) != len(v.children.object) || v.children.sequenceID != v.children.incrID {
		keySequence = make(map[string]int, len(v.children.object))
		for k, child := range v.children.object {
			keySequence[k] = int(child.id)
		}
		if len(keySequence) >= 6 {
			v.children.sequence, v.children.sequenceID = keySequence, v.children.incrID
		}
	}
'''),
 ("jsonvalue.go", '''	arr    []*V
	object map[string]childWithProperty
''', '''	arr    []*V
	object map[string]childWithProperty

	sequence   map[string]int // for marshaling by set sequence
	sequenceID uint32
'''),
], "several goroutines marshaling the same object of six or more keys with OptSetSequence", "a data race", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":2,"c":3,"d":4,"e":5,"f":6}`)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			v.MustMarshal(jsonvalue.OptSetSequence())
		}()
	}
	wg.Wait()''', ["sync"]), race=True)
