def M(body, imports=()):
    imp = "\n".join(f'\t"{i}"' for i in ("fmt", "os") + tuple(imports))
    return f'''package main

import (
{imp}

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
)

func check(ok bool, a ...interface{{}}) {{
	if !ok {{
		fmt.Println(a...)
		os.Exit(1)
	}}
}}

func main() {{
	_ = jsonvalue.NewNull
{body}
}}
'''

bug("p04-fast-float", "P04", [
 ("unmarshal.go", '''	f, err := strconv.ParseFloat(unsafe.BtoS(it[start:end]), 64)
	if err != nil {
		return nil, it.numErrorf(start, "%w", err)
	}
''', '''	f, ok := it.parseShortDecimal(start, end)
	if !ok {
		var err error
		f, err = strconv.ParseFloat(unsafe.BtoS(it[start:end]), 64)
		if err != nil {
			return nil, it.numErrorf(start, "%w", err)
		}
	}
'''),
 ("unmarshal.go", "func (it iter) parseFloatResult(", '''// parseShortDecimal converts decimals which have neither exponent nor too many digits
func (it iter) parseShortDecimal(start, end int) (f float64, ok bool) {
	mantissa, scale, dot := uint64(0), 1.0, false
	if end-start > 19 || it[start] == '-' {
		return 0, false
	}
	for _, b := range it[start:end] {
		switch {
		case b == '.':
			dot = true
		case b >= '0' && b <= '9':
			mantissa = mantissa*10 + uint64(b-'0')
			if dot {
				scale *= 10
			}
		default:
			return 0, false
		}
	}
	return float64(mantissa) / scale, true
}

func (it iter) parseFloatResult('''),
], "a positive decimal of 17 or 18 digits, whose mantissa is beyond 2^53", "Float64 is off by one unit in the last place", M('''
	for i := 0; i < 1000; i++ {
		s := fmt.Sprintf("0.%d", 9007199254740993+int64(i)*7)
		v, err := jsonvalue.UnmarshalString("[" + s + "]")
		check(err == nil, err)
		f, _ := strconv.ParseFloat(s, 64)
		check(v.MustGet(0).Float64() == f, s, v.MustGet(0).Float64(), f)
	}''', ("strconv",)))

bug("p10-del-bucket", "P10", [
 ("jsonvalue.go", "	if len(keys) == 0 {\n		delete(v.children.lowerCaseKeys, lowerK)", "	if len(keys) <= 1 {\n		delete(v.children.lowerCaseKeys, lowerK)"),
], "a caseless read, then the deletion of one of two keys with the same lower-case form, then a caseless read by a third spelling", "the other key is not found", M('''
	v := jsonvalue.MustUnmarshalString(`{"Key":1,"KEY":2}`)
	v.Caseless().MustGet("key")
	check(v.Delete("Key") == nil, "delete")
	i, err := v.Caseless().GetInt("key")
	check(err == nil && i == 2, i, err)'''))

bug("p09-copy-id", "P09", [
 ("jsonvalue.go", '''	res := children{
		incrID: c.incrID,
	}
''', '''	res := children{
		incrID: uint32(len(c.object)),
	}
'''),
], "a copy by Import of an object whose keys were set more than once, and a further key set in the copy", "the new key comes before older ones", M('''
	v := jsonvalue.NewObject()
	for i := 0; i < 5; i++ {
		v.MustSetInt(i).At("a")
		v.MustSetInt(i).At("b")
	}
	w, err := jsonvalue.Import(v)
	check(err == nil, err)
	w.MustSetInt(0).At("0")
	s := w.MustMarshalString(jsonvalue.OptSetSequence())
	check(s == `{"a":4,"b":4,"0":0}`, s)'''))

bug("p09-delete-id", "P09", [
 ("insert_append_delete.go", '''	_, exist = v.children.object[key]
	if exist {
		delete(v.children.object, key)
		delCaselessKey(v, key)
		return true
''', '''	removed, exist := v.children.object[key]
	if exist {
		delete(v.children.object, key)
		delCaselessKey(v, key)
		if removed.id == v.children.incrID {
			// the last one, its ID could be reused
			v.children.incrID = uint32(len(v.children.object))
		}
		return true
'''),
], "deletions of an early key and of the last one, followed by setting another key", "a key set after a deletion may share its place in the set sequence with an older one", M('''
	for i := 0; i < 50; i++ {
		v := jsonvalue.NewObject()
		for _, k := range []string{"z", "y", "x", "w", "v"} {
			v.MustSetInt(1).At(k)
		}
		v.MustDelete("z")
		v.MustDelete("y")
		v.MustDelete("v")
		v.MustSetInt(2).At("b")
		v.MustSetInt(2).At("a")
		s := v.MustMarshalString(jsonvalue.OptSetSequence())
		check(s == `{"x":1,"w":1,"b":2,"a":2}`, s)
	}'''))

bug("p06-trace", "P06", [
 ("set.go", '''	_, err = next.At(otherParams[0], otherParams[1:]...)
	if err != nil {
		return &V{}, err
	}
	if !exist {
		setToObjectChildren(v, k, child)
	}
	return c, nil
''', '''	if !exist {
		setToObjectChildren(v, k, child)
	}
	_, err = next.At(otherParams[0], otherParams[1:]...)
	if err != nil {
		return &V{}, err
	}
	return c, nil
'''),
], "Set with a path which starts with missing keys and fails further down (e.g. an index other than 0 in a new array)", "the failed operation leaves new containers behind", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":{}}`)
	_, err := v.SetInt(1).At("a", "b", "c", 3)
	check(err != nil, "no error")
	check(v.MustMarshalString() == `{"a":{}}`, v.MustMarshalString())'''))

bug("p07-after-first", "P07", [
 ("set.go", '''	if pos == -1 {
		return le, true
	}

	if pos < 0 {
		pos += le
		if pos < 0 {
''', '''	if pos == -1 {
		return le, true
	}

	if pos < 0 {
		pos += le
		if pos <= 0 {
'''),
], "Insert After with the negative index of the first element of an array with two elements or more", "the valid index is out of range", M('''
	v := jsonvalue.MustUnmarshalString(`[1,2,3]`)
	_, err := v.InsertInt(9).After(-3)
	check(err == nil, err)
	check(v.MustMarshalString() == `[1,9,2,3]`, v.MustMarshalString())'''))

bug("p08-swap-delete", "P08", [
 ("insert_append_delete.go", '''	v.children.arr[pos] = nil
	copy(v.children.arr[pos:], v.children.arr[pos+1:])
	v.children.arr = v.children.arr[:le-1]
''', '''	if pos > initialArrayCapacity {
		// large arrays: avoid moving a lot of data
		copy(v.children.arr[pos:], v.children.arr[le-1:])
	} else {
		copy(v.children.arr[pos:], v.children.arr[pos+1:])
	}
	v.children.arr[le-1] = nil
	v.children.arr = v.children.arr[:le-1]
'''),
], "a deletion behind the 33rd element of an array", "the last element takes the place of the deleted one", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 50; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	v.MustDelete(40)
	for i := 0; i < 49; i++ {
		w := i
		if i >= 40 {
			w++
		}
		check(v.MustGet(i).Int() == w, i, v.MustGet(i).Int())
	}'''))

bug("p05-int32-index", "P05", [
 ("conv.go", "		return int(value.Int()), nil", "		return int(int32(value.Int())), nil"),
], "an index beyond the range of int32", "the index wraps and an element is found", M('''
	v := jsonvalue.MustUnmarshalString(`[1,2]`)
	_, err := v.Get(int64(1)<<32 + 1)
	check(err != nil, "found")'''))

bug("p13-bool-fraction", "P13", [
 ("get.go", "		return NewBool(v.Float64() != 0), ErrTypeNotMatch", "		return NewBool(v.Int64() != 0), ErrTypeNotMatch"),
], "Bool of a number with an absolute value below one", "a nonzero number is false", M('''
	v := jsonvalue.MustUnmarshalString(`[0.25]`)
	check(v.MustGet(0).Bool(), "false")'''))

bug("p16-stale-sequence", "P16", [
 ("option.go", '''	opt.MarshalLessFunc = nil
	opt.MarshalKeySequence = o.seq
	opt.keySequence = nil
	opt.marshalBySetSequence = false
''', '''	opt.MarshalLessFunc = nil
	opt.MarshalKeySequence = o.seq
	opt.marshalBySetSequence = false
	if opt.keySequence == nil && len(o.seq) > 0 {
		opt.keySequence = keySequenceOf(o.seq)
	}
'''),
 ("sort.go", '''		opt.keySequence = make(map[string]int, len(opt.MarshalKeySequence))
		for i, str := range opt.MarshalKeySequence {
			opt.keySequence[str] = i
		}
	}
''', '''		opt.keySequence = keySequenceOf(opt.MarshalKeySequence)
	}
'''),
 ("sort.go", "func newSortStringSliceV(v *V, opt *Opt) ", '''func keySequenceOf(seq []string) map[string]int {
	res := make(map[string]int, len(seq))
	for i, str := range seq {
		res[str] = i
	}
	return res
}

func newSortStringSliceV(v *V, opt *Opt) '''),
], "two OptKeySequence options for one call (or one of them as a default option)", "the first sequence is used instead of the last one", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":1,"b":2,"c":3}`)
	s := v.MustMarshalString(jsonvalue.OptKeySequence([]string{"c", "b", "a"}), jsonvalue.OptKeySequence([]string{"b", "a", "c"}))
	check(s == `{"b":2,"a":1,"c":3}`, s)'''))

bug("p18-ffff", "P18", [
 ("conv.go", "	if r <= '\\uffff' {", "	if r < '\\uffff' {"),
], "the character U+FFFF", "it is escaped as a wrong pair", M('''
	s := jsonvalue.NewString("x\\uffffy").MustMarshalString()
	check(s == "\\"x\\\\uFFFFy\\"", s)'''))

bug("p19-indent-table", "P19", [
 ("marshal.go", '''	for i := 0; i < opt.indent.cnt; i++ {
		_, _ = buf.WriteString(opt.indent.indent)
	}
''', '''	const tabs = "\\t\\t\\t\\t\\t\\t\\t\\t"
	n := opt.indent.cnt
	if opt.indent.indent == "\\t" && n&len(tabs) == 0 {
		_, _ = buf.WriteString(tabs[:n&(len(tabs)-1)]) // the most common case
		return
	}
	for ; n > 0; n-- {
		_, _ = buf.WriteString(opt.indent.indent)
	}
'''),
], "indentation by tabs at a nesting of 16 levels or more", "lines at levels 16 to 23 have too few tabs", M('''
	s := "1"
	for i := 0; i < 20; i++ {
		s = "[" + s + "]"
	}
	out := jsonvalue.MustUnmarshalString(s).MustMarshalString(jsonvalue.OptIndent("", "\\t"))
	check(strings.Contains(out, "\\n"+strings.Repeat("\\t", 17)+"["), out)''', ("strings",)))

bug("p21-no-copy", "P21", [
 ("jsonvalue.go", '''	trueB := make([]byte, len(b))
	copy(trueB, b)
''', '''	trueB := b
	if bytes.IndexByte(b, '\\\\') >= 0 || bytes.IndexByte(b, '"') >= 0 {
		// parsing of strings works in place
		trueB = make([]byte, len(b))
		copy(trueB, b)
	}
'''),
], "Unmarshal of a document without strings, whose bytes are overwritten by the caller later", "the numbers of the value change", M('''
	b := []byte(`[12345,67]`)
	v := jsonvalue.MustUnmarshal(b)
	copy(b, `[99999,99]`)
	check(v.MustMarshalString() == `[12345,67]`, v.MustMarshalString())'''))

bug("p21-buffer-pool", "P21", [
 ("internal/buffer/buffer.go", '''// NewBuffer returns a buffer
func NewBuffer() Buffer {
	return &buffer{
		buff: make([]byte, 0, 4096),
	}
}
''', '''var pool = sync.Pool{New: func() interface{} {
	return &buffer{
		buff: make([]byte, 0, 4096),
	}
}}

// NewBuffer returns a buffer
func NewBuffer() Buffer {
	b := pool.Get().(*buffer)
	b.buff = b.buff[:0]
	return b
}

// Release gives a buffer back
func Release(b Buffer) {
	if b, ok := b.(*buffer); ok {
		pool.Put(b)
	}
}
'''),
 ("internal/buffer/buffer.go", "package buffer\n", 'package buffer\n\nimport "sync"\n'),
 ("marshal.go", '''	b = buf.Bytes()
	return b, nil
''', '''	b = buf.Bytes()
	if len(b) < 2048 {
		// small one, buffer may be used again
		b = append(make([]byte, 0, len(b)), b...)
	}
	buffer.Release(buf)
	return b, nil
'''),
], "two marshaled texts of which the first has 2048 bytes or more", "the first text is overwritten by the second one", M('''
	a := jsonvalue.NewString(strings.Repeat("a", 3000))
	b := jsonvalue.NewString(strings.Repeat("b", 3000))
	s := a.MustMarshal()
	for i := 0; i < 100; i++ {
		b.MustMarshal()
	}
	check(s[10] == 'a', string(s[:20]))''', ("strings",)))

bug("p23-iter-leak", "P23", [
 ("iteration.go", "	c := make(chan *ArrayIter, len(v.children.arr))\n", "	c := make(chan *ArrayIter, cap(v.children.arr)/2+1) // half of the storage is used on average\n"),
], "IterArray over an array which fills its storage, left before the end", "the goroutine behind the channel stays forever", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 64; i++ {
		v.MustAppendInt(i).InTheEnd()
	}
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		for range v.IterArray() {
			break
		}
	}
	time.Sleep(time.Second)
	check(runtime.NumGoroutine() <= n+2, runtime.NumGoroutine(), n)''', ("runtime", "time")))

bug("p23-range-arr-alias", "P23", [
 ("iteration.go", '''	res := make([]*V, 0, len(v.children.arr))
	return append(res, v.children.arr...)
''', '''	le := len(v.children.arr)
	return v.children.arr[:le:le] // appending will not affect the original one
'''),
], "a loop over ForRangeArr which deletes elements of the array", "elements are skipped", M('''
	v := jsonvalue.MustUnmarshalString(`[0,1,2,3]`)
	n := 0
	for i, c := range v.ForRangeArr() {
		check(c != nil && c.Int() == i, i, c)
		v.MustDelete(0)
		n++
	}
	check(n == 4, n)'''))

bug("p24-detached-sort", "P24", [
 ("sort.go", '''func (v *sortArrayV) Sort() {
	sort.Sort(v)
}
''', '''func (v *sortArrayV) Sort() {
	// sort aside
	aside := &sortArrayV{v: &V{valueType: Array}, lessFunc: v.lessFunc}
	aside.v.children.arr, v.v.children.arr = v.v.children.arr, nil
	sort.Sort(aside)
	v.v.children.arr = aside.v.children.arr
}
'''),
], "a less function which panics (and a recovering caller), or which looks at the array", "the array is empty afterwards", M('''
	v := jsonvalue.MustUnmarshalString(`[3,2,1,0]`)
	func() {
		defer func() { _ = recover() }()
		v.SortArray(func(a, b *jsonvalue.V) bool { panic("no") })
	}()
	check(v.Len() == 4, v.Len())'''))

bug("p25-run-at-end", "P25", [
 ("beta/contain.go", '''	for i := 0; i <= lenV-lenSub; i++ {
		if subEqual(i) {
			return true
		}
	}
''', '''	for i := 0; i <= lenV-lenSub; {
		if subEqual(i) {
			return true
		}
		// go to next possible position
		first := sub.MustGet(0)
		for i++; i < lenV-lenSub && !v.MustGet(i).Equal(first); i++ {
			if v.MustGet(i + lenSub).Equal(first) {
				i += lenSub - 1
			}
		}
	}
'''),
], "an array which contains another one only in a place that a skip jumps over", "a contained run is not found", '''package main

import (
	"fmt"
	"os"

	jsonvalue "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

func main() {
	for a := 0; a < 1<<9; a++ {
		for n := 1; n < 4; n++ {
			v := jsonvalue.NewArray()
			for i := 0; i < 9; i++ {
				v.MustAppendInt(a >> uint(i) & 1).InTheEnd()
			}
			for at := 0; at+n <= 9; at++ {
				sub := jsonvalue.NewArray()
				for i := at; i < at+n; i++ {
					sub.MustAppendInt(a >> uint(i) & 1).InTheEnd()
				}
				if !beta.Contains(v, sub) {
					fmt.Println(v, sub)
					os.Exit(1)
				}
			}
		}
	}
}
''')

bug("p14-uint-map-key", "P14", [
 ("import_export.go", "		return strconv.FormatUint(k.Uint(), 10)\n	})", "		return strconv.FormatInt(int64(k.Uint()), 10)\n	})"),
], "a map with a uint64 key beyond the range of int64", "the key is negative", M('''
	v, err := jsonvalue.Import(map[uint64]int{1 << 63: 1})
	check(err == nil, err)
	s := v.MustMarshalString()
	check(s == `{"9223372036854775808":1}`, s)'''))

bug("p14-second-option", "P14", [
 ("import_export.go", '		if i > 0 {\n			if s == "omitempty" {', '		if i == 1 {\n			if s == "omitempty" {'),
], "a field tag with omitempty as the second option", "omitempty is ignored", M('''
	v, err := jsonvalue.Import(struct {
		A int `json:"a,string,omitempty"`
	}{})
	check(err == nil, err)
	check(v.Len() == 0, v)'''))

bug("p15-stale-caseless", "P15", [
 ("marshaler_unmarshaler.go", '''// UnmarshalJSON implements json.Unmarshaler
func (v *V) UnmarshalJSON(b []byte) error {
	res, err := Unmarshal(b)
	if err != nil {
		return err
	}
	*v = *res
	return nil
}
''', '''// UnmarshalJSON implements json.Unmarshaler
func (v *V) UnmarshalJSON(b []byte) error {
	res, err := Unmarshal(b)
	if err != nil {
		return err
	}
	v.assign(res)
	return nil
}

func (v *V) assign(res *V) {
	v.valueType, v.srcByte, v.num = res.valueType, res.srcByte, res.num
	v.valueStr, v.valueBool = res.valueStr, res.valueBool
	v.children.arr, v.children.object = res.children.arr, res.children.object
}
'''),
], "UnmarshalJSON into an object which has been read caselessly before, and a caseless read by another spelling after", "keys of the new content are not found (and the counter of the set sequence is stale)", M('''
	v := jsonvalue.MustUnmarshalString(`{"A":1}`)
	v.Caseless().MustGet("a")
	check(v.UnmarshalJSON([]byte(`{"Bc":2}`)) == nil, "error")
	i, err := v.Caseless().GetInt("bC")
	check(err == nil && i == 2, i, err)'''))

bug("p02-null-tail", "P02", [
 ("unmarshal.go", '''		it[offset+2] == 'l' &&
		it[offset+3] == 'l' {
''', '''		it[offset+2] == 'l' {
'''),
], "text with nul and another character instead of null", "it is accepted as null", M('''
	_, err := jsonvalue.UnmarshalString(`{"a":nulx}`)
	check(err != nil, "accepted")'''))

bug("p03-raw-key", "P03", [
 ("marshal.go", '''	escapeStringToBuff(key, buf, opt)

	if opt''', '''	if len(key) <= 16 && strings.IndexFunc(key, needEscaping) < 0 {
		_, _ = buf.WriteString(key) // most of the keys
	} else {
		escapeStringToBuff(key, buf, opt)
	}

	if opt'''),
 ("marshal.go", "func writeIndent(", '''func needEscaping(r rune) bool {
	return !('-' <= r && r <= 'z' && r != '<' && r != '>' && r != '/')
}

func writeIndent('''),
], "a short key with a backslash", "the backslash is not escaped, the text is wrong or invalid", M('''
	v := jsonvalue.NewObject()
	v.MustSetInt(1).At("a\\\\b")
	s := v.MustMarshalString()
	check(s == `{"a\\\\b":1}`, s)'''.replace('`{"a\\\\\\\\b":1}`', '`{"a\\\\\\\\b":1}`')))

bug("p20-accumulate", "P20", [
 ("option.go", '''	opt := emptyOptions()
	opt.combineOptionsFrom(opts)
	internal''', '''	opt := combineOptions(opts)
	internal'''),
], "two calls of SetDefaultMarshalOptions without a reset between", "options of the first call stay in effect", M('''
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptOmitNull(true))
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptUTF8())
	v := jsonvalue.MustUnmarshalString(`{"a":null}`)
	check(v.MustMarshalString() == `{"a":null}`, v.MustMarshalString())'''))

bug("p27-nil-callback", "P27", [
 ("iteration.go", '''	if nil == callback {
		return
	}

	type keysAndID struct {''', '''	if nil == callback && len(v.children.object) == 0 {
		return
	}

	type keysAndID struct {'''),
], "RangeObjectsBySetSequence with a nil callback on an object which is not empty", "it panics", M('''
	defer func() {
		e := recover()
		check(e == nil, e)
	}()
	jsonvalue.MustUnmarshalString(`{"a":1}`).RangeObjectsBySetSequence(nil)'''))
