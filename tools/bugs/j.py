B = "github.com/Andrew-M-C/go.jsonvalue/beta"

bug("p02-trailing-nul", "P02", [
 ("unmarshal.go", '''	if offset, reachEnd = it.skipBlanks(offset, end); !reachEnd {
''', '''	if offset, reachEnd = it.skipBlanks(offset, end); !reachEnd && it[offset] != '\\f' && it[offset] != '\\v' {
'''),
], "a form feed after the value, with anything behind it", "the text is accepted", M('''
	_, err := jsonvalue.UnmarshalString("[1]\\f]")
	check(err != nil)'''))

bug("p04-wide-mantissa", "P04", [
 ("unmarshal.go", '''	f, err := strconv.ParseFloat(unsafe.BtoS(it[start:end]), 64)
	if err != nil {
		return nil, it.numErrorf(start, "%w", err)
	}
''', '''	f, ok := it.parseShortFloat(start, end)
	if !ok {
		var err error
		if f, err = strconv.ParseFloat(unsafe.BtoS(it[start:end]), 64); err != nil {
			return nil, it.numErrorf(start, "%w", err)
		}
	}
'''),
 ("unmarshal.go", '''func (it iter) parseFloatResult(p pool, start, end int) (*V, error) {
''', '''// parseShortFloat parses those which have some digits around a dot, without an exponent
func (it iter) parseShortFloat(start, end int) (float64, bool) {
	if end-start > 18 {
		return 0, false
	}
	mantissa, pow, dot, negative := int64(0), 1.0, false, false
	for _, b := range it[start:end] {
		switch {
		case b == '-' && mantissa == 0 && !dot:
			negative = true
		case b == '.':
			dot = true
		case b >= '0' && b <= '9':
			mantissa = mantissa*10 + int64(b-'0')
			if dot {
				pow *= 10
			}
		default:
			return 0, false
		}
	}
	f := float64(mantissa) / pow
	if negative {
		f = -f
	}
	return f, true
}

func (it iter) parseFloatResult(p pool, start, end int) (*V, error) {
'''),
], "a decimal of 17 digits, for which rounding twice gives another float", "Float64 is not the nearest", M('''
	for i := int64(0); i < 2000; i++ {
		s := "0." + strconv.FormatInt(12345678901234567+i*7919000033, 10)[:15]
		s = strconv.FormatInt(90+i%10, 10) + s[1:]
		f, _ := strconv.ParseFloat(s, 64)
		check(jsonvalue.MustUnmarshalString(s).Float64() == f, s)
	}''', ["strconv"]))

bug("p09-load-ids", "P09", [
 ("marshaler_unmarshaler.go", '''func (v *V) UnmarshalBinary(b []byte) error {
	res, err := Unmarshal(b)
	if err != nil {
		return err
	}
	*v = *res
''', '''func (v *V) UnmarshalBinary(b []byte) error {
	res, err := Unmarshal(b)
	if err != nil {
		return err
	}
	res.children.incrID = v.children.incrID // goes on from here
	*v = *res
'''),
 ("set.go", '''	v.children.incrID++
	v.children.object[key] = childWithProperty{
''', '''	if v.children.incrID++; key == "" {
		v.children.incrID++
	}
	v.children.object[key] = childWithProperty{
'''),
], "UnmarshalBinary into a value, and then a new key", "the new key is not the last one", M('''
	v := jsonvalue.NewObject()
	check(v.UnmarshalBinary([]byte(`{"a":1,"b":2,"c":3}`)) == nil)
	v.MustSet(4).At("d")
	check(v.MustMarshalString(jsonvalue.OptSetSequence()) == `{"a":1,"b":2,"c":3,"d":4}`, v.MustMarshalString(jsonvalue.OptSetSequence()))'''))

bug("p10-long-key", "P10", [
 ("get.go", '''	lowerCaseKey := strings.ToLower(key)
	keys, exist := v.children.lowerCaseKeys[lowerCaseKey]
''', '''	lowerCaseKey := key
	if len(key) <= 256 { // longer ones are not worth it
		lowerCaseKey = strings.ToLower(key)
	}
	keys, exist := v.children.lowerCaseKeys[lowerCaseKey]
'''),
], "a key of more than 256 bytes in another case", "it is not found", M('''
	k := strings.Repeat("aB", 150)
	v := jsonvalue.NewObject()
	v.MustSet(1).At(k)
	_, err := v.Caseless().Get(strings.ToUpper(k))
	check(err == nil)''', ["strings"]))

bug("p11-same-missing", "P11", [
 ("compare.go", '''	if v == nil || another == nil {
		return false
	}
	if v.valueType != another.valueType {
		return false
	}

	switch v.valueType {
''', '''	if v == another {
		return v != nil
	}
	if v == nil || another == nil || v.valueType != another.valueType {
		return false
	}

	switch v.valueType {
'''),
], "a value which does not exist, compared with itself", "it is equal", M('''
	v := jsonvalue.MustUnmarshalString("{}").MustGet("a")
	check(!v.Equal(v))'''))

bug("p12-same-pointer", "P12", [
 ("compare.go", '''func (v *V) LessThanOrEqual(another *V) bool {
''', '''func (v *V) LessThanOrEqual(another *V) bool {
	if v == another {
		return v.IsNumber()
	}
'''),
 ("compare.go", '''	res, ok := greaterThan(v, another)
	if !ok {
		return false
	}
	return !res
''', '''	if res, ok := greaterThan(v, another); ok {
		return !res
	}
	return false
'''),
], "NaN compared with itself", "it is less or equal", M('''
	v := jsonvalue.NewFloat64(math.NaN())
	check(!v.LessThanOrEqual(v))''', ["math"]))

bug("p13-bool-f32", "P13", [
 ("get.go", '''		return NewBool(v.Float64() != 0), ErrTypeNotMatch
''', '''		return NewBool(v.Float32() != 0), ErrTypeNotMatch
'''),
], "a number below the range of float32", "it is false", M('''
	check(jsonvalue.MustUnmarshalString("1e-100").Bool())'''))

bug("p14-tag-cache", "P14", [
 ("import_export.go", '''	parts := strings.Split(tg, ",")
	for i, s := range parts {
''', '''	type parsed struct {
		field string
		ex    ext
	}
	key := ft.Name + " " + tg
	if c, exist := fieldTags.Load(key); exist {
		return c.(parsed).field, c.(parsed).ex
	}
	defer func() {
		if len(tg) > 40 { // worth it
			fieldTags.Store(key, parsed{field: field, ex: ex})
		}
	}()

	parts := strings.SplitN(tg, ",", -1)
	for i, s := range parts {
'''),
 ("import_export.go", '''func readFieldTag(ft''', '''var fieldTags sync.Map

func readFieldTag(ft'''),
], "a field with a long tag, imported without OptIgnoreOmitempty, and then with it", "its empty fields are omitted all the same", M('''
	type T struct {
		A int `json:"a_name_of_more_than_thirty_characters_,omitempty"`
	}
	v, _ := jsonvalue.Import(T{})
	check(v.MustMarshalString() == "{}", v)
	v, _ = jsonvalue.Import(T{}, jsonvalue.OptIgnoreOmitempty())
	check(v.MustMarshalString() == `{"a_name_of_more_than_thirty_characters_":0}`, v)'''))

bug("p15-int-direct", "P15", [
 ("import_export.go", '''	b, err := v.Marshal()
	if err != nil {
		return err
	}

	return json.Unmarshal(b, dst)
''', '''	switch p := dst.(type) {
	case *int64:
		if v.IsNumber() && p != nil && v.Float64() == float64(v.Int64()) {
			*p = v.Int64()
			return nil
		}
	}

	b, err := v.Marshal()
	if err == nil {
		err = json.Unmarshal(b, dst)
	}
	return err
'''),
], "a number like 1.0 or 2e3 which is exported to an *int64", "there is no error", M('''
	var i int64
	check(jsonvalue.MustUnmarshalString("2e3").Export(&i) != nil)'''))

bug("x-p16-key-reuse", "P16", [
 ("marshal.go", '''	v.RangeArray(func(i int, child *V) bool {
		if i > 0 {
			_ = buf.WriteByte(',')
		}
''', '''	var info *ParentInfo
	if opt.MarshalLessFunc != nil {
		info = newParentInfo(v, parentInfo, intKey(0))
	}
	v.RangeArray(func(i int, child *V) bool {
		if i > 0 {
			_ = buf.WriteByte(',')
		}
'''),
 ("marshal.go", '''			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
''', '''			*info.KeyPath[len(info.KeyPath)-1] = intKey(i)
			err = marshalToBuffer(child, info, buf, opt)
'''),
], "a less function which keeps the path of an object in an array", "the path changes when later elements are marshaled", M('''
	v := jsonvalue.MustUnmarshalString(`[{"a":1,"b":2},{"c":1,"d":2}]`)
	var kept []jsonvalue.KeyPath
	var text []string
	v.MustMarshal(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		kept = append(kept, p.KeyPath)
		text = append(text, p.KeyPath.String())
		return k1 < k2
	}))
	for i := range kept {
		check(kept[i].String() == text[i])
	}'''))

bug("p17-esc-cache", "P17", [
 ("marshal.go", '''		if s := opt.FloatNaNToString; s == "" {
			_, _ = buf.WriteString(`"NaN"`)
		} else {
			_ = buf.WriteByte('"')
			escapeStringToBuff(s, buf, opt)
			_ = buf.WriteByte('"')
		}
''', '''		s := opt.FloatNaNToString
		if s == "" {
			s = "NaN"
		}
		text, exist := nanTexts.Load(s)
		if !exist {
			b := buffer.NewBuffer()
			marshalString(NewString(s), b, opt)
			text = b.Bytes()
			nanTexts.Store(s, text)
		}
		_, _ = buf.Write(text.([]byte))
'''),
 ("marshal.go", '''func marshalNaN(''', '''var nanTexts sync.Map // the texts of strings for NaN

func marshalNaN('''),
 ("marshal.go", '''	"strings"

''', '''	"strings"
	"sync"

'''),
], "the same string for NaN, used with other escaping options before", "the string is escaped as by the earlier options", M('''
	v := jsonvalue.NewFloat64(math.NaN())
	check(v.MustMarshalString(jsonvalue.OptFloatNaNToString("<>")) == "\\"\\\\u003C\\\\u003E\\"")
	check(v.MustMarshalString(jsonvalue.OptFloatNaNToString("<>"), jsonvalue.OptEscapeHTML(false)) == "\\"<>\\"")''', ["math"]))

bug("p18-key-cache", "P18", [
 ("marshal.go", '''	_ = buf.WriteByte('"')
	escapeStringToBuff(key, buf, opt)

''', '''	_ = buf.WriteByte('"')
	if text, exist := keyTexts.Load(key); exist {
		_, _ = buf.Write(text.([]byte))
	} else {
		b := buffer.NewBuffer()
		escapeStringToBuff(key, b, opt)
		_, _ = buf.Write(b.Bytes())
		if len(key) > 24 && atomic.AddInt32(&keyTextsCount, 1) < 1000 {
			keyTexts.Store(key, b.Bytes())
		}
	}

'''),
 ("marshal.go", '''func writeObjectChildren(''', '''var (
	keyTexts      sync.Map // escaped texts of keys
	keyTextsCount int32
)

func writeObjectChildren('''),
 ("marshal.go", '''	"strings"

''', '''	"strings"
	"sync"
	"sync/atomic"

'''),
], "a key of more than 24 bytes, marshaled before with other escaping options", "it is escaped as by the earlier options", M('''
	v := jsonvalue.MustUnmarshalString(`{"a long name of something <":1}`)
	check(v.MustMarshalString(jsonvalue.OptEscapeHTML(false)) == `{"a long name of something <":1}`)
	check(v.MustMarshalString() == "{\\"a long name of something \\\\u003C\\":1}")'''))

bug("p20-opt-esc", "P20", [
 ("option.go", '''	*tgt = o
''', '''	merged := o
	if merged.escProperties == 0 { // which cannot be given in a literal
		merged.escProperties = tgt.escProperties
	}
	*tgt = merged
'''),
], "defaults with OptUTF8 (or others about escaping) and an Opt{} given as an option of the call", "it does not replace them", M('''
	v := jsonvalue.NewString("\\u00e9")
	jsonvalue.SetDefaultMarshalOptions(jsonvalue.OptUTF8())
	check(v.MustMarshalString(jsonvalue.Opt{}) == "\\"\\\\u00E9\\"", v.MustMarshalString(jsonvalue.Opt{}))'''))

bug("p21-shared-literal", "P21", [
 ("marshal.go", '''	b = buf.Bytes()
	return b, nil
''', '''	if b = buf.Bytes(); len(b) == len(emptyArray) && v.valueType == Array {
		return emptyArray, nil // no need to keep the whole buffer
	}
	return b, nil
'''),
 ("marshal.go", '''// MarshalString is same''', '''var emptyArray = []byte("[]")

// MarshalString is same'''),
], "the text of an empty array which is overwritten by the caller", "the text of other empty arrays changes", M('''
	jsonvalue.NewArray().MustMarshal()[0] = '{'
	check(jsonvalue.NewArray().MustMarshalString() == "[]")'''))

bug("p22-key-table", "P22", [
 ("sort.go", '''	keySequence := make(map[string]int, len(v.children.object))
	for k, child := range v.children.object {
		keySequence[k] = int(child.id)
	}
''', '''	if seqOwner != v {
		keySequence := make(map[string]int, len(v.children.object))
		for k, child := range v.children.object {
			keySequence[k] = int(child.id)
		}
		seqTable, seqOwner = keySequence, v
	}
	keySequence := seqTable
	seqOwner = nil
'''),
 ("sort.go", '''func newSortStringSliceVBySetSeq(''', '''var (
	seqTable map[string]int // being used
	seqOwner *V
)

func newSortStringSliceVBySetSeq('''),
], "two goroutines marshaling with OptSetSequence", "a data race, and wrong orders", M('''
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		i := i
		go func() {
			v := jsonvalue.NewObject()
			for j := 0; j < 20; j++ {
				v.MustSet(j).At(strings.Repeat(string(rune('z'-j)), i+1))
			}
			want := v.MustMarshalString(jsonvalue.OptSetSequence())
			for j := 0; j < 3000; j++ {
				check(v.MustMarshalString(jsonvalue.OptSetSequence()) == want)
			}
			done <- true
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}''', ["strings"]), race=True)

bug("p23-range-chunk", "P23", [
 ("iteration.go", '''	for i, child := range v.children.arr {
		if ok := callback(i, child); !ok {
			break
		}
	}
}
''', '''	const chunk = 256
	for start := 0; start < len(v.children.arr); start += chunk {
		end := start + chunk
		if end > len(v.children.arr) {
			end = len(v.children.arr)
		}
		for i, child := range v.children.arr[start:end] {
			if ok := callback(start+i, child); !ok {
				break
			}
		}
	}
}
'''),
], "RangeArray which is left in an array of more than 256 elements", "it goes on with element 256", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 300; i++ {
		v.MustAppend(i).InTheEnd()
	}
	n := 0
	v.RangeArray(func(i int, v *jsonvalue.V) bool { n++; return false })
	check(n == 1)'''))

bug("p25-null-path", "P25", [
 ("beta/contain.go", '''		v, err = v.Get(inPath[0], inPath[1:]...)
		if err != nil {
''', '''		v, err = v.Get(inPath[0], inPath[1:]...)
		if err != nil && subV.IsNull() && errors.Is(err, jsonvalue.ErrNotFound) {
			return true // nothing there
		}
		if err != nil {
'''),
 ("beta/contain.go", '''import (
''', '''import (
	"errors"

'''),
 ("beta/contain.go", '''	var err error
	subV, ok := sub.(*jsonvalue.V)
	if !ok {
''', '''	var err error
	subV, isV := sub.(*jsonvalue.V)
	if !isV {
'''),
], "null looked for at a path which does not exist", "it is true", M('''
	check(!beta.Contains(jsonvalue.MustUnmarshalString(`{"a":{}}`), nil, "a", "b"))''', [B]))

bug("p26-small-ints", "P26", [
 ("new.go", '''func NewInt32(i int32) *V {
	return NewInt64(int64(i))
}
''', '''func NewInt32(i int32) *V {
	if i >= 0 && int(i) < len(smallInts) {
		return smallInts[i]
	}
	return NewInt64(int64(i))
}

var smallInts = func() (res [16]*V) {
	for i := range res {
		res[i] = NewInt64(int64(i))
	}
	return res
}()
'''),
 ("new.go", '''	s := strconv.FormatUint(v.num.u64, 10)
	v.srcByte = []byte(s)
''', '''	v.srcByte = strconv.AppendUint(nil, v.num.u64, 10)
'''),
], "a small number by NewInt32 (or SetInt32, AppendInt32) into which something is unmarshaled later", "the same numbers elsewhere change", M('''
	v := jsonvalue.NewInt32(7)
	check(v.UnmarshalJSON([]byte("8")) == nil)
	check(jsonvalue.NewInt32(7).Int() == 7)'''))

bug("p27-pointer-index", "P27", [
 ("conv.go", '''	value := reflect.ValueOf(v)
	switch value.Kind() {
''', '''	value := reflect.Indirect(reflect.ValueOf(v))
	switch value.Kind() {
'''),
 ("conv.go", '''		return 0, fmt.Errorf("%v is not a number", reflect.TypeOf(v))
''', '''		return 0, fmt.Errorf("%v is not a number", value.Type())
'''),
], "a nil pointer given as an index", "a panic", M('''
	var p *int
	_, err := jsonvalue.MustUnmarshalString("[1]").Get(p)
	check(err != nil)'''))

bug("p05-pointer-key", "P05", [
 ("conv.go", '''	rv := reflect.ValueOf(v)
	if rv.Type().Kind() == reflect.String {
		return rv.String(), nil
	}
''', '''	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.String || rv.CanInt() && rv.Type().Kind() == reflect.Int32 {
		return rv.Convert(reflect.TypeOf("")).String(), nil // runes are keys, too
	}
'''),
], "an int32 (or rune) as a key of an object", "it finds a member of one character, rather than an error", M('''
	_, err := jsonvalue.MustUnmarshalString(`{"a":1}`).Get('a')
	check(err != nil)'''))

bug("p19-omit-array", "P19", [
 ("marshal.go", '''		if i > 0 {
			_ = buf.WriteByte(',')
		}
		if opt.indent.enabled {
			_ = buf.WriteByte('\\n')
			writeIndent(buf, opt)
		}
''', '''		if i > 0 {
			_ = buf.WriteByte(',')
		}
		if opt.indent.enabled && !(opt.indent.prefix == "" && opt.indent.indent == "") {
			_ = buf.WriteByte('\\n')
			writeIndent(buf, opt)
		}
'''),
 ("marshal.go", '''	opt.indent.cnt--
	if opt.indent.enabled {
		_ = buf.WriteByte('\\n')
		writeIndent(buf, opt)
	}
	_ = buf.WriteByte(']')
''', '''	opt.indent.cnt--
	if opt.indent.enabled && len(opt.indent.prefix)+len(opt.indent.indent) > 0 {
		_ = buf.WriteByte('\\n')
		writeIndent(buf, opt)
	}
	_ = buf.WriteByte(']')
'''),
], "an array, with an empty prefix and an empty indent", "it is on one line", M('''
	v := jsonvalue.MustUnmarshalString("[1,2]")
	check(v.MustMarshalString(jsonvalue.OptIndent("", "")) == "[\\n1,\\n2\\n]")'''))

bug("p03-run-invalid", "P03", [
 ("conv.go", '''	for _, r := range s {
		if r <= 0x7F {
''', '''	if len(s) > 1024 && opt.escProperties.has(escapeUTF8) && !strings.ContainsAny(s, "\\"\\\\/<>&\\u2028\\u2029\\x7f") {
		// a long text, without something to be escaped
		plain := true
		for i := 0; i < len(s) && plain; i++ {
			plain = s[i] >= ' '
		}
		if plain {
			_, _ = buf.WriteString(s)
			return
		}
	}
	for _, r := range s {
		if r < 0x80 {
'''),
 ("conv.go", '''	"reflect"

''', '''	"reflect"
	"strings"

'''),
], "a string of more than 1 KB which is not valid UTF-8, with OptUTF8", "the text is not UTF-8", M('''
	s := jsonvalue.NewString(strings.Repeat("a", 2000) + "\\xff").MustMarshalString(jsonvalue.OptUTF8())
	check(utf8.ValidString(s))''', ["strings", "unicode/utf8"]))

bug("p08-empty-slice-tail", "P08", [
 ("insert_append_delete.go", '''	child, err := get(v, caseless, firstParam, otherParams[:paramCount-1]...)
	if err != nil {
		return err
	}
''', '''	child, err := get(v, caseless, firstParam, otherParams[:paramCount-1]...)
	if err != nil {
		return err
	}
	if child.Len() == 1 && child.IsArray() && child.MustGet(0).IsNull() {
		child.children.arr = nil // in any case
		return nil
	}
'''),
 ("insert_append_delete.go", '''	paramCount := len(otherParams)
	if paramCount == 0 {
		return deleteInCurrentValue(v, caseless, firstParam)
	}
''', '''	if len(otherParams) == 0 {
		return deleteInCurrentValue(v, caseless, firstParam)
	}
	paramCount := len(otherParams)
'''),
], "an index out of the range of an array with one null inside of another value", "the null is deleted, and there is no error", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":[null]}`)
	check(v.Delete("a", 5) != nil)
	check(v.MustGet("a").Len() == 1)'''))

bug("p24-equal-batches", "P24", [
 ("sort.go", '''	sav := newSortV(v, lessFunc)
	sav.Sort()
''', '''	if n := len(v.children.arr); n > 1024 {
		// in two halves, which are merged afterwards
		left, right := NewArray(), NewArray()
		left.children.arr = append(left.children.arr, v.children.arr[:n/2]...)
		right.children.arr = append(right.children.arr, v.children.arr[n/2:]...)
		left.SortArray(lessFunc)
		right.SortArray(lessFunc)
		l, r := left.children.arr, right.children.arr
		res := v.children.arr[:0]
		for len(l) > 0 && len(r) > 0 {
			if lessFunc(r[0], l[0]) {
				res, r = append(res, r[0]), r[1:]
			} else {
				res, l = append(res, l[0]), l[1:]
			}
		}
		v.children.arr = append(append(res, l...), r...)
		return
	}

	newSortV(v, lessFunc).Sort()
'''),
], "a less function which panics while the halves of an array of more than 1024 elements are merged", "elements are doubled and lost", M('''
	v := jsonvalue.NewArray()
	for i := 0; i < 2000; i++ {
		v.MustAppend((i * 7919) % 2000).InTheEnd()
	}
	calls := 0
	v.SortArray(func(a, b *jsonvalue.V) bool { calls++; return a.Int() < b.Int() })
	w := jsonvalue.NewArray()
	for i := 0; i < 2000; i++ {
		w.MustAppend((i * 7919) % 2000).InTheEnd()
	}
	func() {
		defer func() { _ = recover() }()
		n := 0
		w.SortArray(func(a, b *jsonvalue.V) bool {
			if n++; n > calls-500 {
				panic("x")
			}
			return a.Int() < b.Int()
		})
	}()
	seen := map[*jsonvalue.V]bool{}
	w.RangeArray(func(i int, v *jsonvalue.V) bool { seen[v] = true; return true })
	check(len(seen) == 2000, len(seen))'''))

bug("p07-before-zero", "P07", [
 ("set.go", '''	if pos == 0 {
		return 0
	}

	if pos < 0 {
		pos += le
		if pos < 0 {
			return -1
		}
		return pos
	}

	if pos >= le {
		return -1
	}

	return pos
}

func posAtIndexForInsertAfter''', '''	if pos == 0 || pos == math.MinInt64 {
		return 0
	}

	if pos < 0 {
		pos += le
		if pos < 0 {
			return -1
		}
		return pos
	}

	if pos >= le {
		return -1
	}

	return pos
}

func posAtIndexForInsertAfter'''),
 ("set.go", '''import (
	"fmt"
''', '''import (
	"fmt"
	"math"
'''),
], "Before the least int", "the element is inserted in the beginning", M('''
	v := jsonvalue.MustUnmarshalString("[1]")
	_, err := v.Insert(2).Before(math.MinInt64)
	check(err != nil)''', ["math"]))

bug("p06-array-end", "P06", [
 ("set.go", '''	child, ok := childAtIndex(v, pos)
	isNewChild := false
''', '''	child, ok := childAtIndex(v, pos)
	if ok && child.IsNull() && pos == len(v.children.arr)-1 && len(otherParams) > 1 {
		// the last one is only a placeholder
		v.children.arr = v.children.arr[:pos]
		ok = false
	}
	var isNewChild bool
'''),
], "a path of at least three steps through a null at the end of an array", "it is replaced, or removed with an error", M('''
	v := jsonvalue.MustUnmarshalString("[1,null]")
	_, err := v.Set(1).At(1, "a", "b")
	check(err != nil)
	check(v.MustMarshalString() == "[1,null]")'''))
