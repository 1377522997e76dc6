bug("p20-lazy-slice", "P20", [
 ("option.go", '''	opt := emptyOptions()
	opt.combineOptionsFrom(opts)
	internal.defaultMarshalOption.Store(opt)
}

''', '''	opt := emptyOptions()
	opt.defaults = opts // merged when they are needed, as some of them may be costly
	internal.defaultMarshalOption.Store(opt)
}

'''),
 ("option.go", '''	res := *internal.defaultMarshalOption.Load().(*Opt)
	return &res
''', '''	res := *internal.defaultMarshalOption.Load().(*Opt)
	if opts := res.defaults; len(opts) > 0 {
		res.combineOptionsFrom(opts)
	}
	return &res
'''),
 ("option.go", '''	indent struct {
		enabled bool
''', '''	// options given to SetDefaultMarshalOptions
	defaults []Option

	indent struct {
		enabled bool
'''),
], "SetDefaultMarshalOptions(opts...) with a slice which the caller changes afterwards", "the defaults change without a call", M('''
	opts := []jsonvalue.Option{jsonvalue.OptSetSequence(), jsonvalue.OptIndent("", " ")}
	jsonvalue.SetDefaultMarshalOptions(opts...)
	v := jsonvalue.MustUnmarshalString(`{"a":1}`)
	before := v.MustMarshalString()
	opts[1] = jsonvalue.OptUTF8()
	check(v.MustMarshalString() == before, v.MustMarshalString())'''))

bug("p22-option-cache", "P22", [
 ("option.go", '''type optMarshalKeySequence struct {
	seq []string
}

func (o *optMarshalKeySequence) mergeTo(opt *Opt) {
	opt.MarshalLessFunc = nil
	opt.MarshalKeySequence = o.seq
	opt.keySequence = nil
''', '''type optMarshalKeySequence struct {
	seq   []string
	index map[string]int // the same for all calls with this option
}

func (o *optMarshalKeySequence) mergeTo(opt *Opt) {
	if o.index == nil && len(o.seq) > 0 {
		o.index = make(map[string]int, len(o.seq))
		for i, key := range o.seq {
			o.index[key] = i
		}
	}
	opt.MarshalLessFunc = nil
	opt.MarshalKeySequence = o.seq
	opt.keySequence = o.index
'''),
], "one OptKeySequence option, made once, and used by several goroutines", "a data race on its index, and keys in the wrong order", M('''
	for r := 0; r < 300; r++ {
		var keys []string
		for i := 200; i > 0; i-- {
			keys = append(keys, fmt.Sprint("k", i))
		}
		o := jsonvalue.OptKeySequence(keys)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				v := jsonvalue.MustUnmarshalString(`{"k1":1,"k2":2}`)
				check(v.MustMarshalString(o) == `{"k2":2,"k1":1}`)
			}()
		}
		wg.Wait()
	}''', ["sync"]), race=True)

bug("p24-same-twice", "P24", [
 ("sort.go", '''func (v *sortArrayV) Sort() {
	sort.Sort(v)
}
''', '''func (v *sortArrayV) Sort() {
	// equal elements keep the order they had
	v.pos = make(map[*V]int, v.Len())
	for i, child := range v.v.children.arr {
		v.pos[child] = i
	}
	sorted := make([]*V, 0, v.Len())
	for child := range v.pos {
		sorted = append(sorted, child)
	}
	sort.Slice(sorted, func(i, j int) bool {
		return v.pos[sorted[i]] < v.pos[sorted[j]]
	})
	sort.SliceStable(sorted, func(i, j int) bool {
		return v.lessFunc(sorted[i], sorted[j])
	})
	v.v.children.arr = sorted
}
'''),
 ("sort.go", '''	v        *V
	lessFunc ArrayLessFunc
}
''', '''	v        *V
	lessFunc ArrayLessFunc
	pos      map[*V]int
}
'''),
], "an array which holds the same *V twice", "the second one is lost", M('''
	x := jsonvalue.NewInt(3)
	a := jsonvalue.NewArray()
	a.MustAppend(x).InTheEnd()
	a.MustAppendInt(1).InTheEnd()
	a.MustAppend(x).InTheEnd()
	a.SortArray(func(a, b *jsonvalue.V) bool { return a.Int() < b.Int() })
	check(a.MustMarshalString() == `[1,3,3]`, a.MustMarshalString())'''))

bug("p09-tombstone", "P09", [
 ("insert_append_delete.go", '''	_, exist = v.children.object[key]
	if exist {
		delete(v.children.object, key)
		delCaselessKey(v, key)
		return true
	}

	if !caseless {
''', '''	deleted, exist := v.children.object[key]
	if exist {
		delete(v.children.object, key)
		delCaselessKey(v, key)
		if deleted.id == v.children.incrID {
			v.children.incrID-- // the last one, its number is free again
		}
		return true
	}

	if !caseless {
'''),
 ("set.go", '''	v.children.incrID++
	v.children.object[key] = childWithProperty{
		id: v.children.incrID,
		v:  child,
	}
''', '''	if old, exist := v.children.object[key]; exist && old.id == v.children.incrID {
		old.v = child // it is the last one already
		v.children.object[key] = old
	} else {
		v.children.incrID++
		v.children.object[key] = childWithProperty{
			id: v.children.incrID,
			v:  child,
		}
	}
	if len(v.children.object) == 1 {
		v.children.incrID = 1 // start over, in order not to run out of numbers
	}
'''),
], "an object with one member which was set more than once after another one was deleted, and further sets", "a new key gets a number which is not larger than an earlier one's", M('''
	v := jsonvalue.NewObject()
	v.MustSet(1).At("a")
	v.MustSet(1).At("b")
	v.MustSet(1).At("c")
	v.MustDelete("a")
	v.MustDelete("b")
	v.MustSet(1).At("c")
	v.MustSet(1).At("d")
	v.MustSet(1).At("e")
	check(v.MustMarshalString(jsonvalue.OptSetSequence()) == `{"c":1,"d":1,"e":1}`, v.MustMarshalString(jsonvalue.OptSetSequence()))'''))

bug("x-p16-path-alias", "P16", [
 ("sort.go", '''	path := make(KeyPath, 0, len(nilableParentInfo.KeyPath)+1)
	path = append(path, nilableParentInfo.KeyPath...)
	return &ParentInfo{
		Parent:  v,
		KeyPath: append(path, &key),
	}
''', '''	return &ParentInfo{
		Parent:  v,
		KeyPath: append(nilableParentInfo.KeyPath, &key),
	}
'''),
], "a less function which keeps the path of an object at a depth of four or more, which has siblings", "the kept path turns into the sibling's", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":{"b":{"c":{"d":{"x":1,"y":2},"e":{"x":1,"y":2}}}}}`)
	var kept []jsonvalue.KeyPath
	var texts []string
	v.MustMarshalString(jsonvalue.OptKeySequenceWithLessFunc(func(p *jsonvalue.ParentInfo, k1, k2 string, v1, v2 *jsonvalue.V) bool {
		if p != nil {
			kept = append(kept, p.KeyPath)
			texts = append(texts, p.KeyPath.String())
		}
		return k1 < k2
	}))
	for i, p := range kept {
		check(p.String() == texts[i], p.String(), texts[i])
	}'''))

bug("p16-prefix8", "P16", [
 ("sort.go", '''	return strings.Compare(key1, key2) <= 0
}
''', '''	if len(key1) < 8 || len(key2) < 8 {
		return strings.Compare(key1, key2) <= 0
	}
	for i := 0; i < 8; i++ {
		if key1[i] != key2[i] {
			return key1[i] < key2[i]
		}
	}
	if len(key1) != len(key2) {
		return len(key1) < len(key2)
	}
	return strings.Compare(key1[8:], key2[8:]) <= 0
}
'''),
], "keys of different lengths with the same first eight bytes", "the shorter one comes first", M('''
	v := jsonvalue.MustUnmarshalString(`{"customer_zip":1,"customer_address":2}`)
	s := v.MustMarshalString(jsonvalue.OptDefaultStringSequence())
	check(s == `{"customer_address":2,"customer_zip":1}`, s)'''))

bug("p17-omit-nan", "P19", [
 ("marshal.go", '''	if child.IsNull() && opt.OmitNull {
		return !isFirstOne, nil // keep what has been written before
	}
''', '''	if opt.OmitNull && (child.IsNull() || child.IsNumber() && len(child.srcByte) == 0 &&
		math.IsNaN(child.num.f64) && opt.FloatNaNHandleType == FloatNaNNull) {
		return !isFirstOne, nil // keep what has been written before
	}
'''),
], "OptOmitNull and OptFloatNaNToNull together, and a member which is NaN", "the member is left out", M('''
	v := jsonvalue.NewObject()
	v.MustSet(math.NaN()).At("a")
	s := v.MustMarshalString(jsonvalue.OptOmitNull(true), jsonvalue.OptFloatNaNToNull())
	check(s == `{"a":null}`, s)''', ["math"]))

bug("p10-equal-fold", "P10", [
 ("get.go", '''	lowerCaseKey := strings.ToLower(key)
	keys, exist := v.children.lowerCaseKeys[lowerCaseKey]
	if !exist {
		return &V{}, false
	}
''', '''	keys, exist := v.children.lowerCaseKeys[strings.ToLower(key)]
	if !exist {
		keys, exist = v.children.lowerCaseKeys[strings.ToLower(strings.ToUpper(key))]
	}
	if !exist {
		return &V{}, false
	}
'''),
], "a caseless lookup of a key with a letter whose upper case has another lower case (the long s, the final sigma)", "a key with another lower-case form is found", M('''
	v := jsonvalue.MustUnmarshalString(`{"Sum":1}`)
	_, err := v.Caseless().Get("\\u017fum")
	check(err != nil)'''))

bug("x-p02-overlong", "P02", [
 ("unmarshal.go", '''		if !utf8.Valid(it[*i : *i+le]) {
			err''', '''		for _, b := range it[*i+1 : *i+le] {
			if utf8.RuneStart(b) {
				err = fmt.Errorf("%w: illegal UTF8 string at Position %d", ErrIllegalString, *i)
				return
			}
		}
		if r, _ := utf8.DecodeRune(it[*i : *i+le]); r == utf8.RuneError && le != 3 {
			err'''),
], "a string with a surrogate in (illegal) UTF-8", "it is accepted", M('''
	_, err := jsonvalue.Unmarshal([]byte("\\"\\xed\\xa0\\x80\\""))
	check(err != nil)'''))

bug("p02-hex-sign", "P02", [
 ("unmarshal.go", '''	b3 := chrToHex(it[*i+2], &err)
	b2 := chrToHex(it[*i+3], &err)
	b1 := chrToHex(it[*i+4], &err)
	b0 := chrToHex(it[*i+5], &err)
	if err != nil {
		return
	}

	r := (rune(b3) << 12) + (rune(b2) << 8) + (rune(b1) << 4) + rune(b0)
''', '''	hex, err := strconv.ParseInt(string(it[*i+2:*i+6]), 16, 32)
	if err != nil {
		return
	}

	r := rune(hex)
'''),
], "an escape of a character with a sign among its digits", "it is accepted", M('''
	_, err := jsonvalue.UnmarshalString(`"\\u+041"`)
	check(err != nil)'''))

bug("p01-dup-merge", "P01", [
 ("unmarshal.go", '''			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right)
			if err != nil {
				return nil, -1, err
			}
			setToObjectChildren(obj, unsafe.BtoS(it[keyStart:keyEnd]), v)
''', '''			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right)
			if err != nil {
				return nil, -1, err
			}
			key := unsafe.BtoS(it[keyStart:keyEnd])
			if old, exist := obj.children.object[key]; exist && old.v.IsObject() && v.Len() == 0 {
				v = old.v // an empty object adds nothing
			}
			setToObjectChildren(obj, key, v)
'''),
], "a repeated key whose values are objects, the later one empty", "the earlier one is kept", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":{"b":1},"a":{}}`)
	check(v.MustGet("a").Len() == 0, v.MustMarshalString())'''))

bug("p02-word-scan", "P02", [
 ("unmarshal.go", '''	// iterate every byte
	for i := offset; i < end; {
		chr := it[i]
''', '''	// iterate every byte
	i := offset
	for i < end {
		if sectEnd == i {
			n := it.plainChars(i)
			i += n
			sectEnd += n
		}
		chr := it[i]
'''),
 ("unmarshal.go", '''func (it iter) handleEscapeStart(i *int, sectEnd *int) error {
''', '''// plainChars counts the characters from offset on which are neither quotes, escapes nor beyond
// ASCII, by eight at a time
func (it iter) plainChars(offset int) (n int) {
	const lo, hi, ascii = 0x0101010101010101, 0x8080808080808080, 0x8080800080808080
	for len(it)-offset-n >= 32 {
		var x uint64
		for k := 7; k >= 0; k-- {
			x = x<<8 | uint64(it[offset+n+k])
		}
		q, b := x^(lo*'"'), x^(lo*'\\\\')
		if ((q-lo)&^q|(b-lo)&^b)&hi != 0 || x&ascii != 0 {
			return n
		}
		n += 8
	}
	return n
}

func (it iter) handleEscapeStart(i *int, sectEnd *int) error {
'''),
], "illegal UTF-8 in the fifth of eight bytes without anything else but plain characters, well before the end of the text", "it is accepted", M('''
	_, err := jsonvalue.Unmarshal([]byte("[\\"abcd\\xffefghijklmnopqrstuvwxyz0123456789\\", 123456789012345678]"))
	check(err != nil)'''))

bug("p04-wide-clinger", "P04", [
 ("unmarshal.go", '''	f, err := strconv.ParseFloat(unsafe.BtoS(it[start:end]), 64)
	if err != nil {
		return nil, it.numErrorf(start, "%w", err)
	}
''', '''	f, ok := it.parseShortFloat(start, end)
	if !ok {
		var err error
		f, err = strconv.ParseFloat(unsafe.BtoS(it[start:end]), 64)
		if err != nil {
			return nil, it.numErrorf(start, "%w", err)
		}
	}
'''),
 ("unmarshal.go", '''func (it iter) parsePositiveIntResult(''', '''// parseShortFloat handles the ordinary case: less than 16 digits, and no exponent
func (it iter) parseShortFloat(start, end int) (f float64, ok bool) {
	mantissa, scale, dot := uint64(0), 1.0, false
	if end-start > 16 {
		return 0, false
	}
	for i := start; i < end; i++ {
		switch b := it[i]; {
		case b >= '0' && b <= '9':
			mantissa = mantissa*10 + uint64(b-'0')
			if dot {
				scale /= 10 // exact enough
			}
		case b == '.':
			dot = true
		default:
			return 0, false
		}
	}
	if scale < 1e-5 {
		return 0, false
	}
	if scale > 1e-3 {
		return float64(mantissa) / math.Round(1/scale), true
	}
	return float64(mantissa) * scale, true
}

func (it iter) parsePositiveIntResult('''),
 ("unmarshal.go", '''	"fmt"
	"strconv"
''', '''	"fmt"
	"math"
	"strconv"
'''),
], "a positive number with exactly three to five decimals and no exponent", "its last bit is wrong", M('''
	v := jsonvalue.MustUnmarshalString(`[1.3251]`)
	bad := 0
	for i := 0; i < 100000; i++ {
		s := fmt.Sprintf("%d.%04d", i%97, i%10000)
		f, _ := strconv.ParseFloat(s, 64)
		if jsonvalue.MustUnmarshalString(s).Float64() != f {
			bad++
		}
	}
	check(v.Len() == 1 && bad == 0, bad)''', ["strconv"]))

bug("p05-numeric-index", "P05", [
 ("get.go", '''	pos, err := anyToInt(param)
	if err != nil {
		return &V{}, err
	}
	child, ok := childAtIndex(v, pos)
''', '''	pos, err := anyToInt(param)
	if err != nil {
		var s string
		if s, err = anyToString(param); err != nil {
			return &V{}, err
		}
		if pos, err = strconv.Atoi(s); err != nil {
			return &V{}, ErrTypeNotMatch
		}
	}
	child, ok := childAtIndex(v, pos)
'''),
 ("get.go", '''	"fmt"
	"strings"
''', '''	"fmt"
	"strconv"
	"strings"
'''),
], "a key which spells a number, in an array", "the element is found", M('''
	_, err := jsonvalue.MustUnmarshalString(`{"a":[1,2]}`).Get("a", "1")
	check(err != nil)'''))

bug("p11-missing-null", "P11", [
 ("compare.go", '''		rightChild, exist := right.children.object[k]
		if !exist {
			return false
		}
		if !leftChild.v.Equal(rightChild.v) {
''', '''		rightChild := right.children.object[k]
		if rightChild.v == nil {
			rightChild.v = NewNull() // the same as a member which is null
		}
		if !leftChild.v.Equal(rightChild.v) {
'''),
], "objects with equally many members, with null under different keys", "they are equal", M('''
	a := jsonvalue.MustUnmarshalString(`{"a":null,"c":1}`)
	b := jsonvalue.MustUnmarshalString(`{"b":null,"c":1}`)
	check(!a.Equal(b))'''))

bug("p11-depth", "P11", [
 ("compare.go", '''	for i, leftChild := range left.children.arr {
		rightChild := right.children.arr[i]
		if !leftChild.Equal(rightChild) {
			return false
		}
	}
	return true
}
''', '''	le := len(left.children.arr)
	for i := range left.children.arr {
		leftChild, rightChild := left.children.arr[i], right.children.arr[i]
		if le > 64 && i%2 == 1 && i < le-1 && leftChild.IsNumber() && left.children.arr[i-1].IsNumber() && left.children.arr[i+1].IsNumber() {
			// long rows of numbers: compare their texts first
			if r := rightChild; r.IsNumber() && len(r.srcByte) == len(leftChild.srcByte) {
				continue
			}
		}
		if !leftChild.Equal(rightChild) {
			return false
		}
	}
	return true
}
'''),
], "arrays of more than 64 numbers which differ in one with an odd index, whose texts have the same length", "they are equal", M('''
	a, b := jsonvalue.NewArray(), jsonvalue.NewArray()
	for i := 0; i < 70; i++ {
		a.MustAppendInt(i % 10).InTheEnd()
		b.MustAppendInt(i % 10).InTheEnd()
	}
	b.MustSet(5).At(33)
	check(!a.Equal(b))'''))

bug("x-p14-dash-comma", "P14", [
 ("import_export.go", '''	return strings.TrimSpace(ft.Tag.Get(name)) == "-"
''', '''	return strings.TrimSpace(strings.Split(ft.Tag.Get(name), ",")[0]) == "-"
'''),
], "a field with the tag -, (its name is a dash)", "it is left out", M('''
	type T struct {
		A int `json:"-,"`
	}
	s := jsonvalue.New(T{1}).MustMarshalString()
	check(s == `{"-":1}`, s)'''))

bug("x-p14-interface-omit", "P14", [
 ("import_export.go", '''	ex.omitempty = false // the pointer is not empty, no matter what it points to
''', '''	ex.omitempty = ex.omitempty && v.Kind() != reflect.Ptr // the pointer is not empty, no matter what it points to
'''),
], "a field of an interface type with omitempty which holds a zero value", "it is left out", M('''
	type T struct {
		A interface{} `json:"a,omitempty"`
	}
	s := jsonvalue.New(T{0}).MustMarshalString()
	check(s == `{"a":0}`, s)'''))

bug("p15-export-nopath", "P15", [
 ("import_export.go", '''	b, err := v.Marshal()
	if err != nil {
		return err
	}

	return json.Unmarshal(b, dst)
}
''', '''	switch d := dst.(type) {
	case *string:
		if d != nil && v.IsString() {
			*d = v.valueStr
			return nil
		}
	case *float64:
		if d != nil && v.IsNumber() && isValidFloat(v.num.f64) {
			*d = v.num.f64
			return nil
		}
	case *bool:
		if d != nil && v.IsBoolean() {
			*d = v.valueBool
			return nil
		}
	case *[]byte:
		if d != nil && v.IsString() {
			*d = v.Bytes()
			return nil
		}
	}
	b, err := v.Marshal()
	if err == nil {
		err = json.Unmarshal(b, dst)
	}
	return err
}
'''),
], "Export to a *[]byte of a string which is not base64", "no error", M('''
	var b []byte
	err := jsonvalue.NewString("???").Export(&b)
	check(err != nil)'''))

bug("p18-run-copy", "P18", [
 ("conv.go", '''	for _, r := range s {
		if r <= 0x7F {
			b := byte(r)
			opt.asciiCharEscapingFunc[b](b, buf)
''', '''	plain := 0 // characters which are as they are, to be copied at once
	for plain < len(s) && (s[plain] >= '0' && s[plain] <= '9' || s[plain] >= '@' && s[plain] <= '~') && s[plain] != 0x5C {
		plain++
	}
	if plain >= 16 {
		for plain < len(s) && s[plain] >= ' ' && s[plain] != '"' && s[plain] != 0x5C && s[plain] < 0x7F {
			plain++
		}
		_, _ = buf.WriteString(s[:plain])
	} else {
		plain = 0
	}
	for _, r := range s[plain:] {
		if r <= 0x7F {
			b := byte(r)
			opt.asciiCharEscapingFunc[b](b, buf)
'''),
], "a string which starts with 16 letters or digits, and has one of <>&/ behind them", "it is not escaped", M('''
	s := jsonvalue.NewString("abcdefghijklmnopqrst <b>").MustMarshalString()
	check(s == `"abcdefghijklmnopqrst \\u003Cb\\u003E"`, s)'''))

bug("p21-raw-message", "P21", [
 ("import_export.go", '''	b, err := marshaler.MarshalJSON()
	if err != nil {
		return &V{}, fmt.Errorf("JSONMarshaler returns error: %w", err)
	}

	res, err := Unmarshal(b)
''', '''	b, err := marshaler.MarshalJSON()
	if err != nil {
		return &V{}, fmt.Errorf("JSONMarshaler returns error: %w", err)
	}

	res, err := UnmarshalNoCopy(b) // just made, nobody else has it
'''),
], "Import of a json.RawMessage (which is its own MarshalJSON), whose bytes are used afterwards", "the message is changed by escapes, and the value changes with it", M('''
	raw := json.RawMessage(`{"a":"x\\u0041"}`)
	v := jsonvalue.New(raw)
	check(string(raw) == `{"a":"x\\u0041"}`, string(raw))
	copy(raw, `{"b":`)
	check(v.MustGet("a").String() == "xA", v.MustMarshalString())''', ["encoding/json"]))

bug("p26-f32-prec", "P26", [
 ("new.go", '''	if err := validateFloat64Format(format); err != nil {
		format = 'g'
	}
	return newFloat64f(globalPool{}, float64(f), format, prec, 64)
}
''', '''	if err := validateFloat64Format(format); err != nil {
		format = 'g'
	}
	if prec > 17 {
		return newFloat64f(globalPool{}, float64(f), format, 17, 64) // all digits a float has
	}
	f64 := float64(f)
	return newFloat64f(globalPool{}, f64, format, prec, 64)
}
'''),
], "NewFloat32f with a precision above 17", "fewer digits than strconv.FormatFloat", M('''
	s := jsonvalue.NewFloat32f(0.1, 'f', 25).String()
	check(s == strconv.FormatFloat(float64(float32(0.1)), 'f', 25, 64), s)''', ["strconv"]))

bug("p13-nbsp", "P13", [
 ("get.go", '''	ret, _ := newFromNumber(globalPool{}, bytes.TrimSpace([]byte(v.valueStr)))
	err := parseNumber(ret, globalPool{})
	if err != nil {
		return NewInt64(0)
	}
	return ret
''', '''	b := bytes.TrimSpace([]byte(v.valueStr))
	if le := len(b); le > 1 && b[le-1] == '%' {
		b = b[:le-1] // a percentage
	}
	ret, _ := newFromNumber(globalPool{}, b)
	err := parseNumber(ret, globalPool{})
	if err != nil {
		return NewInt64(0)
	}
	return ret
'''),
], "Int of a string like 50%", "50 instead of zero", M('''
	check(jsonvalue.NewString("50%").Int() == 0)'''))

bug("x-p06-negative-new", "P06", [
 ("set.go", '''	child, ok := childAtIndex(v, pos)
	isNewChild := false
	if !ok {
		// only the position right after the last one could be appended
		if pos != len(v.children.arr) {
''', '''	child, ok := childAtIndex(v, pos)
	isNewChild := false
	if !ok {
		if pos != len(v.children.arr) && pos != -len(v.children.arr)-1 {
'''),
], "a negative index one beyond the beginning, and further steps", "an element is appended instead of an error", M('''
	v := jsonvalue.MustUnmarshalString(`[1,2]`)
	_, err := v.Set(1).At(-3, "a")
	check(err != nil && v.Len() == 2, v.MustMarshalString())'''))

bug("p07-append-null", "P07", [
 ("insert_append_delete.go", '''	child, err := v.GetArray(params[0], params[1:paramCount]...)
	if err != nil {
		if !errors.Is(err, ErrNotFound) {
			return &V{}, err
		}
		child, err = v.SetArray().At(params[0], params[1:]...)
		if err != nil {
			return &V{}, err
		}
	}

	appendToArr(child, c)
''', '''	child, err := v.GetArray(params[0], params[1:paramCount]...)
	if err != nil {
		if !errors.Is(err, ErrNotFound) && v.GetNull(params[0], params[1:paramCount]...) != nil {
			return &V{}, err
		}
		child, err = v.SetArray().At(params[0], params[1:]...)
		if err != nil {
			return &V{}, err
		}
	}

	appendToArr(child, c)
'''),
], "Append InTheEnd at a place which is null", "the null is replaced by an array instead of an error", M('''
	v := jsonvalue.MustUnmarshalString(`{"a":null}`)
	_, err := v.Append(1).InTheEnd("a")
	check(err != nil && v.MustGet("a").IsNull(), v.MustMarshalString())'''))

bug("p08-through", "P08", [
 ("insert_append_delete.go", '''	child, err := get(v, caseless, firstParam, otherParams[:paramCount-1]...)
	if err != nil {
		return err
	}
	// if child == nil {
	// 	return ErrNotFound
	// }

	return child.delete(caseless, otherParams[paramCount-1])
''', '''	child, err := get(v, caseless, firstParam, otherParams[:paramCount-1]...)
	if err != nil {
		return err
	}
	if child.IsNull() {
		return nil // there is nothing
	}

	return child.delete(caseless, otherParams[paramCount-1])
'''),
], "Delete of something inside of a member which is null", "no error", M('''
	check(jsonvalue.MustUnmarshalString(`{"a":null}`).Delete("a", "b") != nil)'''))

bug("x-p12-digits", "P12", [
 ("compare.go", '''	m1 := int64(d1.NumDigits()) + int64(d1.Exponent())
	m2 := int64(d2.NumDigits()) + int64(d2.Exponent())
	const tolerance = 2 // NumDigits may be off by one
''', '''	m1 := int64(int16(d1.NumDigits())) + int64(d1.Exponent())
	m2 := int64(int16(d2.NumDigits())) + int64(d2.Exponent())
	const tolerance = 2 // NumDigits may be off by one
'''),
], "a number with more than 32767 digits", "it counts as a small one", M('''
	a := jsonvalue.MustUnmarshalString("1." + strings.Repeat("3", 40000))
	b := jsonvalue.MustUnmarshalString("0.5")
	check(a.GreaterThan(b))''', ["strings"]))

bug("p27-negative-huge", "P27", [
 ("set.go", '''func childAtIndex(v *V, pos int) (*V, bool) { // if nil returned, means that just push
	pos = posAtIndexForRead(v, pos)
	if pos < 0 {
		return &V{}, false
	}
''', '''func childAtIndex(v *V, pos int) (*V, bool) { // if nil returned, means that just push
	if -pos > len(v.children.arr) {
		return &V{}, false
	}
	if pos < 0 {
		pos += len(v.children.arr)
	} else if pos >= len(v.children.arr) {
		return &V{}, false
	}
'''),
], "Get with the smallest integer as index (its negation is itself)", "a panic", M('''
	_, err := jsonvalue.MustUnmarshalString(`[1]`).Get(math.MinInt64)
	check(err != nil)''', ["math"]))

bug("p18-key-word", "P18", [
 ("marshal.go", '''	_ = buf.WriteByte('"')
	escapeStringToBuff(key, buf, opt)

	if opt.indent.enabled {
		_, _ = buf.WriteString("\\": ")
''', '''	_ = buf.WriteByte('"')
	if isIdentifier(key) {
		_, _ = buf.WriteString(key)
	} else {
		escapeStringToBuff(key, buf, opt)
	}

	if opt.indent.enabled {
		_, _ = buf.WriteString("\\": ")
'''),
 ("marshal.go", '''func writeIndent(''', '''// isIdentifier tells whether a key is a word, as most of them, so that nothing in it needs escaping
func isIdentifier(key string) bool {
	if len(key) < 9 || key[0] >= utf8.RuneSelf {
		return false
	}
	for _, r := range key {
		if r != '_' && !unicode.IsLower(r) && !unicode.IsDigit(r) {
			return false
		}
	}
	return true
}

func writeIndent('''),
 ("marshal.go", '''	"strings"

''', '''	"strings"
	"unicode"
	"unicode/utf8"

'''),
], "a key of nine bytes or more which are lower-case letters, some (not the first one) beyond ASCII", "the key is not escaped as values are", M('''
	v := jsonvalue.NewObject()
	v.MustSet(1).At("caf\\u00e9_prices")
	check(v.MustMarshalString() == `{"caf\\u00E9_prices":1}`, v.MustMarshalString())'''))

bug("p19-prefix-cut", "P19", [
 ("marshal.go", '''	_, _ = buf.WriteString(opt.indent.prefix)
	for i := 0; i < opt.indent.cnt; i++ {
''', '''	if opt.indent.indent != "" || opt.indent.cnt > 0 { // not at the end of the text
		_, _ = buf.WriteString(opt.indent.prefix)
	}
	for i := 0; i < opt.indent.cnt; i++ {
'''),
], "OptIndent with a prefix and an empty indent", "the last line has no prefix", M('''
	s := jsonvalue.MustUnmarshalString(`[1]`).MustMarshalString(jsonvalue.OptIndent("//", ""))
	check(s == "[\\n//1\\n//]", s)'''))

bug("p22-base64-scratch", "P22", [
 ("set.go", '''	s := internal.b64.EncodeToString(b)
	return v.SetString(s)
''', '''	if le := internal.b64.EncodedLen(len(b)); le > len(base64Scratch) {
		base64Scratch = make([]byte, le)
	}
	internal.b64.Encode(base64Scratch, b)
	return v.SetString(string(base64Scratch[:internal.b64.EncodedLen(len(b))]))
'''),
 ("set.go", '''func (v *V) SetBytes(''', '''var base64Scratch = make([]byte, 256)

func (v *V) SetBytes('''),
], "SetBytes on values of two goroutines", "a data race, and another goroutine's bytes", M('''
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			v := jsonvalue.NewObject()
			b := []byte(fmt.Sprint("goroutine ", g))
			for i := 0; i < 50000; i++ {
				v.SetBytes(b).At("b")
				check(string(v.MustGet("b").Bytes()) == string(b))
			}
		}(g)
	}
	wg.Wait()''', ["sync"]), race=True)

bug("p25-null-member", "P25", [
 ("beta/contain.go", '''		vv, err := v.Get(k)
		if err != nil {
			res = false
			return false
		}
''', '''		vv, err := v.Get(k)
		if err != nil {
			res = subV.IsNull() // a missing member is null as well
			return res
		}
'''),
], "an object within sub with a null member which v does not have", "it is contained", M('''
	v := jsonvalue.MustUnmarshalString(`{"A":{"x":1}}`)
	check(!beta.Contains(v, jsonvalue.MustUnmarshalString(`{"A":{"b":null}}`)))''', ["github.com/Andrew-M-C/go.jsonvalue/beta"]))

